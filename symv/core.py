"""Symbolic real numbers.

A Sym is a Laurent polynomial with rational coefficients over *atoms*: free
variables, square roots, trigonometric values, packed denominators, unknowns of
a linear system and uninterpreted transcendental values.  Products are reduced
with the defining relations of the atoms (s*s = t for a root, sin^2 = 1-cos^2,
half-angle relations), which is the encoder's simplifier; verdicts on branch
feasibility and on obligations come from z3 (module prove).
"""
from fractions import Fraction
import math
import numbers

import mpmath

Q = Fraction


class EngineError(Exception):
    """The engine cannot encode what the code does (never a verdict)."""


class PathAbort(Exception):
    """The current path is infeasible or is abandoned."""


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'kind', 'name', 'data', 'lo', 'hi', 'red', 'numeric')

    def __init__(self, id, kind, name, data, lo=None, hi=None, red=False, numeric=False):
        self.id, self.kind, self.name, self.data = id, kind, name, data
        self.lo, self.hi, self.red, self.numeric = lo, hi, red, numeric

    def __repr__(self):
        return self.name


ATOMS = []
_KEY = {}


def _atom(key, kind, name, data, **kw):
    a = _KEY.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, name, data, **kw)
        ATOMS.append(a)
        _KEY[key] = a
    return a


def reset_atoms():
    ATOMS.clear()
    _KEY.clear()
    _MM.clear()
    _FP.clear()
    _SIGNCACHE.clear()
    NONNEG.clear()
    global PI
    PI = _mk_pi()


# --------------------------------------------------------------------------
# polynomials (dict mono -> coefficient)
# --------------------------------------------------------------------------
ONE = ()


def _n(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


_MM = {}


def mmul(a, b):
    """Product of two monomials: a mono (tuple) or, when relations apply, a dict."""
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MM.get(k)
    if r is not None:
        return r
    i = j = 0
    out = []
    red = False
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
                if ATOMS[x[0]].red:
                    red = True
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            if ATOMS[x[0]].red:
                red = True
            i += 1
        else:
            out.append(y)
            if ATOMS[y[0]].red:
                red = True
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    if not red:
        for x in a[i:]:
            if ATOMS[x[0]].red:
                red = True
        for x in b[j:]:
            if ATOMS[x[0]].red:
                red = True
    m = tuple(out)
    r = reduce_mono(m) if red else m
    _MM[k] = r
    return r


def _mono_rule(m):
    """First applicable rewrite: (rest mono, Sym factor) or None."""
    d = None
    for idx, (aid, e) in enumerate(m):
        a = ATOMS[aid]
        if not a.red:
            continue
        if a.kind == 'sqrt':
            if e < 0 or e >= 2:
                k, r = divmod(e, 2)
                rest = m[:idx] + (((aid, r),) if r else ()) + m[idx + 1:]
                t = Sym(a.data)
                return rest, (ipow(t, k) if k > 0 else ipow(inv(t), -k))
        elif a.kind == 'trig':
            if d is None:
                d = dict(m)
            base, which = a.data
            C, S_, CH, SH = trig_atoms(base)
            es, ech, esh = d.get(S_.id, 0), d.get(CH.id, 0), d.get(SH.id, 0)

            def rest_of(changes):
                dd = dict(d)
                for kk, v in changes.items():
                    dd[kk] = dd.get(kk, 0) + v
                return tuple(sorted((x, y) for x, y in dd.items() if y))
            c = Sym({((C.id, 1),): 1})
            if es >= 2:
                return rest_of({S_.id: -2}), 1 - c * c
            if ech >= 2:
                return rest_of({CH.id: -2}), (1 + c) / 2
            if esh >= 2:
                return rest_of({SH.id: -2}), (1 - c) / 2
            if ech >= 1 and esh >= 1:
                return rest_of({CH.id: -1, SH.id: -1}), Sym({((S_.id, 1),): Q(1, 2)})
            if ech >= 1 and es >= 1:
                return rest_of({CH.id: -1, S_.id: -1}), Sym({((SH.id, 1),): 1}) * (1 + c)
            if esh >= 1 and es >= 1:
                return rest_of({SH.id: -1, S_.id: -1}), Sym({((CH.id, 1),): 1}) * (1 - c)
    return None


def reduce_mono(m):
    r = _mono_rule(m)
    if r is None:
        return m
    rest, f = r
    out = {}
    for fm, fc in f.t.items():
        p = mmul(rest, fm)
        if type(p) is tuple:
            p2 = reduce_mono(p) if _mono_rule(p) is not None else p
        else:
            p2 = p
        if type(p2) is tuple:
            _acc(out, p2, fc)
        else:
            for mm, c in p2.items():
                _acc(out, mm, c * fc)
    if len(out) == 1:
        (mm, c), = out.items()
        if c == 1:
            return mm
    return out


def _acc(d, m, c):
    v = d.get(m)
    if v is None:
        d[m] = c
    else:
        v = v + c
        if v:
            d[m] = v
        else:
            del d[m]


MAXTERMS = 400000


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > MAXTERMS * 10:
        raise EngineError('polynomial product too large (%d x %d terms)' % (len(p), len(q)))
    out = {}
    if len(p) < len(q):
        p, q = q, p
    get = out.get
    mm = _MM
    for b, cb in q.items():
        if not b:
            for a, ca in p.items():
                v = get(a)
                out[a] = ca * cb if v is None else v + ca * cb
            continue
        for a, ca in p.items():
            if not a:
                m = b
            else:
                m = mm.get((a, b))
                if m is None:
                    m = mmul(a, b)
            c = ca * cb
            if type(m) is tuple:
                v = get(m)
                out[m] = c if v is None else v + c
            else:
                for m2, c2 in m.items():
                    v = get(m2)
                    out[m2] = c * c2 if v is None else v + c * c2
    for k in [k for k, v in out.items() if not v]:
        del out[k]
    return out


def ratio(x):
    """Exact rational for a float: the short decimal/fraction it was written as."""
    f = Fraction(x)
    if f.denominator <= 1 << 20:
        return _n(f)
    for lim in (1000, 10 ** 6, 10 ** 9, 10 ** 12, 10 ** 15):
        g = f.limit_denominator(lim)
        if g and abs(g - f) <= abs(f) * Fraction(1, 2 ** 52):
            return _n(g)
    r = Fraction(repr(float(x)))
    return _n(r)


class Sym:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    # --- helpers
    @property
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and ONE in t)

    @property
    def is_nan(self):
        return self.t is NANT

    def const(self):
        return self.t.get(ONE, 0)

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    # --- arithmetic
    def __add__(self, o):
        if type(o) in (list, tuple):
            return listop(self, o, '__add__')
        o = sym(o)
        if o is NotImplemented:
            return NotImplemented
        if self.t is NANT or o.t is NANT:
            return NAN
        a, b = self.t, o.t
        if not a:
            return o
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        for m, c in b.items():
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = v + c
                if v:
                    d[m] = v
                else:
                    del d[m]
        return Sym(d)
    __radd__ = __add__

    def __neg__(self):
        if self.t is NANT:
            return NAN
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) in (list, tuple):
            return listop(self, o, '__sub__')
        o = sym(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if type(o) in (list, tuple):
            return listop(self, o, '__rsub__')
        o = sym(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if type(o) in (list, tuple):
            return listop(self, o, '__mul__')
        o = sym(o)
        if o is NotImplemented:
            return NotImplemented
        if self.t is NANT or o.t is NANT:
            return NAN
        if o.is_const:
            c = o.const()
            if not c:
                return ZERO
            return Sym({m: _n(v * c) for m, v in self.t.items()})
        if self.is_const:
            c = self.const()
            if not c:
                return ZERO
            return Sym({m: _n(v * c) for m, v in o.t.items()})
        return Sym(pmul(self.t, o.t))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) in (list, tuple):
            return listop(self, o, '__truediv__')
        o = sym(o)
        if o is NotImplemented:
            return NotImplemented
        if self.t is NANT or o.t is NANT:
            return NAN
        if not o.t:
            note_division(o)
            return NAN          # x/0: inf or nan in floating point, never a usable value
        return div(self, o)

    def __rtruediv__(self, o):
        if type(o) in (list, tuple):
            return listop(self, o, '__rtruediv__')
        o = sym(o)
        if o is NotImplemented:
            return NotImplemented
        return o.__truediv__(self)

    def __pow__(self, e):
        e = sym(e)
        if self.t is NANT or e.t is NANT:
            return NAN
        if e.is_const:
            c = Fraction(e.const())
            if c.denominator == 1:
                k = c.numerator
                if k >= 0:
                    return ipow(self, k)
                if not self.t:
                    note_division(self)
                    return NAN
                note_division(self)
                return ipow(inv(self), -k)
            if c.denominator == 2:
                r = self.sqrt()
                return ipow(r, c.numerator) if c > 0 else ipow(inv(r), -c.numerator)
        return powf(self, e)

    def __rpow__(self, b):
        return sym(b).__pow__(self)

    def __abs__(self):
        if self.t is NANT:
            return NAN
        if self.is_const:
            return Sym.c(abs(self.const()))
        if has_unk(self) and PATH.zero_by_lemmas(self):
            return ZERO
        if self < 0:
            return -self
        return self

    def __mod__(self, o):
        if self.is_const and sym(o).is_const:
            return Sym.c(self.const() % sym(o).const())
        raise EngineError('modulo of a symbolic value')

    def __floordiv__(self, o):
        if self.is_const and sym(o).is_const:
            return Sym.c(self.const() // sym(o).const())
        raise EngineError('floor division of a symbolic value')

    # --- comparisons
    def __lt__(self, o):
        return cmp(self, o, '<')

    def __le__(self, o):
        return cmp(self, o, '<=')

    def __gt__(self, o):
        return cmp(o, self, '<')

    def __ge__(self, o):
        return cmp(o, self, '<=')

    def __eq__(self, o):
        s = sym(o)
        if s is NotImplemented:
            return False
        return cmp(self, s, '==')

    def __ne__(self, o):
        s = sym(o)
        if s is NotImplemented:
            return True
        return cmp(self, s, '!=')

    def __bool__(self):
        return bool(cmp(self, ZERO, '!='))

    def __float__(self):
        if self.is_const:
            return float(self.const())
        if is_numeric(self):
            return float(numval(self))
        raise EngineError('float() of a symbolic value')

    def __int__(self):
        if self.is_const:
            return int(self.const())
        raise EngineError('int() of a symbolic value')

    __index__ = None

    def __round__(self, nd=None):
        if self.is_const:
            return Sym.c(ratio(round(float(self.const()), nd or 0)))
        raise EngineError('round() of a symbolic value')

    def __complex__(self):
        raise EngineError('complex() of a symbolic value')

    @staticmethod
    def c(v):
        v = _n(v)
        return Sym({ONE: v}) if v else ZERO

    # --- numpy object-ufunc protocol
    def sqrt(self):
        return sqrt(self)

    def square(self):
        return self * self

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def item(self):
        return self

    def tolist(self):
        return self

    def sin(self):
        return sincos(self)[0]

    def cos(self):
        return sincos(self)[1]

    def tan(self):
        s, c = sincos(self)
        return s / c

    def arctan2(self, o):
        return atan2(self, sym(o))

    def arctan(self):
        return uf('atan', (self,))

    def arcsin(self):
        return uf('asin', (self,))

    def arccos(self):
        return uf('acos', (self,))

    def log(self):
        return log(self)

    def exp(self):
        return uf('exp', (self,)) if not (self.is_const and not self.t) else Sym.c(1)

    def deg2rad(self):
        return self * PI / 180
    radians = deg2rad

    def rad2deg(self):
        return self * 180 / PI
    degrees = rad2deg

    def hypot(self, o):
        o = sym(o)
        return sqrt(self * self + o * o)

    def fabs(self):
        return abs(self)

    def isnan(self):
        return self.t is NANT

    def reciprocal(self):
        return Sym.c(1) / self

    def cbrt(self):
        raise EngineError('cbrt')

    def __repr__(self):
        if PRINTED is not None:
            PRINTED.append(self)
            return '<%d>' % (len(PRINTED) - 1)
        return show(self)

    def __format__(self, spec):
        return repr(self)


numbers.Real.register(Sym)


def listop(a, o, name):
    """number (op) list: the list is promoted to an array, as numpy scalars do."""
    from . import snp
    arr = snp.array(o)
    inv_name = {'__add__': '__radd__', '__mul__': '__rmul__', '__sub__': '__rsub__', '__truediv__': '__rtruediv__',
                '__rsub__': '__sub__', '__rtruediv__': '__truediv__'}[name]
    return getattr(arr.astype(object), inv_name)(a)

NANT = {(-1,): 1}
NAN = Sym(NANT)
ZERO = Sym({})


PRINTED = None  # a list while the values of a report are collected: numbers then print as <index>


def show(p, n=12):
    if p.t is NANT:
        return 'nan'
    if not p.t:
        return '0'
    out = []
    for m, c in list(p.t.items())[:n]:
        s = '*'.join(ATOMS[a].name + ('' if e == 1 else '^%d' % e) for a, e in m)
        out.append(('%s' % c) + ('*' + s if s else ''))
    if len(p.t) > n:
        out.append('... %d terms' % len(p.t))
    return ' + '.join(out)


def sym(x):
    if type(x) is Sym:
        return x
    t = type(x)
    if t is int or t is Fraction:
        return Sym({ONE: x}) if x else ZERO
    if t is bool:
        return Sym({ONE: int(x)}) if x else ZERO
    if isinstance(x, SymBool):
        return Sym.c(1) if bool(x) else ZERO
    if hasattr(x, 'ndim'):                         # numpy array or scalar
        if x.ndim == 0:
            return sym(x.item())
        return NotImplemented
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            raise EngineError('infinite constant')
        if x == math.pi:
            return PI
        return Sym.c(ratio(x))
    if isinstance(x, numbers.Rational):
        return Sym.c(Fraction(x))
    return NotImplemented


WHOLE = set()  # names of inputs that are whole numbers


def whole_input(x):
    """x is an input that is a whole number"""
    a = single_atom(x) if isinstance(x, Sym) else None
    return a is not None and a.kind == 'var' and a.name in WHOLE


def whole(x):
    """x is a whole number because of how it is made of inputs that are"""
    if isinstance(x, (bool, int)):
        return True
    if not isinstance(x, Sym):
        return hasattr(x, 'dtype') and x.dtype.kind in 'biu'
    if x.is_nan:
        return False
    return all(Q(c).denominator == 1 and all(k > 0 and ATOMS[i].kind == 'var' and ATOMS[i].name in WHOLE for i, k in m) for m, c in x.t.items())


def var(name, lo=None, hi=None, angle=False):
    a = _atom(('var', name), 'var', name, None, lo=lo, hi=hi)
    a.lo, a.hi = lo, hi
    return Sym({((a.id, 1),): 1})


def _mk_pi():
    a = _atom(('pi',), 'pi', 'pi', None, lo=Q(3141592653589793, 10 ** 15), hi=Q(3141592653589794, 10 ** 15), numeric=True)
    return Sym({((a.id, 1),): 1})


PI = _mk_pi()


def ipow(p, k):
    if k == 0:
        return Sym.c(1)
    r = None
    b = p
    while k:
        if k & 1:
            r = b if r is None else r * b
        k >>= 1
        if k:
            b = b * b
    return r


# --------------------------------------------------------------------------
# content, division
# --------------------------------------------------------------------------
def _gcd_frac(cs):
    num = 0
    den = 1
    for c in cs:
        c = Fraction(c)
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    return Fraction(num, den)


def lead(t):
    return max(t, key=_ordkey)


def _ordkey(m):
    return tuple((-a, e) for a, e in m)


def primitive(p):
    """p = c * m * P with P primitive (leading coefficient positive)."""
    t = p.t
    it = iter(t)
    m0 = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(m0):
            e = d.get(a, 0)
            if e < m0[a]:
                m0[a] = e
        for a, e in d.items():
            if a not in m0 and e < 0:
                m0[a] = e
        # atoms absent in m count as exponent 0
        for a in list(m0):
            if a not in d and m0[a] > 0:
                m0[a] = 0
    m0 = {a: e for a, e in m0.items() if e}
    c = _gcd_frac(t.values())
    if m0:
        im = tuple(sorted((a, -e) for a, e in m0.items()))
        out = {}
        for m, v in t.items():
            d = dict(m)
            for a, e in m0.items():
                d[a] = d.get(a, 0) - e
            mm = tuple(sorted((a, e) for a, e in d.items() if e))
            out[mm] = v
        t = out
    lm = lead(t)
    if t[lm] < 0:
        c = -c
    P = Sym({m: _n(Fraction(v) / c) for m, v in t.items()})
    mm = tuple(sorted(m0.items()))
    return _n(c), mm, P


def mono_inv(m):
    mm = tuple((a, -e) for a, e in m)
    r = reduce_mono(mm)
    return Sym({r: 1}) if type(r) is tuple else Sym(dict(r))


def mono_sym(m):
    r = reduce_mono(m)
    return Sym({r: 1}) if type(r) is tuple else Sym(dict(r))


def inv(p):
    if not p.t:
        raise EngineError('inverse of zero')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Sym.c(Fraction(1) / c) * mono_inv(m)
    if is_numeric(p):
        r = rationalise(p)
        if r is not None:
            return r
    p2 = simp(p)
    if len(p2.t) == 1:
        return inv(p2)
    c, m, P = primitive(p2)
    if has_neg_opaque(P):
        # fraction inside a denominator: clear it first
        num, den = as_fraction(P)
        if not num.t:
            raise EngineError('denominator vanishes identically')
        return Sym.c(Fraction(1) / c) * mono_inv(m) * den * inv(num)
    o = opaque(P)
    return Sym({((o.id, -1),): _n(Fraction(1) / c)}) * mono_inv(m)


def opaque(P):
    key = ('opq', P.key())
    a = _KEY.get(key)
    if a is None:
        a = unify('opq', P)
        if a is not None:
            _KEY[key] = a
            return a
        lo, hi = interval(P)
        a = _atom(key, 'opq', 'O%d' % len(ATOMS), P.t, lo=lo, hi=hi, numeric=is_numeric(P))
        _FP.setdefault('opq', []).append((fingerprint(P), a))
    return a


def rationalise(p):
    """1/p for p in a multiquadratic number field (few roots only)."""
    roots = sorted({a for m in p.t for a, e in m})
    if not roots or any(ATOMS[a].kind != 'sqrt' for a in roots) or len(roots) > 4:
        return None
    num = Sym.c(1)
    d = p
    for a in roots:
        conj = Sym({m: (-c if dict(m).get(a) else c) for m, c in d.t.items()})
        num = num * conj
        d = d * conj
        if len(num.t) > 32:
            return None
    if not d.is_const or not d.t:
        return None
    return num * (Fraction(1) / d.const())


def div(p, q):
    if q.is_const:
        return p * (Fraction(1) / q.const())
    note_division(q)
    if p.t == q.t:
        return Sym.c(1)
    if len(q.t) > 1 and len(p.t) >= len(q.t) and len(p.t) <= 4000:
        r = exact_div(p, q)
        if r is not None:
            return r
    return p * inv(q)


def dense(p, atoms):
    pos = {a: i for i, a in enumerate(atoms)}
    out = {}
    for m, c in p.t.items():
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        out[tuple(v)] = c
    return out


def exact_div(p, q, limit=3000):
    """p/q when q divides p as plain polynomials, else None."""
    atoms = sorted({a for m in p.t for a, e in m} | {a for m in q.t for a, e in m})
    qa = {a for m in q.t for a, e in m}
    pa = {a for m in p.t for a, e in m}
    if not qa <= pa:
        return None
    n = len(atoms)
    P = dense(p, atoms)
    D = dense(q, atoms)
    # shift Laurent exponents
    mp = [min(m[i] for m in P) for i in range(n)]
    md = [min(m[i] for m in D) for i in range(n)]
    P = {tuple(m[i] - mp[i] for i in range(n)): c for m, c in P.items()}
    D = {tuple(m[i] - md[i] for i in range(n)): c for m, c in D.items()}
    for i in range(n):
        if max(m[i] for m in D) > max(m[i] for m in P):
            return None
    ld = max(D)
    cd = D[ld]
    tail_p, tail_d = min(P), min(D)
    if any(tail_p[i] < tail_d[i] for i in range(n)):
        return None
    res = {}
    steps = 0
    rest = [(m, c) for m, c in D.items() if m != ld]
    while P:
        lp = max(P)
        k = tuple(a - b for a, b in zip(lp, ld))
        if min(k) < 0:
            return None
        c = Fraction(P.pop(lp)) / cd
        res[k] = c
        for m, v in rest:
            mm = tuple(a + b for a, b in zip(m, k))
            w = P.get(mm, 0) - c * v
            if w:
                P[mm] = w
            else:
                P.pop(mm, None)
        steps += 1
        if steps > limit:
            return None
    out = Sym({})
    d = {}
    for k, c in res.items():
        m = tuple((atoms[i], k[i] + mp[i] - md[i]) for i in range(n) if k[i] + mp[i] - md[i])
        d[m] = _n(c)
    # renormalise (exponents may need the relations)
    if any(ATOMS[a].red for a in atoms):
        acc = ZERO
        for m, c in d.items():
            acc = acc + mono_sym(m) * c
        return acc
    return Sym(d)


def has_neg_opaque(p):
    return any(e < 0 and ATOMS[a].kind == 'opq' for m in p.t for a, e in m)


def has_neg(p):
    return any(e < 0 for m in p.t for a, e in m)


def simp(p):
    """Cancel packed denominators that divide their numerators."""
    if p.t is NANT or not has_neg_opaque(p) or len(p.t) > 3000:
        return p
    changed = True
    while changed:
        changed = False
        ops = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and ATOMS[a].kind == 'opq':
                    ops[a] = min(e, ops.get(a, 0))
        for a, e in ops.items():
            part = {}
            rest = {}
            for m, c in p.t.items():
                d = dict(m)
                if d.get(a, 0) == e:
                    d.pop(a)
                    part[tuple(sorted(d.items()))] = c
                else:
                    rest[m] = c
            q = exact_div(Sym(part), Sym(ATOMS[a].data))
            if q is not None:
                if e + 1:
                    q = q * Sym({((a, e + 1),): 1})
                p = Sym(rest) + q
                changed = True
                break
    return p


def as_fraction(p, guard=60000, unfold=True):
    """(num, den): num has no packed denominators, p = num/den (den a product)."""
    den = Sym.c(1)
    num = p
    while True:
        cand = {}
        for m in num.t:
            for a, e in m:
                if e < 0:
                    cand[a] = min(e, cand.get(a, 0))
        if not cand:
            break
        # atoms whose packed polynomial mentions others come last created -> clear newest first
        a = max(cand)
        k = -cand[a]
        f = Sym({((a, 1),): 1}) if ATOMS[a].kind != 'opq' else Sym(ATOMS[a].data)
        out = ZERO
        groups = {}
        for m, c in num.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
        for e, g in groups.items():
            gp = Sym(g)
            if ATOMS[a].kind == 'opq':
                out = out + gp * ipow(f, k + e)
            else:
                mm = k + e
                out = out + (gp * mono_sym(((a, mm),)) if mm else gp)
        den = den * Sym({((a, k),): 1}) if ATOMS[a].kind == 'opq' else den * ipow(f, k)
        num = out
        if len(num.t) > guard:
            raise EngineError('clearing denominators: %d terms' % len(num.t))
    if unfold:
        num = unfold_opaque(num, guard)
    return num, den


def unfold_opaque(p, guard=60000):
    while True:
        c = [a for m in p.t for a, e in m if e > 0 and ATOMS[a].kind == 'opq']
        if not c:
            return p
        a = max(c)
        groups = {}
        for m, cc in p.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            groups.setdefault(e, {})[tuple(sorted(d.items()))] = cc
        out = ZERO
        f = Sym(ATOMS[a].data)
        for e, g in groups.items():
            out = out + (Sym(g) * ipow(f, e) if e else Sym(g))
        p = out
        if len(p.t) > guard:
            raise EngineError('unfolding: %d terms' % len(p.t))


def is_zero(p, guard=60000):
    """Exact zero test by normal form (True is a proof; False is not)."""
    if not p.t:
        return True
    if p.t is NANT:
        return False
    d = simp(p)
    if not d.t:
        return True
    if not (has_neg(d) or any(ATOMS[a].kind == 'opq' for m in d.t for a, e in m)):
        return False
    if fp_nonzero(d):
        return False
    n, _ = as_fraction(d, guard)
    return not n.t


# --------------------------------------------------------------------------
# numeric evaluation
# --------------------------------------------------------------------------
class Env:
    """A point: values for the free variables, everything else computed."""

    def __init__(self, vals, default=None):
        self.vals = dict(vals)
        self.default = default
        self.memo = {}

    def atom(self, a):
        v = self.memo.get(a.id)
        if v is None:
            v = self._atom(a)
            self.memo[a.id] = v
        return v

    def _atom(self, a):
        k = a.kind
        if k == 'var':
            if a.name in self.vals:
                return float(self.vals[a.name])
            if self.default is None:
                raise EngineError('no value for ' + a.name)
            return self.default(a)
        if k == 'pi':
            return math.pi
        if k == 'sqrt':
            return math.sqrt(max(0.0, self.ev(a.data)))
        if k == 'opq':
            return self.ev(a.data)
        if k == 'trig':
            base, which = a.data
            th = self.ev(base_angle(base).t)
            return (math.cos(th), math.sin(th), math.cos(th / 2), math.sin(th / 2))[which]
        if k == 'uf':
            f, args = a.data
            x = [self.ev(p.t) for p in args]
            if f in SUMMARIES:
                key = (f,) + tuple(x)
                v = self.memo.get(key)
                if v is None:
                    v = self.memo[key] = SUMMARIES[f](*x)
                return v
            try:
                return {'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'log': math.log,
                        'exp': math.exp, 'atan2': math.atan2, 'pow': lambda u, v: float(u) ** float(v)}[f](*x)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                return float('nan')
        if k == 'unk':
            sysd, i = a.data
            key = ('sys', id(sysd))
            x = self.memo.get(key)
            if x is None:
                import numpy as np
                A = np.array([[self.ev(e.t) for e in row] for row in sysd.A])
                b = np.array([self.ev(e.t) for e in sysd.b])
                try:
                    x = np.linalg.solve(A, b)
                except np.linalg.LinAlgError:
                    x = np.full(len(b), float('nan'))
                self.memo[key] = x
            return float(x[i])
        raise EngineError('numeric value of ' + a.kind)

    def ev(self, t):
        return self.ev2(t)[0]

    def ev2(self, t):
        """(value, sum of absolute terms)"""
        if t is NANT:
            return float('nan'), 0.0
        s = 0.0
        mag = 0.0
        for m, c in t.items():
            v = float(c)
            for a, e in m:
                x = self.atom(ATOMS[a])
                if e == 1:
                    v *= x
                else:
                    try:
                        v *= x ** e
                    except ZeroDivisionError:
                        v = float('nan')
                    except OverflowError:
                        v = float('nan')
            s += v
            mag += abs(v)
        return s, mag


_FP = {}


def _fp_default(k):
    import hashlib

    def f(a):
        h = int(hashlib.md5(('%d:%s' % (k, a.name)).encode()).hexdigest()[:12], 16) / float(16 ** 12)
        lo = float(a.lo) if a.lo is not None else None
        hi = float(a.hi) if a.hi is not None else None
        if lo is None and hi is None:
            return 0.3 + 2.1 * h if h > 0.5 else -2.3 + 2.9 * h
        if lo is None:
            return hi - 0.2 - 2 * h
        if hi is None:
            return lo + 0.2 + 2 * h
        return lo + (hi - lo) * (0.15 + 0.7 * h)
    return f


def fingerprint(p):
    out = []
    for k in (1, 2):
        e = Env({}, _fp_default(k))
        try:
            out.append(e.ev2(p.t))
        except EngineError:
            out.append((float('nan'), 0.0))
    return out


def fp_nonzero(p):
    return any(v == v and abs(v) > 1e-7 * (m + 1e-300) for v, m in fingerprint(p))


def unify(kind, P):
    """An existing atom with provably the same argument, if any."""
    fp = fingerprint(P)
    if any(v != v for v, m in fp):
        return None
    for f2, a in _FP.get(kind, ()):
        if all(abs(x[0] - y[0]) <= 1e-10 * (x[1] + y[1] + 1e-300) for x, y in zip(fp, f2)):
            try:
                if is_zero(P - Sym(a.data), 8000):
                    return a
            except EngineError:
                pass
    return None


def is_numeric(p):
    return all(ATOMS[a].numeric for m in p.t for a, e in m)


_MPMEMO = {}


def _mpatom(a):
    v = _MPMEMO.get(a.id)
    if v is not None and v[0] is a:
        return v[1]
    k = a.kind
    if k == 'pi':
        r = mpmath.mp.pi + 0
    elif k == 'sqrt':
        r = mpmath.sqrt(mpv(a.data))
    elif k == 'opq':
        r = mpv(a.data)
    elif k == 'trig':
        base, w = a.data
        th = mpv(base_angle(base).t)
        r = (mpmath.cos(th), mpmath.sin(th), mpmath.cos(th / 2), mpmath.sin(th / 2))[w]
    elif k == 'uf':
        f, args = a.data
        x = [mpv(p.t) for p in args]
        r = {'atan': mpmath.atan, 'asin': mpmath.asin, 'acos': mpmath.acos, 'log': mpmath.log, 'exp': mpmath.exp,
             'atan2': mpmath.atan2, 'pow': mpmath.power}[f](*x)
    else:
        raise EngineError('numeric atom ' + k)
    _MPMEMO[a.id] = (a, r)
    return r


def mpv(t):
    s = mpmath.mpf(0)
    for m, c in t.items():
        c = Fraction(c)
        v = mpmath.mpf(c.numerator) / c.denominator
        for a, e in m:
            v *= _mpatom(ATOMS[a]) ** e
        s += v
    return s


def numval(p):
    mpmath.mp.dps = 60
    return mpv(p.t)


def num_sign(p):
    """Sign of a closed-form number."""
    if not p.t:
        return 0
    if p.is_const:
        return 1 if p.const() > 0 else -1
    v = numval(p)
    if abs(v) > mpmath.mpf(10) ** -40:
        return 1 if v > 0 else -1
    if is_zero(p):
        return 0
    raise EngineError('cannot decide the sign of a number (|x| < 1e-40)')


# --------------------------------------------------------------------------
# intervals (outward-rounded through fractions of floats; a pre-filter only)
# --------------------------------------------------------------------------
INF = float('inf')


def _iv_atom(a, e):
    lo = float(a.lo) if a.lo is not None else -INF
    hi = float(a.hi) if a.hi is not None else INF
    # widen
    lo = lo - abs(lo) * 1e-12 if lo != -INF and lo != 0 else lo
    hi = hi + abs(hi) * 1e-12 if hi != INF and hi != 0 else hi
    if e == 1:
        return lo, hi
    if e > 0:
        return _iv_pow(lo, hi, e)
    l, h = _iv_pow(lo, hi, -e) if e < -1 else (lo, hi)
    if l > 0:
        return (0.0 if h == INF else 1 / h * (1 - 1e-12)), 1 / l * (1 + 1e-12)
    if l == 0 and h > 0:
        return (0.0 if h == INF else 1 / h * (1 - 1e-12)), INF
    if h < 0:
        return 1 / h * (1 + 1e-12), (0.0 if l == -INF else 1 / l * (1 - 1e-12))
    if h == 0 and l < 0:
        return -INF, (0.0 if l == -INF else 1 / l * (1 - 1e-12))
    return -INF, INF


def _iv_pow(lo, hi, e):
    if e % 2 == 1:
        return lo ** e, hi ** e
    if lo >= 0:
        return lo ** e, hi ** e
    if hi <= 0:
        return hi ** e, lo ** e
    return 0.0, max(lo ** e, hi ** e)


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def interval(p):
    """Outer bounds of p as (lo, hi), None for an infinite end."""
    lo = hi = 0.0
    mag = 0.0
    allnn = allnp = True
    for m, c in p.t.items():
        l = h = float(c)
        for a, e in m:
            al, ah = _iv_atom(ATOMS[a], e)
            c4 = (_m(l, al), _m(l, ah), _m(h, al), _m(h, ah))
            l, h = min(c4), max(c4)
        lo += l
        hi += h
        if l < 0:
            allnn = False
        if h > 0:
            allnp = False
        if l != -INF:
            mag += abs(l)
        if h != INF:
            mag += abs(h)
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    eps = 1e-11 * mag
    if lo != -INF:
        lo = max(lo - eps, 0.0) if allnn else lo - eps
    if hi != INF:
        hi = min(hi + eps, 0.0) if allnp else hi + eps
    return (None if lo == -INF else Q(lo)), (None if hi == INF else Q(hi))


_SIGNCACHE = {}


def quick_signs(p):
    """Subset of {-1,0,1} that p's value can take, by cheap analysis."""
    if not p.t:
        return {0}
    if p.is_const:
        return {1} if p.const() > 0 else {-1}
    if is_numeric(p):
        return {num_sign(p)}
    k = p.key()
    r = _SIGNCACHE.get(k)
    if r is not None:
        return r
    s = {-1, 0, 1}
    lo, hi = interval(p)
    if lo is not None and lo > 0:
        s = {1}
    elif lo is not None and lo >= 0:
        s = {0, 1}
    if hi is not None and hi < 0:
        s = {-1}
    elif hi is not None and hi <= 0:
        s = s & {0, -1}
    if k in NONNEG:
        s = s & {0, 1}
    elif s == {-1, 0, 1} and (-p).key() in NONNEG:
        s = {0, -1}
    elif s == {-1, 0, 1} and sos(p):
        s = {0, 1}
    elif s == {-1, 0, 1} and sos(-p):
        s = {-1, 0}
    if s != {-1, 0, 1}:
        _SIGNCACHE[k] = s
    return s


def sos(p):
    """Cheap sufficient test: every term is a non-negative multiple of a square."""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not (ATOMS[a].lo is not None and ATOMS[a].lo >= 0):
                return False
    return True


# --------------------------------------------------------------------------
# square roots
# --------------------------------------------------------------------------
def _isqrt_part(n):
    """n = k*k*r with r free of small square factors (r exact)."""
    k = 1
    r = n
    s = math.isqrt(r)
    if s * s == r:
        return s, 1
    for p in _SMALLP:
        pp = p * p
        if pp > r:
            break
        while r % pp == 0:
            r //= pp
            k *= p
    s = math.isqrt(r)
    if s * s == r:
        return k * s, 1
    return k, r


def _primes(n):
    s = bytearray([1]) * (n + 1)
    s[:2] = b'\0\0'
    for i in range(2, int(n ** .5) + 1):
        if s[i]:
            s[i * i::i] = bytearray(len(s[i * i::i]))
    return [i for i in range(n + 1) if s[i]]


_SMALLP = _primes(2000)


def sqrt_rational(q):
    q = Fraction(q)
    if q < 0:
        return NAN
    if q == 0:
        return ZERO
    n, d = q.numerator, q.denominator
    kd, rd = _isqrt_part(d)
    kn, rn = _isqrt_part(n)
    # sqrt(n/d) = kn/kd * sqrt(rn/rd) = kn/(kd*rd) * sqrt(rn*rd)
    r = rn * rd
    k = Fraction(kn, kd * rd)
    k2, r = _isqrt_part(r)
    k = k * k2
    res = Sym.c(k)
    if r == 1:
        return res
    # split into small prime roots and a remaining cofactor
    rest = r
    ids = []
    for p in _SMALLP:
        if p * p > rest:
            break
        if rest % p == 0:
            rest //= p
            ids.append(p)
    if rest > 1:
        ids.append(rest)
    for p in ids:
        a = _atom(('sqrt', frozenset({(ONE, p)})), 'sqrt', 'sqrt(%d)' % p, {ONE: p},
                  lo=Q(math.isqrt(p * 10 ** 12), 10 ** 6), hi=Q(math.isqrt(p * 10 ** 12) + 1, 10 ** 6),
                  red=True, numeric=True)
        res = res * Sym({((a.id, 1),): 1})
    return res


def poly_sqrt(P):
    """q with q*q == P as plain polynomials, or None."""
    if has_neg(P) or len(P.t) > 800 or len(P.t) < 3:
        return None
    atoms = sorted({a for m in P.t for a, e in m})
    n = len(atoms)
    D = dense(P, atoms)
    lp = max(D)
    if any(x % 2 for x in lp) or any(x % 2 for x in min(D)):
        return None
    c = Fraction(D[lp])
    if c < 0:
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    l0 = tuple(x // 2 for x in lp)
    c0 = Fraction(rn, rd)
    q = {l0: c0}
    R = dict(D)
    R.pop(lp)
    steps = 0
    while R:
        lr = max(R)
        k = tuple(a - b for a, b in zip(lr, l0))
        if min(k) < 0:
            return None
        cc = Fraction(R[lr]) / (2 * c0)
        # subtract 2*q*term + term^2
        for m, v in q.items():
            mm = tuple(a + b for a, b in zip(m, k))
            w = R.get(mm, 0) - 2 * v * cc
            if w:
                R[mm] = w
            else:
                R.pop(mm, None)
        mm = tuple(2 * a for a in k)
        w = R.get(mm, 0) - cc * cc
        if w:
            R[mm] = w
        else:
            R.pop(mm, None)
        q[k] = cc
        steps += 1
        if steps > 60:
            return None
    d = {}
    for k, c in q.items():
        d[tuple((atoms[i], k[i]) for i in range(n) if k[i])] = _n(c)
    return Sym(d)


def sqrt(p):
    p = sym(p)
    if p.t is NANT:
        return NAN
    if p.is_const:
        return sqrt_rational(p.const())
    p = simp(p)
    if p.is_const:
        return sqrt_rational(p.const())
    if not has_neg_opaque(p):
        pass
    c, m, P = primitive(p)
    # primitive() makes the leading coefficient positive; fold the sign back
    sgnc = 1
    if c < 0:
        sgnc, c = -1, -c
        P = -P
    res = sqrt_rational(c)
    odd = []
    for a, e in m:
        k, r = divmod(e, 2)
        at = ATOMS[a]
        if k:
            base = Sym({((a, 1),): 1})
            ab = base if (at.lo is not None and at.lo >= 0) else abs(base)
            res = res * (ipow(ab, k) if k > 0 else ipow(inv(ab), -k))
        if r:
            if at.kind == 'opq' and len(P.t) > 1 and any(ATOMS[i].kind == 'opq' for mm in P.t for i, _ in mm):
                base = Sym(at.data)
                if base.key() in NONNEG or PATH.known(base, '>=') is True:
                    res = res * sqrt(base)
                    continue
            odd.append((a, 1))
    if len(P.t) <= 200 and any(e > 0 and ATOMS[a].kind == 'opq' for mm in P.t for a, e in mm):
        q = unfold_opaque(P)
        if odd:
            q = q * mono_sym(tuple(odd))
        if q.t != P.t and len(q.t) <= len(P.t):
            return res * sqrt(q)
    if odd:
        P = P * mono_sym(tuple(odd))
    if P.is_const:
        return res * sqrt_rational(P.const())
    if has_neg_opaque(P):
        num, den = as_fraction(P)
        # den is a product of opaque powers: sqrt(num/den) = sqrt(num*den)/den
        return res * sqrt(num * den) / den if not den.is_const else res * sqrt(num)
    if num_den_free(P) and 1 < len(P.t) <= 60:
        for aid in sorted({x for m in P.t for x, e in m if e >= 2}):
            at = ATOMS[aid]
            if at.kind == 'trig' and at.data[1] == 0:
                x = Sym({((aid, 1),): 1})
                r = exact_div(P, 1 - x * x)
                if r is not None:
                    return res * abs(Sym({((trig_atoms(at.data[0])[1].id, 1),): 1})) * sqrt(r)
    if num_den_free(P):
        q = poly_sqrt(P)
        if q is not None:
            return res * abs(q)
    if -1 in quick_signs(P) and P.key() not in NONNEG:
        if P < 0:
            return NAN
    key = ('sqrt', P.key())
    a = _KEY.get(key)
    if a is None:
        a = unify('sqrt', P)
        if a is not None:
            _KEY[key] = a
        else:
            lo, hi = interval(P)
            l = Q(0)
            if lo is not None and lo > 0:
                l = Q(math.sqrt(float(lo)) * (1 - 1e-12))
            h = None if hi is None else Q(math.sqrt(max(0.0, float(hi))) * (1 + 1e-12))
            if is_numeric(P) and num_sign(P) == 0:
                return ZERO
            a = _atom(key, 'sqrt', 'R%d' % len(ATOMS), P.t, lo=l, hi=h, red=True, numeric=is_numeric(P))
            _FP.setdefault('sqrt', []).append((fingerprint(P), a))
    note_sqrt(P)
    return res * Sym({((a.id, 1),): 1})


NONNEG = set()


def known_nonneg(p):
    """Record that p is a sum of squares."""
    if p.t and p.t is not NANT and not p.is_const:
        NONNEG.add(p.key())
        c, m, P = primitive(p)
        if c > 0 and all(e % 2 == 0 or (ATOMS[a].lo is not None and ATOMS[a].lo >= 0) for a, e in m):
            NONNEG.add(P.key())
    return p


def num_den_free(P):
    return not has_neg(P)


# --------------------------------------------------------------------------
# trigonometry
# --------------------------------------------------------------------------
_TB = {}


def base_angle(base):
    """Angle (radians) of a trig base key ('m', mono, unit) as Sym."""
    _, mono, unit = base
    return Sym({mono: unit})


def _angle_bounds(base):
    lo, hi = interval(base_angle(base))
    return lo, hi


def _range_cos(lo, hi):
    """Rational outer bounds of cos on [lo,hi]."""
    lo, hi = float(lo) - 1e-12, float(hi) + 1e-12
    if hi - lo >= 2 * math.pi:
        return -1.0, 1.0
    vals = [math.cos(lo), math.cos(hi)]
    mn, mx = min(vals), max(vals)
    k = math.ceil(lo / (2 * math.pi))
    if k * 2 * math.pi <= hi:
        mx = 1.0
    k = math.ceil((lo - math.pi) / (2 * math.pi))
    if k * 2 * math.pi + math.pi <= hi:
        mn = -1.0
    return mn - 1e-9, mx + 1e-9


def _snapb(x):
    # tidy bounds at 0 and +-1 (outer bounds; 0 only when the exact end is a zero of the function)
    return Q(max(-1.0, min(1.0, x)))


def trig_atoms(base):
    r = _TB.get(base)
    if r is not None and r[0].id < len(ATOMS) and ATOMS[r[0].id] is r[0]:
        return r
    lo, hi = _angle_bounds(base)
    num = all(ATOMS[a].numeric for a, e in base[1])
    nm = show(base_angle(base))
    out = []
    for w, f in enumerate(('cos', 'sin', 'cosh2', 'sinh2')):
        l, h = -1.0, 1.0
        if lo is not None and hi is not None:
            sc = 0.5 if w >= 2 else 1.0
            sh = math.pi / 2 if w % 2 else 0.0
            l, h = _range_cos(float(lo) * sc - sh, float(hi) * sc - sh)
            # exact zeros at ends: sin on [0,...], cos up to 90 deg
            if -2e-9 < l < 0 and l > -2e-9:
                l = 0.0
            if 0 < h < 2e-9:
                h = 0.0
        out.append(_atom(('trig', base, w), 'trig', '%s(%s)' % (f, nm), (base, w), lo=_snapb(l), hi=_snapb(h),
                         red=True, numeric=num))
    _TB[base] = tuple(out)
    return _TB[base]


def _cheb(c, s, k):
    """(sin k*th, cos k*th) for integer k."""
    neg = k < 0
    k = abs(k)
    rs, rc = ZERO, Sym.c(1)
    for _ in range(k):
        rs, rc = rs * c + rc * s, rc * c - rs * s
    return (-rs if neg else rs), rc


def _pi_trig(q):
    """(sin, cos) of q*pi, q rational."""
    q = Fraction(q) % 2
    sgs = sgc = 1
    if q > 1:
        q = 2 - q
        sgs = -1
    if q > Fraction(1, 2):
        q = 1 - q
        sgc = -1
    h = Fraction(1, 2)
    table = {Fraction(0): (ZERO, Sym.c(1)), h: (Sym.c(1), ZERO)}
    if q in table:
        s, c = table[q]
    elif q == Fraction(1, 6):
        s, c = Sym.c(h), sqrt_rational(3) / 2
    elif q == Fraction(1, 3):
        s, c = sqrt_rational(3) / 2, Sym.c(h)
    elif q == Fraction(1, 4):
        s = c = sqrt_rational(2) / 2
    else:
        k = q * 180
        pim = next(iter(PI.t))
        n = k
        e = 0
        half = False
        if n.denominator == 2:
            half = True
            n = n * 2
        if n.denominator == 1:
            n = n.numerator
            if not half:
                while n % 2 == 0 and e < 4:
                    n //= 2
                    e += 1
            base = ('m', pim, Fraction(n, 180))
        else:
            base = ('m', pim, q)
            half = False
        C, S_, CH, SH = trig_atoms(base)
        if half:
            c, s = Sym({((CH.id, 1),): 1}), Sym({((SH.id, 1),): 1})
        else:
            c, s = Sym({((C.id, 1),): 1}), Sym({((S_.id, 1),): 1})
            for _ in range(e):
                s, c = 2 * s * c, 2 * c * c - 1
    return s * sgs, c * sgc


def sincos(th):
    th = sym(th)
    if th.t is NANT:
        return NAN, NAN
    th = simp(th)
    rs, rc = ZERO, Sym.c(1)
    pim = next(iter(PI.t))
    terms = sorted(th.t.items(), key=lambda kv: kv[0])
    for m, q in terms:
        q = Fraction(q)
        if not m:
            # a plain number of radians
            base = ('m', ONE, abs(q))
            C, S_, _, _ = trig_atoms(base)
            s, c = Sym({((S_.id, 1),): 1 if q > 0 else -1}), Sym({((C.id, 1),): 1})
        elif m == pim:
            s, c = _pi_trig(q)
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'uf' and q in (1, -1):
            s, c = uf_sincos(ATOMS[m[0][0]])
            if q < 0:
                s = -s
        else:
            unit = Fraction(1, 180) if any(ATOMS[a].kind == 'pi' for a, e in m) else Fraction(1)
            k = q / unit
            if k.denominator not in (1, 2) or abs(k) > 8:
                unit = abs(q)
                k = q / unit
            base = ('m', m, unit)
            C, S_, CH, SH = trig_atoms(base)
            bc, bs = Sym({((C.id, 1),): 1}), Sym({((S_.id, 1),): 1})
            if k.denominator == 1:
                s, c = _cheb(bc, bs, k.numerator)
            else:
                sg = 1 if k > 0 else -1
                kk = abs(k)
                n = kk.numerator // 2
                s0, c0 = _cheb(bc, bs, n)
                hc, hs = Sym({((CH.id, 1),): 1}), Sym({((SH.id, 1),): 1})
                s = s0 * hc + c0 * hs
                c = c0 * hc - s0 * hs
                s = s * sg
        rs, rc = rs * c + rc * s, rc * c - rs * s
    return rs, rc


def uf_sincos(a):
    f, args = a.data
    if f == 'asin':
        return args[0], sqrt(1 - args[0] * args[0])
    if f == 'acos':
        return sqrt(1 - args[0] * args[0]), args[0]
    if f == 'atan':
        r = sqrt(1 + args[0] * args[0])
        return args[0] / r, 1 / r
    if f == 'atan2':
        r = sqrt(args[0] * args[0] + args[1] * args[1])
        return args[0] / r, args[1] / r
    b = ('m', ((a.id, 1),), Fraction(1))
    C, S_, _, _ = trig_atoms(b)
    return Sym({((S_.id, 1),): 1}), Sym({((C.id, 1),): 1})


# --------------------------------------------------------------------------
# uninterpreted transcendental values
# --------------------------------------------------------------------------
SUMMARIES = {}      # uninterpreted summaries of leaf functions: name -> numeric evaluation by the real code


def summary(name, args):
    """An uninterpreted function of already canonical arguments."""
    key = ('uf', name, tuple(x.key() for x in args))
    a = _KEY.get(key)
    if a is None:
        a = _atom(key, 'uf', '%s(%s)' % (name, ','.join(show(x, 4) for x in args)), (name, tuple(args)))
    return Sym({((a.id, 1),): 1})


_UFB = {'atan': (Q(-1571, 1000), Q(1571, 1000)), 'asin': (Q(-1571, 1000), Q(1571, 1000)), 'acos': (Q(0), Q(3142, 1000)),
        'atan2': (Q(-3142, 1000), Q(3142, 1000)), 'exp': (Q(0), None), 'log': (None, None), 'pow': (Q(0), None)}


def uf(name, args):
    args = tuple(simp(sym(x)) for x in args)
    if any(x.t is NANT for x in args):
        return NAN
    if name in ('atan', 'asin') and not args[0].t:
        return ZERO
    if name == 'acos' and args[0].is_const and args[0].const() == 1:
        return ZERO
    key = ('uf', name, tuple(x.key() for x in args))
    a = _KEY.get(key)
    if a is None:
        for b in _FP.get('uf' + name, ()):
            ok = True
            for x, y in zip(args, b.data[1]):
                if fp_nonzero(x - y) or not is_zero(x - y):
                    ok = False
                    break
            if ok:
                _KEY[key] = b
                return Sym({((b.id, 1),): 1})
        lo, hi = _UFB[name]
        num = all(is_numeric(x) for x in args)
        a = _atom(key, 'uf', '%s(%s)' % (name, ','.join(show(x, 4) for x in args)), (name, args),
                  lo=lo, hi=hi, numeric=num)
        _FP.setdefault('uf' + name, []).append(a)
        if num:
            v = float(_mpatom(a))
            a.lo, a.hi = Q(v) - abs(Q(v)) * Q(1, 10 ** 12), Q(v) + abs(Q(v)) * Q(1, 10 ** 12)
    return Sym({((a.id, 1),): 1})


def atan2(y, x):
    # atan2(k*y, k*x) = atan2(y, x) for k > 0: strip a common positive content
    if y.is_const and x.is_const and not y.t and not x.t:
        return ZERO
    if not y.t:
        if x > 0:
            return ZERO
        return PI
    return uf('atan2', strip_positive((y, x)))


def strip_positive(vs):
    ps = [v for v in vs if v.t]
    if len(ps) < 2:
        return vs
    cs = [primitive(v) for v in ps]
    common = None
    for c, m, P in cs:
        d = {a: e for a, e in m}
        common = d if common is None else {a: min(e, d.get(a, 0)) if e > 0 else e for a, e in common.items()
                                           if a in d and (d[a] > 0) == (e > 0)}
    common = {a: (min(dict(m).get(a, 0) for _, m, _ in cs) if e > 0 else max(dict(m).get(a, 0) for _, m, _ in cs))
              for a, e in (common or {}).items()}
    keep = {}
    for a, e in common.items():
        lo = ATOMS[a].lo
        if e and (e % 2 == 0 or (lo is not None and lo >= 0)) and ATOMS[a].kind in ('var', 'sqrt', 'opq'):
            keep[a] = e
    g = _gcd_frac([abs(c) for c, _, _ in cs])
    if not keep and g == 1:
        return vs
    f = mono_inv(tuple(sorted(keep.items()))) * (1 / g) if keep else Sym.c(1 / g)
    return tuple(v * f for v in vs)


def log(p):
    p = simp(sym(p))
    if p.t is NANT:
        return NAN
    if p.is_const:
        if p.const() == 1:
            return ZERO
        if p.const() <= 0:
            return NAN
    # log of a monomial with positive factors splits
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(ATOMS[a].lo is not None and ATOMS[a].lo >= 0 for a, e in m) and m:
            r = _log_rational(Fraction(c))
            for a, e in m:
                if e > 0 or True:
                    base = Sym({((a, 1),): 1})
                    r = r + uf('log', (base,)) * e
            return r
        if not m:
            return _log_rational(Fraction(c))
    cc, m, P = primitive(p)
    if cc > 0 and (m or cc != 1) and all(ATOMS[a].lo is not None and ATOMS[a].lo >= 0 for a, e in m):
        r = _log_rational(Fraction(cc)) + uf('log', (P,))
        for a, e in m:
            r = r + uf('log', (Sym({((a, 1),): 1}),)) * e
        return r
    return uf('log', (p,))


def _factor(n):
    out = {}
    for p in _SMALLP:
        if p * p > n:
            break
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_rational(q):
    r = ZERO
    for p, e in _factor(q.numerator).items():
        r = r + uf('log', (Sym.c(p),)) * e
    for p, e in _factor(q.denominator).items():
        r = r - uf('log', (Sym.c(p),)) * e
    return r


def powf(b, e):
    """b ** e for b >= 0 and a general exponent."""
    b = simp(b)
    if b.is_const and b.const() == 1:
        return Sym.c(1)
    if not b.t:
        # 0 ** e: 0 for e > 0
        if e > 0:
            return ZERO
        if e == 0:
            return Sym.c(1)
        return NAN
    if quick_signs(b) <= {1} or quick_signs(b) <= {0, 1}:
        pass
    elif b < 0:
        return NAN
    return uf('pow', (b, e))


# --------------------------------------------------------------------------
# linear systems by contract
# --------------------------------------------------------------------------
class LinSys:
    def __init__(self, A, b):
        self.A, self.b = A, b


# --------------------------------------------------------------------------
# comparisons, paths
# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ('p', 'op')

    def __init__(self, p, op):
        self.p, self.op = p, op

    def __bool__(self):
        return PATH.decide(self)

    def __and__(self, o):
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)
    __ror__ = __or__

    def __invert__(self):
        return not bool(self)

    def logical_not(self):
        return not bool(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash((self.p.key(), self.op))

    def __repr__(self):
        return '[%s %s 0]' % (show(self.p, 6), self.op)

    def any(self):
        return bool(self)
    all = any
    item = any


ALLOW = {'<': {-1}, '<=': {-1, 0}, '==': {0}, '!=': {-1, 1}, '>': {1}, '>=': {0, 1}}
NEGOP = {'<': '>=', '<=': '>', '==': '!=', '!=': '==', '>': '<=', '>=': '<'}


def cmp(a, b, op):
    a, b = sym(a), sym(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if a.t is NANT or b.t is NANT:
        return op == '!='
    d = a - b
    s = quick_signs(d)
    al = ALLOW[op]
    if s <= al:
        return True
    if not (s & al):
        return False
    d2 = d if has_unk(d) else simp(d)
    if d2 is not d:
        s = quick_signs(d2)
        if s <= al:
            return True
        if not (s & al):
            return False
    return SymBool(d2, op)


def single_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def rename(p, table):
    out = {}
    for m, c in p.t.items():
        if any(a in table for a, e in m):
            d = {}
            for a, e in m:
                a = table.get(a, a)
                d[a] = d.get(a, 0) + e
            m = tuple(sorted((a, e) for a, e in d.items() if e))
        out[m] = out.get(m, 0) + c
    return Sym({m: _n(c) for m, c in out.items() if c})


def subst(p, table, memo=None):
    """p with variables replaced (table: atom id -> Sym), also inside roots, trigonometric and other atoms."""
    memo = {} if memo is None else memo
    out = ZERO
    for m, c in p.t.items():
        t = Sym.c(c)
        for a, e in m:
            v = memo.get(a)
            if v is None:
                v = memo[a] = _subst_atom(ATOMS[a], table, memo)
            t = t * (ipow(v, e) if e > 0 else ipow(inv(v), -e))
        out = out + t
    return out


def _subst_atom(a, table, memo):
    me = Sym({((a.id, 1),): 1})
    if a.kind == 'var':
        return table.get(a.id, me)
    if a.kind in ('sqrt', 'opq'):
        q = Sym(a.data)
        r = subst(q, table, memo)
        if r.t == q.t:
            return me
        return sqrt(r) if a.kind == 'sqrt' else r
    if a.kind == 'trig':
        base, w = a.data
        q = base_angle(base)
        r = subst(q, table, memo)
        if r.t == q.t:
            return me
        sc = sincos(r if w < 2 else r * Fraction(1, 2))
        return sc[1 - w % 2]
    if a.kind == 'uf' and a.data[0] in _UFB:
        f, args = a.data
        new = [subst(x, table, memo) for x in args]
        if all(x.t == y.t for x, y in zip(new, args)):
            return me
        return {'log': log, 'pow': powf, 'atan2': atan2}.get(f, lambda *x: uf(f, x))(*new)
    return me


def depends(a, var):
    """Does atom a depend on the variable with this id?"""
    A = ATOMS[a]
    if A.kind == 'var':
        return a == var
    if A.kind in ('sqrt', 'opq'):
        ts = [A.data]
    elif A.kind == 'trig':
        ts = [base_angle(A.data[0]).t]
    elif A.kind == 'uf':
        ts = [x.t for x in A.data[1]]
    elif A.kind == 'unk':
        return True
    else:
        ts = []
    return any(depends(x, var) for t in ts for m in t for x, e in m)


def has_unk(p):
    return any(ATOMS[a].kind == 'unk' for m in p.t for a, e in m)


class NoPath:
    facts = {}
    lemmas = ()

    def zero_by_lemmas(self, p):
        return False

    def known(self, p, op):
        return None

    def decide(self, b):
        raise EngineError('branch outside a path')

    def note_division(self, q):
        pass

    def note_sqrt(self, q):
        pass


PATH = NoPath()


def set_path(p):
    global PATH
    PATH = p


def note_division(q):
    PATH.note_division(q)


def note_sqrt(q):
    PATH.note_sqrt(q)


def canon(p):
    """(sign, primitive positive-leading poly): p = sign*|c|*m*P with only the rational content removed."""
    c = _gcd_frac(p.t.values())
    lm = lead(p.t)
    s = 1
    if p.t[lm] < 0:
        s = -1
        c = -c
    return s, Sym({m: _n(Fraction(v) / c) for m, v in p.t.items()})


def nonconst_key(t):
    """(key of the non-constant part with leading coefficient 1, leading coefficient, constant) or None."""
    n = {m: c for m, c in t.items() if m}
    if not n:
        return None
    lc = Fraction(n[lead(n)])
    return frozenset((m, Fraction(c) / lc) for m, c in n.items()), lc, Fraction(t.get(ONE, 0))
