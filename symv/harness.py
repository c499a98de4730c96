"""Scenarios: one function, run symbolically over the repository's source and concretely against the real package."""
import contextlib
import io
import math
import os
import random
import re
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as _np

from . import core, loader, prove, snp
from .core import EngineError, NANT, PathAbort, Sym, SymBool, sym

SCENARIOS = {}


TINY = Fraction(1, 10 ** 6)  # lower end of positive quantities in the proofs
WIDE = 1000  # default box of a symbolic quantity

class Scenario:
    def __init__(self, prop, name, fn, kw, opts):
        self.prop, self.name, self.fn, self.kw, self.opts = prop, name, fn, kw, opts

    @property
    def id(self):
        return self.name + ('[' + ','.join('%s=%s' % (k, v) for k, v in self.kw.items()) + ']' if self.kw else '')


WHOLE = {'C%d' % i for i in (10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30, 32, 34)}


def scenario(prop, params=({},), thorough=(), tier='quick', whole=None, **opts):
    """Register fn(S, **kw) for every kw in params (quick and thorough tiers) and in thorough (thorough only).

    whole: sizes at which the inputs are also taken as whole numbers in integer arrays (the first few unless given,
    for the properties of what users call with numbers of their own)."""
    params = list(params)
    if whole is None:
        whole = () if prop not in WHOLE else params if len(params) <= 4 else params[:3]
    def deco(fn):
        lst = SCENARIOS.setdefault(prop, [])
        for kw in params:
            lst.append((tier, Scenario(prop, fn.__name__, fn, dict(kw), dict(opts))))
        for kw in whole:
            lst.append((tier, Scenario(prop, fn.__name__, _whole(fn), dict(kw, whole=True), dict(opts))))
        for kw in thorough:
            lst.append(('thorough', Scenario(prop, fn.__name__, fn, dict(kw), dict(opts))))
        return fn
    return deco


def _whole(fn):
    def f(S, whole, **kw):
        S.whole = True
        fn(S, **kw)
    return f


def flat(x):
    """Leaves of nested sequences/arrays/scalars."""
    if isinstance(x, (Sym, SymBool)) or x is None or isinstance(x, (int, float, Fraction, str, bool, _np.generic)):
        return [x]
    if isinstance(x, _np.ndarray):
        return list(x.reshape(-1))
    if hasattr(x, 'to_numpy'):
        return list(x.to_numpy().reshape(-1))
    out = []
    for y in x:
        out.extend(flat(y))
    return out


def shape(x):
    return _np.shape(_np.asarray(x, dtype=object)) if not isinstance(x, (Sym, SymBool)) else ()


class Failure(Exception):
    pass


class Base:
    symbolic = False
    whole = False  # inputs are whole numbers in integer arrays

    def vec(self, name, n=3, lo=-10, hi=10):
        return self.arr([self.real('%s%s' % (name, 'xyz'[i] if n <= 3 else i), lo, hi) for i in range(n)])

    def mat(self, name, r, c=3, lo=-10, hi=10):
        return self.arr([[self.real('%s%d%s' % (name, i, 'xyz'[j] if c <= 3 else j), lo, hi) for j in range(c)]
                         for i in range(r)])

    def deg(self, name, lo=-180, hi=180, wide=None):
        return self.real('deg_' + name, lo, hi, wide)

    def ang(self, name, lo=-3, hi=3):
        return self.real('ang_' + name, lo, hi)

    def call(self, fn, *a, **k):
        """(value, exception) with stdout swallowed; engine signals pass through."""
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return fn(*a, **k), None
        except (EngineError, PathAbort, TimeoutError, Failure, MemoryError):
            raise
        except SystemExit as e:
            return None, e
        except Exception as e:
            return None, e

    def cos(self, d):
        """cosine of an angle in degrees"""
        return self.np.cos(d * self.pi / 180)

    def sin(self, d):
        return self.np.sin(d * self.pi / 180)

    def dot(self, a, b):
        return sum((x * y for x, y in zip(a, b)), 0)

    def cross(self, a, b):
        return self.arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def across(self, label, a, b):
        """a is orthogonal to b"""
        self.eq(label, self.dot(a, b), 0, scale=0.0 if self.symbolic else self.norm(a) * self.norm(b))

    def norm2(self, a):
        s = self.dot(a, a)
        if self.symbolic and isinstance(s, Sym):
            core.known_nonneg(s)
        return s

    def norm(self, a):
        return self.np.sqrt(self.norm2(a))


class SymS(Base):
    symbolic = True

    def __init__(self, run, path):
        self.run, self.path = run, path
        self.np, self.math = snp.numpy, snp.math
        self.pi = core.PI
        self.trace = []
        self.labels = {}

    def mod(self, name):
        m = loader.load(loader.PKG + ('.' + name if name else ''))
        return m

    def real(self, name, lo=-10, hi=10, wide=None):
        self.run.ex.sampler.declare(name, lo, hi, self.whole)
        if self.whole:
            core.WHOLE.add(name)
        if wide is not None:
            lo, hi = wide
        elif (lo, hi) == (-10, 10):  # not a box anyone asked for: samples stay small, the proofs cover a wide one
            lo, hi = -WIDE, WIDE
        return core.var(name, None if lo is None else Fraction(core.ratio(float(lo))),
                        None if hi is None else Fraction(core.ratio(float(hi))))

    def pos(self, name, hi=10, lo=0.01):
        if hi == 10 and not self.whole:
            self.run.ex.sampler.declare(name, lo, hi)
            return core.var(name, TINY if lo == 0.01 else Fraction(core.ratio(float(lo))), Fraction(WIDE))
        return self.real(name, lo, hi, (1, WIDE) if hi == 10 else None)

    def arr(self, x):
        a = snp.array(x, dtype=float)
        return a.view(snp.IArr) if self.whole and a.size and all(core.whole_input(y) for y in flat(a)) else a

    def const(self, x):
        return sym(x)

    def assume(self, c):
        if isinstance(c, SymBool):
            p, op = c.p, c.op
            k = self.path.known(p, op)
            if k is True:
                return
            if k is False or not self.path.feasible(p, op):
                raise PathAbort('assumption infeasible')
            self.path.add_fact(p, op)
            return
        if not c:
            raise PathAbort('assumption false')

    def num(self, x):
        """a concrete literal on both sides"""
        return sym(float(x) if isinstance(x, str) else x)

    def abstract_filaments(self, rot=None):
        """Use the summaries of the vortex-filament functions (decided by C01-C03) from here on."""
        from . import summary
        t = summary.install()
        self.path.assumed.append('single vortex filaments summarised by the facts C01-C03 decide on their real source')
        if rot is not None:
            for x in t.values():
                x.rot = rot

    @contextlib.contextmanager
    def afresh(self):
        """inside, the modules are those of a new run of the program"""
        from . import summary
        with loader.afresh():
            if summary.TABLES:
                summary.patch()
            yield

    # --- obligations
    def eq(self, label, a, b, tol=1e-6, atol=1e-8, scale=0.0):
        A, B = flat(a), flat(b)
        if len(B) == 1 and len(A) > 1:
            B = B * len(A)
        if len(A) != len(B):
            return self.run.failed(self, label, 'lengths %d and %d differ' % (len(A), len(B)), None)
        pairs = []
        for x, y in zip(A, B):
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if x is not y and x != y:
                    return self.run.failed(self, label, '%r != %r' % (x, y), None)
                continue
            pairs.append((sym(x), sym(y)))
        self.trace.append((label, [p[0] for p in pairs], [p[1] for p in pairs]))
        self.run.prove_eq(self, label, pairs)

    def close(self, label, a, b, tol):
        """|a-b| <= tol (absolute), for quantities the code computes through rounded constants."""
        for x, y in zip(flat(a), flat(b)):
            x, y = sym(x), sym(y)
            if x.is_nan or y.is_nan:
                self.run.failed(self, label, 'not a number', None)
                continue
            d = x - y
            self.run.prove_bool(self, label, core.cmp(d, tol, '<='))
            self.run.prove_bool(self, label, core.cmp(-tol, d, '<='))

    def true(self, label, c):
        self.run.prove_bool(self, label, c)

    def le(self, label, a, b):
        for x, y in zip(flat(a), flat(b)):
            self.run.prove_bool(self, label, core.cmp(x, y, '<='))

    def lt(self, label, a, b):
        for x, y in zip(flat(a), flat(b)):
            self.run.prove_bool(self, label, core.cmp(x, y, '<'))

    def fail(self, label, msg=''):
        self.run.failed(self, label, msg, None)

    def same(self, label, a, b):
        """plain (non-numeric) equality"""
        if a != b:
            self.run.failed(self, label, '%r != %r' % (a, b), None)
        else:
            self.run.counted(label)

    @contextlib.contextmanager
    def defined(self, label):
        """Every division inside must have a non-zero divisor for all inputs of the path."""
        n0 = len(self.path.dens)
        k0 = set(self.path.den_keys)
        self.path.den_keys = set()
        yield
        new = self.path.dens[n0:]
        self.path.den_keys |= k0
        for q in new:
            self.run.prove_bool(self, label + ':divisor', core.cmp(q, 0, '!='))

    def finite(self, label, v):
        for x in flat(v):
            if sym(x).is_nan:
                self.run.failed(self, label, 'not a number', None)
                return
        self.run.counted(label)

    def isnan(self, x):
        return sym(x).is_nan

    def hint(self, fn):
        """Candidate solution for the next linear systems: fn(k) -> list or None (proved, then used by uniqueness)."""
        base = list(self.path.systems)

        def h(rows, rhs):
            if not base:
                return None
            cand = fn(base, rows, rhs)
            if cand is None:
                return None
            extra = []
            pairs = []
            for r, b in zip(rows, rhs):
                s = core.ZERO
                for c, x in zip(r, cand):
                    s = s + c * x
                pairs.append((s, b))
            ok = self.path.lra_zero(pairs, self.lem_extra) if self.lem_extra is not None else self.path.lra_zero(pairs)
            if ok:
                if self.lem_extra:
                    self.path.lemmas.extend(self.lem_extra)
                return cand
            return None
        self.lem_extra = None
        self.path.solve_hint = h

    def unique(self, label, xs, cand):
        """Prove that cand solves the linear system with solution xs; the system being non-singular, xs == cand."""
        xs, cand = [sym(x) for x in flat(xs)], [sym(x) for x in flat(cand)]
        self.trace.append((label, xs, cand))
        for s in self.path.systems:
            if len(s.x) == len(xs) and all(a.t == b.t for a, b in zip(s.x, xs)):
                pairs = []
                for r, b in zip(s.A, s.b):
                    t = core.ZERO
                    for c, x in zip(r, cand):
                        t = t + c * x
                    pairs.append((t, b))
                n0 = len(self.run.inconclusive)
                self.run.prove_eq(self, label, pairs)
                if len(self.run.inconclusive) == n0 and not self.run.violations:
                    for a, b in zip(xs, cand):
                        if (a - b).t:
                            self.path.lemmas.append(a - b)
                            x, y = core.single_atom(a), core.single_atom(b)
                            if x is not None and y is not None and x.kind == y.kind == 'unk':
                                lo, hi = sorted((x.id, y.id))
                                self.path.rename[hi] = self.path.rename.get(lo, lo)
                    return True
                return False
        self.run.prove_eq(self, label, list(zip(xs, cand)))
        return False

    def scaled_lemmas(self, factors):
        """Multiply every known linear-system row by the given factors (for hints)."""
        out = []
        for l in self.path.lemmas:
            for f in factors:
                out.append(l * f)
        self.lem_extra = out


class ConS(Base):
    def __init__(self, vals, rng=None):
        self.vals = dict(vals)
        self.np, self.math = _np, math
        self.pi = math.pi
        self.violations = []
        self.trace = []
        self.checked = 0
        self.rng = rng or random.Random(7)

    def mod(self, name):
        return loader.real(loader.PKG + ('.' + name if name else ''))

    def afresh(self):
        return loader.afresh()

    def real(self, name, lo=-10, hi=10, wide=None):
        v = self.vals.get(name)
        if v is None:
            l = -10.0 if lo is None else float(lo)
            h = l + 20 if hi is None else float(hi)
            v = self.vals[name] = float(self.rng.randint(math.ceil(l), math.floor(h))) if self.whole else round(self.rng.uniform(l, h), 3)
        return int(v) if self.whole and v == int(v) else _np.float64(v)

    def pos(self, name, hi=10, lo=0.01):
        return self.real(name, lo, hi)

    def arr(self, x):
        if self.whole:
            y = flat(x)
            if y and all(type(q) is int or isinstance(q, _np.integer) for q in y):
                return _np.array(x)
        return _np.array(x, dtype=float)

    def const(self, x):
        return _np.float64(x)

    def num(self, x):
        return _np.float64(float(x))

    def assume(self, c):
        if not c:
            raise PathAbort('precondition')

    def bad(self, label, msg):
        self.violations.append((label, msg))

    def eq(self, label, a, b, tol=1e-6, atol=1e-8, scale=0.0):
        A, B = flat(a), flat(b)
        if len(B) == 1 and len(A) > 1:
            B = B * len(A)
        if len(A) != len(B):
            return self.bad(label, 'lengths %d and %d differ' % (len(A), len(B)))
        self.checked += 1
        fa, fb = [], []
        nums = [abs(float(z)) for z in A + B if isinstance(z, (int, float, _np.generic)) and not isinstance(z, (str, _np.str_))
                and float(z) == float(z) and abs(float(z)) != float('inf')]
        scale = max(nums + [float(_np.max(_np.abs(scale)))])
        for x, y in zip(A, B):
            if isinstance(x, (str, _np.str_)) or isinstance(y, (str, _np.str_)) or x is None or y is None:
                if x is not y and x != y:
                    self.bad(label, '%r != %r' % (x, y))
                continue
            x, y = float(x), float(y)
            fa.append(x)
            fb.append(y)
            if not abs(x - y) <= atol + tol * max(abs(x), abs(y)) + 1e-9 * scale:
                self.bad(label, 'got %.12g, required %.12g' % (x, y))
        self.trace.append((label, fa, fb, 1e-9 * scale))

    def close(self, label, a, b, tol):
        self.checked += 1
        for x, y in zip(flat(a), flat(b)):
            if not abs(float(x) - float(y)) <= float(tol) * (1 + 1e-6) + 1e-12:
                self.bad(label, 'got %.12g, required %.12g within %g' % (x, y, tol))

    def true(self, label, c):
        self.checked += 1
        if not c:
            self.bad(label, 'does not hold')

    def le(self, label, a, b):
        self.checked += 1
        for x, y in zip(flat(a), flat(b)):
            if not float(x) <= float(y) + 1e-9 * (1 + abs(float(y))):
                self.bad(label, '%.12g <= %.12g does not hold' % (x, y))

    def lt(self, label, a, b):
        self.checked += 1
        for x, y in zip(flat(a), flat(b)):
            if not float(x) < float(y) + 1e-12 * (1 + abs(float(y))):
                self.bad(label, '%.12g < %.12g does not hold' % (x, y))

    def fail(self, label, msg=''):
        self.bad(label, msg)

    def same(self, label, a, b):
        self.checked += 1
        if a != b:
            self.bad(label, '%r != %r' % (a, b))

    @contextlib.contextmanager
    def defined(self, label):
        yield

    def finite(self, label, v):
        self.checked += 1
        for x in flat(v):
            if not math.isfinite(float(x)):
                self.bad(label, 'value %r' % float(x))
                return

    def isnan(self, x):
        return x != x

    def abstract_filaments(self, rot=None):
        pass

    def unique(self, label, xs, cand):
        self.eq(label, xs, cand)

    def hint(self, fn):
        pass

    def scaled_lemmas(self, factors):
        pass


def stand_in(e, tb):
    """what a stand-in of the harness is missing, if that (and not the code under test) is why e was raised"""
    if isinstance(e, AttributeError):
        t = type(e.obj)
        if t.__module__ == 'types' or t.__module__.split('.')[0] in ('props', 'symv'):
            return 'attribute %s' % e.name
    last = tb[-1].filename
    if last.startswith(loader.VERIF + os.sep):
        return '%s: %s' % (type(e).__name__, str(e)[:120])
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got|missing|takes)\b", str(e))
        if m:
            q = [x for x in m.group(1).split('.') if not x.startswith('__')]
            if not loader.defines(q[-1]):
                return str(e)[:120]
    return None


def run_concrete(sc, vals, seed=7):
    """Execute the scenario against the real package: (status, violations, S)."""
    S = ConS(vals, random.Random(seed))
    try:
        with _np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            sc.fn(S, **sc.kw)
    except PathAbort:
        return 'precondition', [], S
    except (EngineError, TimeoutError, MemoryError):
        raise
    except SystemExit as e:
        S.bad('no-exit', 'the code under test exits (%r)' % (e.code,))
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in tb if f.filename.startswith(loader.REPO + os.sep)]
        if not inrepo:
            if S.violations:
                return 'ran', S.violations, S
            if isinstance(e, (KeyError, IndexError, ValueError)) or isinstance(e, TypeError) and 'argument' not in str(e):
                S.bad('readable-result', 'the result lacks what the property speaks of: %s: %s at %s:%d' % (
                    type(e).__name__, str(e)[:160], os.path.basename(tb[-1].filename), tb[-1].lineno))
                return 'ran', S.violations, S
            raise
        where = inrepo[-1]
        gap = stand_in(e, tb)
        if gap:
            if S.violations:
                return 'ran', S.violations, S
            raise EngineError('a stand-in of the check lacks what the code uses: %s (%s:%d)' % (
                gap, os.path.basename(where.filename), where.lineno))
        S.bad('no-exception', '%s: %s at %s:%d' % (type(e).__name__, str(e)[:160], os.path.relpath(where.filename, loader.REPO),
                                                   where.lineno))
    return 'ran', S.violations, S


class Run:
    """All paths of one scenario."""

    def __init__(self, sc, seed=1, tier='quick', budget=120.0):
        self.sc = sc
        self.tier = tier
        o = sc.opts
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.ex = prove.Explorer(seed=seed, max_paths=o.get('max_paths', 300), feas_ms=o.get('feas_ms', 600),
                                 literals=loader.literals())
        self.n_samples = o.get('samples', 48)
        self.z3ms = o.get('z3_ms', 8000 if tier == 'quick' else 30000)
        self.proved = 0
        self.obl = {}
        self.inconclusive = []
        self.violations = []      # (label, msg, vals)
        self.paths = 0
        self.validated = 0
        self.mismatch = []
        self.assumed = set()
        self.failed_keys = set()
        self.samples_out = []

    # --- obligations
    def counted(self, label, n=1):
        self.proved += n
        self.obl[label] = self.obl.get(label, 0) + n

    def prove_eq(self, S, label, pairs):
        path = S.path
        live = []
        for a, b in pairs:
            if a.t is NANT or b.t is NANT:
                self.failed(S, label, 'not a number', None)
                return
            prove.STATS.max_terms = max(prove.STATS.max_terms, len(a.t), len(b.t))
            if a.is_const and b.is_const and a.t == b.t:
                self.counted(label)
                continue
            live.append((a, b))
        prove.STATS.obligations += len(live)
        if not live:
            return
        if path.rename:
            rest = []
            for a, b in live:
                d = core.rename(a - b, path.rename)
                if not d.t:
                    self.counted(label)
                else:
                    rest.append((a, b))
            live = rest
            if not live:
                return
        try:
            if path.lra_zero(live):
                self.counted(label, len(live))
                return
        except Exception as e:
            raise EngineError('z3: %s' % e)
        for a, b in live:
            d = a - b
            if not d.t:
                self.counted(label)
                continue
            ok = False
            try:
                if core.is_numeric(d):
                    ok = core.num_sign(d) == 0
                elif not core.fp_nonzero(d) or path.facts or path.lemmas:
                    if core.is_zero(d):
                        ok = True
                    elif path.lemmas:
                        d2 = core.simp(d)
                        ok = path.lra_zero([(d2, core.ZERO)])
                        if not ok and core.has_neg(d2):
                            n, _ = core.as_fraction(d2, 20000)
                            ok = path.lra_zero([(n, core.ZERO)])
                if not ok and path.equalities():
                    d = core.simp(core.subst(d, path.equalities()))
                    ok = not d.t or not core.fp_nonzero(d) and core.is_zero(d)
            except EngineError as e:
                self.note = str(e)
            if ok:
                self.counted(label)
                continue
            self.refute(S, label, d, '!=', a, b)
            if self.violations:
                return

    def prove_bool(self, S, label, c):
        prove.STATS.obligations += 1
        if isinstance(c, SymBool):
            k = S.path.known(c.p, c.op)
            if k is True:
                self.counted(label)
                return
            if core.is_numeric(c.p):
                if core.num_sign(c.p) in core.ALLOW[c.op]:
                    self.counted(label)
                else:
                    self.failed(S, label, 'does not hold', None)
                return
            try:
                if c.op in ('==', '<=') and not core.fp_nonzero(c.p) and (core.is_zero(c.p) or S.path.zero_by_lemmas(c.p)):
                    self.counted(label)
                    return
            except EngineError:
                pass
            self.refute(S, label, c.p, core.NEGOP[c.op], None, None)
            return
        if bool(c):
            self.counted(label)
        else:
            self.failed(S, label, 'does not hold', None)

    def refute(self, S, label, p, op, a, b):
        """Is there a point of the path with  p op 0 ?  (op is the negation of the obligation)"""
        path = S.path
        key = (label, tuple(path.trace))
        cands = []
        pool = self.ex.sampler.pool
        for i in sorted(path.samples()):
            e = pool[i]
            try:
                v, mag = e.ev2(p.t)
            except EngineError:
                continue
            if v != v:
                continue
            if op == '!=':
                ref = mag
                if a is not None:
                    ref = max(abs(e.ev(a.t)), abs(e.ev(b.t)))
                    if ref != ref:
                        continue
                if abs(v) > 1e-6 * ref + 1e-9 * mag + 1e-12:
                    cands.append((abs(v) / (ref + 1e-9), e))
            elif prove.sat_sign(e, p) in core.ALLOW[op] and (abs(v) > 1e-9 * mag or op in ('<=', '>=', '==')):
                cands.append((abs(v), e))
        cands.sort(key=lambda x: -x[0])
        for _, e in cands[:6]:
            # the solver confirms the pinned point, the real code decides
            r, vals = path.solve([(p, op)], 1500, pins={k: Fraction(v).limit_denominator(10 ** 12) for k, v in e.vals.items()})
            if self.try_witness(S, label, dict(e.vals)):
                return
        if op == '!=':
            for eps in (Fraction(1, 1000), Fraction(1, 10 ** 6)):
                for sgn in (1, -1):
                    r, vals = path.solve([(p * sgn - eps, '>')], self.z3ms // 4)
                    if r == 'sat' and vals is not None and self.try_witness(S, label, vals):
                        return
        r, vals = path.solve([(p, op)], self.z3ms)
        if r == 'unsat':
            self.counted(label)
            return
        if r == 'sat' and vals is not None:
            if self.try_witness(S, label, vals):
                return
            why = 'solver model not reproduced by the real code'
        elif cands:
            why = 'candidate points not reproduced by the real code'
        else:
            why = 'solver: unknown'
        if key not in self.failed_keys:
            self.failed_keys.add(key)
            self.inconclusive.append('%s: %s' % (label, why))

    def failed(self, S, label, msg, _):
        """The obligation is false on this path: any point of the path is a counterexample."""
        path = S.path
        pool = self.ex.sampler.pool
        for i in sorted(path.samples())[:8]:
            if self.try_witness(S, label, dict(pool[i].vals)):
                return
        r, vals = path.solve([(p, op) for p, op in path.facts[-40:]], self.z3ms) if path.facts else ('sat', {})
        if r == 'unsat':
            raise PathAbort('infeasible path')
        if r == 'sat' and vals is not None and self.try_witness(S, label, vals):
            return
        self.inconclusive.append('%s: %s (%s on this path; real code does not reproduce it)' % (label, msg, r))

    def try_witness(self, S, label, vals):
        full = dict(vals)
        for name, (lo, hi) in self.ex.sampler.vars.items():
            if name not in full or full[name] is None:
                full[name] = self.ex.sampler.draw(name, 'u')
            lo2 = -1e300 if lo is None else float(lo)
            hi2 = 1e300 if hi is None else float(hi)
            full[name] = min(max(float(full[name]), lo2), hi2)
        old = core.PATH
        try:
            st, viol, C = run_concrete(self.sc, full)
        finally:
            core.set_path(old)
        if st == 'ran' and viol:
            hit = [v for v in viol if v[0] == label] or viol
            self.violations.append((hit[0][0], hit[0][1], C.vals))
            return True
        return False

    # --- exploration
    def execute(self):
        sc = self.sc
        # sampler needs the variables: a first dry declaration happens on the first path
        while self.ex.work:
            if self.paths >= self.ex.max_paths:
                self.inconclusive.append('path budget (%d) exhausted' % self.ex.max_paths)
                break
            if time.time() > self.deadline:
                self.inconclusive.append('time budget exhausted after %d paths' % self.paths)
                break
            path = prove.Path(self.ex.work.pop(), self.ex)
            core.set_path(path)
            S = SymS(self, path)
            if not self.ex.sampler.pool:
                self.ex.sampler.fill(self.n_samples)
            pol = sc.opts.get('policy')
            if pol:
                path.deg_policy = pol(path)
            self.paths += 1
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    sc.fn(S, **sc.kw)
            except PathAbort:
                continue
            except EngineError as e:
                self.inconclusive.append('engine: %s%s' % (e, _where()))
            except (TimeoutError, MemoryError) as e:
                self.inconclusive.append('budget: %s' % type(e).__name__)
                break
            except SystemExit as e:
                self._exc(S, 'no-exit', 'the code under test exits (%r)' % (e.code,))
            except Exception as e:
                self._exc(S, 'no-exception', '%s: %s%s' % (type(e).__name__, str(e)[:200], _where()))
            finally:
                core.set_path(core.NoPath())
            self.assumed |= set(path.assumed)
            if self.violations:
                break
            self.validate(path, S)
            if self.violations:
                break
        return self

    def _exc(self, S, label, msg):
        try:
            self.failed(S, label, msg, None)
        except PathAbort:
            pass

    def validate(self, path, S):
        """Translator validation: a point of this path through the real code, values compared with the encoding."""
        pool = self.ex.sampler.pool
        alive = sorted(path.samples())
        pref = [i for i in alive if pool[i].mode == 'u'] or alive
        for i in pref[:1 if self.paths > 4 else 2]:
            e = pool[i]
            try:
                st, viol, C = run_concrete(self.sc, dict(e.vals))
            except EngineError as ex:
                self.inconclusive.append('concrete run: %s' % ex)
                continue
            if st != 'ran':
                continue
            if viol:
                self.violations.append((viol[0][0], viol[0][1], C.vals))
                return
            if self.compare(S, C, e):
                self.validated += 1
                if len(self.samples_out) < 2:
                    self.samples_out.append({'scenario': self.sc.id, 'point': {k: float(v) for k, v in list(C.vals.items())[:40]},
                                             'path_decisions': [bool(x) for x in path.trace][:40]})

    def compare(self, S, C, e):
        if [t[0] for t in S.trace] != [t[0] for t in C.trace]:
            return False
        for (l, a, b), (l2, fa, fb, slack) in zip(S.trace, C.trace):
            if len(a) != len(fa):
                self.mismatch.append('%s: %d values symbolically, %d concretely' % (l, len(a), len(fa)))
                return False
            for x, v in zip(a, fa):
                try:
                    w, mag = e.ev2(x.t)
                except EngineError:
                    return False
                if w != w:
                    return False
                if not abs(w - v) <= 1e-6 * max(abs(w), abs(v)) + 1e-8 * mag + 1e-7 + slack:
                    self.mismatch.append('%s: encoding %.12g, real code %.12g' % (l, w, v))
                    return False
        return True

    def explore_concretely(self, n):
        """Used only for scenarios the engine could not settle: points run against the real code."""
        k = 0
        rng = random.Random(11)
        pool = self.ex.sampler.pool
        for i in range(n):
            vals = dict(pool[i % len(pool)].vals) if pool and i < len(pool) else {}
            try:
                st, viol, C = run_concrete(self.sc, vals, seed=rng.randrange(10 ** 6))
            except (EngineError, TimeoutError):
                break
            if st == 'ran':
                k += 1
                if viol:
                    self.violations.append((viol[0][0], viol[0][1], C.vals))
                    break
        return k


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    fr = [f for f in tb if f.filename.startswith(loader.REPO + os.sep)] or list(tb)[-3:]
    f = fr[-1]
    return ' at %s:%d' % (os.path.basename(f.filename), f.lineno)
