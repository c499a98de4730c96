"""Paths, feasibility and proof obligations (z3)."""
import math
import random
import time
from fractions import Fraction

import z3

from . import core
from .core import (ALLOW, ATOMS, Env, EngineError, NAN, NANT, NEGOP, PathAbort, Sym, SymBool, ZERO, canon, cmp,
                   quick_signs, sym)

Q = Fraction


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.branches = 0
        self.paths = 0
        self.feas_unsat = 0
        self.max_terms = 0
        self.obligations = 0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()


def zcheck(solver, timeout_ms):
    solver.set('timeout', int(timeout_ms))
    t = time.time()
    try:
        r = solver.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.queries += 1
    STATS.time += time.time() - t
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return r


def zq(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


class Z3Enc:
    """Translation of polynomials over atoms, with the axioms of the atoms used."""

    def __init__(self, pins=None, shallow=False):
        self.shallow = shallow
        self.v = {}
        self.iv = {}
        self.ax = []
        self.pins = pins or {}

    def atom(self, aid):
        x = self.v.get(aid)
        if x is not None:
            return x
        a = ATOMS[aid]
        x = z3.Real('x%d' % aid)
        self.v[aid] = x
        ax = self.ax
        if a.kind == 'var' and a.name in self.pins:
            ax.append(x == zq(Fraction(self.pins[a.name])))
        if a.lo is not None:
            ax.append(x >= zq(a.lo))
        if a.hi is not None:
            ax.append(x <= zq(a.hi))
        if a.kind == 'sqrt':
            ax.append(x >= 0)
            if not self.shallow:
                ax.append(x * x == self.poly(a.data))
        elif self.shallow:
            pass
        elif a.kind == 'opq':
            ax.append(x == self.poly(a.data))
        elif a.kind == 'trig':
            base, w = a.data
            C, S_, CH, SH = core.trig_atoms(base)
            th = core.base_angle(base)
            if self.pins and all(ATOMS[i].kind in ('pi',) or ATOMS[i].name in self.pins for m in th.t for i, e in m):
                # pinned angle: a rational point on the circle close to the exact one
                t = Env(self.pins).ev(th.t)
                h = Fraction(math.tan(t / 4)).limit_denominator(10 ** 9)
                ch, sh = (1 - h * h) / (1 + h * h), 2 * h / (1 + h * h)
                ax.append(x == zq([ch * ch - sh * sh, 2 * sh * ch, ch, sh][w]))
                return x
            if w < 2:
                o = self.atom(S_.id if w == 0 else C.id)
                if w == 0:
                    ax.append(x * x + o * o == 1)
            else:
                c, s = self.atom(C.id), self.atom(S_.id)
                ch, sh = self.atom(CH.id), self.atom(SH.id)
                if w == 2:
                    ax.append(2 * x * x == 1 + c)
                    ax.append(2 * x * sh == s)
                else:
                    ax.append(2 * x * x == 1 - c)
        return x

    def inv(self, aid):
        y = self.iv.get(aid)
        if y is None:
            x = self.atom(aid)
            y = z3.Real('i%d' % aid)
            self.iv[aid] = y
            self.ax.append(x * y == 1)
        return y

    def poly(self, t):
        terms = []
        for m, c in t.items():
            f = [zq(c)] if c != 1 or not m else []
            for a, e in m:
                x = self.atom(a) if e > 0 else self.inv(a)
                f.extend([x] * abs(e))
            terms.append(z3.Product(*f) if len(f) > 1 else f[0])
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(*terms) if len(terms) > 1 else terms[0]

    def fact(self, p, op):
        e = self.poly(p.t)
        return {'<': e < 0, '<=': e <= 0, '==': e == 0, '!=': e != 0, '>': e > 0, '>=': e >= 0}[op]


def model_values(m, enc):
    """Values of the free variables in a model (angles through their sine and cosine)."""
    def num(x):
        v = m.eval(x, model_completion=True)
        try:
            if z3.is_rational_value(v):
                return float(v.numerator_as_long()) / float(v.denominator_as_long()) \
                    if abs(v.numerator_as_long()) < 1 << 900 and v.denominator_as_long() < 1 << 900 else float(v.as_fraction())
            if z3.is_algebraic_value(v):
                a = v.approx(20)
                return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        except Exception:
            pass
        return None
    out = {}
    for aid, x in enc.v.items():
        a = ATOMS[aid]
        if a.kind == 'var':
            v = num(x)
            if v is not None:
                out[a.name] = v
    for aid, x in enc.v.items():
        a = ATOMS[aid]
        if a.kind == 'trig' and a.data[1] in (0, 2):
            base, w = a.data
            th = core.base_angle(base)
            C, S_, CH, SH = core.trig_atoms(base)
            if C.id not in enc.v or S_.id not in enc.v:
                continue
            c, s = num(enc.v[C.id]), num(enc.v[S_.id])
            if c is None or s is None:
                continue
            ang = math.atan2(s, c)
            if CH.id in enc.v:
                ch, sh = num(enc.v[CH.id]), num(enc.v[SH.id])
                if ch is not None and sh is not None:
                    ang = 2 * math.atan2(sh, ch)
            (mono, q), = th.t.items()
            vs = [ATOMS[i] for i, e in mono if ATOMS[i].kind == 'var']
            rest = [(ATOMS[i], e) for i, e in mono if ATOMS[i].kind != 'var']
            if len(vs) == 1 and all(r[0].kind == 'pi' for r in rest):
                k = float(q) * math.pi ** sum(e for r, e in rest)
                v = ang / k
                per = 2 * math.pi / abs(k)
                va = vs[0]
                if va.lo is not None and va.hi is not None:
                    lo, hi = float(va.lo) - 1e-9, float(va.hi) + 1e-9
                    while v < lo:
                        v += per
                    while v > hi:
                        v -= per
                out[va.name] = v
    return out


class Sampler:
    """Points of the scenario's input box (used to settle branch feasibility and to look for witnesses)."""

    def __init__(self, seed, literals=()):
        self.rng = random.Random(seed)
        self.lits = [float(x) for x in literals]
        self.vars = {}
        self.whole = set()
        self.pool = []

    def declare(self, name, lo, hi, whole=False):
        if name not in self.vars:
            self.vars[name] = (lo, hi)
            if whole:
                self.whole.add(name)
            for k, p in enumerate(self.pool):
                p.vals[name] = self.draw(name, p.mode)
                p.memo.clear()

    def draw(self, name, mode):
        lo, hi = self.vars[name]
        l = float(lo) if lo is not None else -10.0
        h = float(hi) if hi is not None else (10.0 if l < 5 else l + 20)
        r = self.rng
        if name in self.whole:
            l, h = math.ceil(l), math.floor(h)
            if mode == 'zero' and l <= 0 <= h and r.random() < .6:
                return 0.0
            return float(r.choice([l, h]) if mode == 'edge' and r.random() < .6 else r.randint(l, h))
        if mode == 'u':
            return round(r.uniform(l, h), 3) if h - l > 0.1 else r.uniform(l, h)
        if mode == 'tiny':
            x = 10 ** r.uniform(-11, 0) * (1 if r.random() < .5 else -1) if r.random() < .8 else r.uniform(l, h)
        elif mode == 'int':
            x = float(r.choice([0, 1, -1, 2, -2, 3, 5, 0.5, -0.5, l, h, (l + h) / 2]))
        elif mode == 'zero':
            x = 0.0 if r.random() < .6 else r.uniform(l, h)
        elif mode == 'lit':
            x = r.choice(self.lits) * r.choice([1, 1, -1]) + r.choice([0, 1e-6, -1e-6, .1, -.1]) if self.lits else r.uniform(l, h)
        elif mode == 'edge':
            x = r.choice([l, h, l + (h - l) * 1e-6, h - (h - l) * 1e-6, l + (h - l) * .01, h - (h - l) * .01, r.uniform(l, h)])
        else:
            x = l + (h - l) * r.random() ** 2
        if x < l or x > h:
            x = r.uniform(l, h)
        return x

    def fill(self, n):
        modes = ['u', 'u', 'u', 'tiny', 'int', 'zero', 'lit', 'edge']
        while len(self.pool) < n:
            mode = modes[len(self.pool) % len(modes)]
            e = Env({})
            e.mode = mode
            for name in self.vars:
                e.vals[name] = self.draw(name, mode)
            self.pool.append(e)

    def add(self, vals):
        e = Env({})
        e.mode = 'u'
        for name in self.vars:
            e.vals[name] = vals.get(name)
            if e.vals[name] is None:
                e.vals[name] = self.draw(name, 'u')
        self.pool.append(e)
        return e


def sat_sign(e, p):
    """Sign of p at a point: -1, 0 (exactly or numerically zero), 1, or None when not a number."""
    try:
        v, mag = e.ev2(p.t)
    except EngineError:
        return None
    if v != v or mag == INF:
        return None
    if abs(v) <= 1e-13 * mag:
        return 0
    return 1 if v > 0 else -1


INF = float('inf')


class Path:
    """One execution: a decision prefix, the facts assumed so far and the obligations met."""

    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.ex = explorer
        self.trace = []
        self.facts = []          # [(poly, op)]
        self.signs = {}          # canonical poly key -> allowed signs
        self.lemmas = []         # polys known to be zero (linear-system contracts, proven facts)
        self.systems = []
        self.rename = {}         # equal unknowns (proved): atom id -> representative
        self.dens = []           # denominators met
        self.den_keys = set()
        self.denmark = None
        self.alive = None        # sample indices consistent so far
        self.assumed = []
        self.deg_policy = None
        self._eqn, self._eqt = 0, {}

    # --- facts
    def samples(self):
        pool = self.ex.sampler.pool
        if self.alive is None:
            self.alive = set()
            self._seen = 0
            self.alive_from(0)
        elif self._seen < len(pool):
            self.alive_from(self._seen)
        return self.alive

    def alive_from(self, k):
        pool = self.ex.sampler.pool
        for i in range(k, len(pool)):
            if all(self.holds(pool[i], p, op) for p, op in self.facts):
                self.alive.add(i)
        self._seen = len(pool)

    @staticmethod
    def holds(e, p, op):
        s = sat_sign(e, p)
        return s is not None and s in ALLOW[op]

    def add_fact(self, p, op):
        self.facts.append((p, op))
        sg, cp = canon(p)
        al = ALLOW[op] if sg > 0 else {-x for x in ALLOW[op]}
        k = cp.key()
        self.signs[k] = self.signs.get(k, {-1, 0, 1}) & al
        if self.alive is not None:
            pool = self.ex.sampler.pool
            self.alive = {i for i in self.alive if self.holds(pool[i], p, op)}

    def equalities(self):
        """Substitution solved from the equality facts linear in an input variable."""
        if self._eqn == len(self.facts):
            return self._eqt
        table = {}
        for p, op in self.facts:
            if op != '==':
                continue
            try:
                p = core.subst(p, table) if table else p
            except EngineError:
                continue
            if len(p.t) > 12 or not p.t:
                continue
            best = None
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and core.ATOMS[m[0][0]].kind == 'var':
                    a = m[0][0]
                    if sum(1 for mm in p.t if any(x == a for x, e in mm)) == 1 and (best is None or a > best[0]) \
                            and not any(core.depends(x, a) for mm in p.t for x, e in mm if x != a):
                        best = (a, c)
            if best is None:
                continue
            a, c = best
            v = Sym({m: q for m, q in p.t.items() if m != ((a, 1),)}) * (Fraction(-1) / Fraction(c))
            table = {k: core.subst(x, {a: v}) for k, x in table.items()}
            table[a] = v
        self._eqn, self._eqt = len(self.facts), table
        return table

    def known(self, p, op):
        """True/False when settled by earlier facts on the same polynomial."""
        sg, cp = canon(p)
        s = self.signs.get(cp.key())
        if s is None:
            return None
        if sg < 0:
            s = {-x for x in s}
        s = s & quick_signs(p)
        al = ALLOW[op]
        if s <= al:
            return True
        if not (s & al):
            return False
        return None

    def note_division(self, q):
        if q.is_const and q.t:
            return
        k = q.key()
        if k in self.den_keys:
            return
        self.den_keys.add(k)
        self.dens.append(q)

    def note_sqrt(self, q):
        pass

    def decide(self, b):
        p, op = b.p, b.op
        if p.is_const or core.is_numeric(p):
            return core.num_sign(p) in ALLOW[op]
        k = self.known(p, op)
        if k is not None:
            return k
        i = len(self.trace)
        STATS.branches += 1
        if i < len(self.prefix):
            val = self.prefix[i]
            self.trace.append(val)
            self.add_fact(p, op if val else NEGOP[op])
            return val
        if self.lemmas and core.has_unk(p):
            r = self.sign_by_lemmas(p, op)
            if r is not None:
                self.trace.append(r)
                return r
        # identically zero difference?
        if op in ('==', '!=', '<', '<=') and not core.fp_nonzero(p):
            try:
                if core.is_zero(p, 20000) or self.zero_by_lemmas(p):
                    self.trace.append(op in ('==', '<='))
                    return op in ('==', '<=')
            except EngineError:
                pass
        if self.deg_policy is not None:
            r = self.deg_policy(p, op)
            if r is not None:
                self.trace.append(r)
                self.add_fact(p, op if r else NEGOP[op])
                return r
        ft = self.feasible(p, op)
        ff = self.feasible(p, NEGOP[op])
        if not ft and not ff:
            raise PathAbort('infeasible')
        if ft and ff:
            self.ex.push(self.trace + [False])
            val = True
        else:
            val = ft
            if not ft or not ff:
                STATS.feas_unsat += 1
        self.trace.append(val)
        self.add_fact(p, op if val else NEGOP[op])
        return val

    def feasible(self, p, op):
        pool = self.ex.sampler.pool
        for i in self.samples():
            if self.holds(pool[i], p, op):
                return True
        r, vals = self.solve([(p, op)], self.ex.feas_ms)
        if r == 'unsat':
            return False
        if r == 'sat' and vals is not None:
            self.ex.sampler.add(vals)
        return True

    # --- solver
    def relevant(self, polys):
        """Facts sharing atoms (transitively) with polys."""
        def atoms(t, acc):
            for m in t:
                for a, e in m:
                    if a not in acc:
                        acc.add(a)
                        at = ATOMS[a]
                        if at.kind in ('sqrt', 'opq'):
                            atoms(at.data, acc)
                        elif at.kind == 'uf':
                            for x in at.data[1]:
                                atoms(x.t, acc)
                        elif at.kind == 'trig':
                            for w in core.trig_atoms(at.data[0])[:2]:
                                acc.add(w.id)
            return acc
        S = set()
        for p in polys:
            atoms(p.t, S)
        fs = [(p, op, atoms(p.t, set())) for p, op in self.facts]
        out = []
        while True:
            new = [f for f in fs if f[2] & S]
            if not new:
                break
            fs = [f for f in fs if not (f[2] & S)]
            for f in new:
                S |= f[2]
                out.append((f[0], f[1]))
        return out

    def solve(self, extra, ms, pins=None, lemmas=True):
        """z3 on the path facts and extra [(poly, op)]: ('sat', values) / ('unsat', None) / ('unknown', None)."""
        rel = self.relevant([p for p, op in extra])
        if sum(len(p.t) for p, op in rel + list(extra)) > 6000:
            return 'unknown', None
        if not pins and self.shallow_unsat(rel, extra):
            return 'unsat', None
        enc = Z3Enc(pins)
        s = z3.Solver()
        fs = []
        for p, op in rel + list(extra):
            fs.append(enc.fact(p, op))
        for a in [ATOMS[i] for i in list(enc.v)]:
            if a.kind == 'uf':
                self.uf_axioms(a, enc)
        if lemmas and any(ATOMS[i].kind == 'unk' for i in enc.v):
            for l in self.lemmas:
                if len(l.t) < 400:
                    fs.append(enc.poly(l.t) == 0)
        for f in enc.ax:
            s.add(f)
        for f in fs:
            s.add(f)
        r = zcheck(s, ms)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', model_values(s.model(), enc)
        return 'unknown', None

    def shallow_unsat(self, rel, extra):
        """Unsat already with squared lengths read as squares of the lengths and roots left uninterpreted."""
        roots = {}
        seen = set()

        def collect(t):
            for m in t:
                for i, e in m:
                    if i not in seen:
                        seen.add(i)
                        a = ATOMS[i]
                        if a.kind in ('sqrt', 'opq'):
                            if a.kind == 'sqrt':
                                k = core.nonconst_key(a.data)
                                if k is not None:
                                    roots[k[0]] = (a, k[1], k[2])
                            collect(a.data)
        allf = list(rel) + list(extra)
        for p, op in allf:
            collect(p.t)
        if not roots:
            return False

        def rewrite(p):
            k = core.nonconst_key(p.t)
            if k is None or k[0] not in roots:
                return p
            a, lead, c0 = roots[k[0]]
            # p = s*N + k2, base = lead*N + c0   =>  p = s/lead*(root^2 - c0) + k2
            f = k[1] / lead
            return Sym({((a.id, 2),): f}) + (k[2] - f * c0)
        ex = [(rewrite(p), op) for p, op in extra]
        want = set()
        for p, op in ex:
            for m in p.t:
                want |= {i for i, e in m}
        fs = []
        for p, op in rel:
            q = rewrite(p)
            ids = {i for m in q.t for i, e in m}
            if ids & want and len(q.t) < 60:
                fs.append((q, op))
        if not fs and all(a is b for (a, _), (b, _) in zip(ex, extra)):
            return False
        enc = Z3Enc(None, shallow=True)
        s = z3.Solver()
        cs = [enc.fact(p, op) for p, op in fs + ex]
        for f in enc.ax + cs:
            s.add(f)
        return zcheck(s, 300) == z3.unsat

    def uf_axioms(self, a, enc):
        f, args = a.data
        x = enc.atom(a.id)
        if f == 'log':
            y = enc.poly(args[0].t)
            enc.ax.append(z3.Implies(y > 1, x > 0))
            enc.ax.append(z3.Implies(y < 1, x < 0))
            enc.ax.append(z3.Implies(y == 1, x == 0))
            enc.ax.append(x <= y - 1)
            for b in list(enc.v):
                o = ATOMS[b]
                if o is not a and o.kind == 'uf' and o.data[0] == 'log':
                    z = enc.poly(o.data[1][0].t)
                    enc.ax.append(z3.Implies(y > z, x > enc.atom(b)))
                    enc.ax.append(z3.Implies(y < z, x < enc.atom(b)))
        elif f == 'pow':
            y, e = enc.poly(args[0].t), enc.poly(args[1].t)
            enc.ax.append(z3.Implies(y > 0, x > 0))
            enc.ax.append(z3.Implies(e == 0, x == 1))
            enc.ax.append(z3.Implies(e == 1, x == y))
            enc.ax.append(z3.Implies(y == 1, x == 1))
            enc.ax.append(z3.Implies(z3.And(y > 1, e > 0), x > 1))
            enc.ax.append(z3.Implies(z3.And(y > 0, y < 1, e > 0), x < 1))
            for b in list(enc.v):
                o = ATOMS[b]
                if o is not a and o.kind == 'uf' and o.data[0] == 'pow' and o.data[1][1].t == args[1].t:
                    z = enc.poly(o.data[1][0].t)
                    enc.ax.append(z3.Implies(z3.And(y > z, z >= 0, e > 0), x > enc.atom(b)))
                    enc.ax.append(z3.Implies(z3.And(z > y, y >= 0, e > 0), x < enc.atom(b)))
                    enc.ax.append(z3.Implies(y == z, x == enc.atom(b)))

    # --- linear reasoning over monomials
    def lra_zero(self, pairs, extra_lemmas=()):
        """unsat of  lemmas(=0) and (some lhs != rhs)  with monomials abstracted to reals: a proof of equality."""
        mon = {}

        def mv(m):
            v = mon.get(m)
            if v is None:
                v = z3.Real('m%d' % len(mon)) if m else z3.RealVal(1)
                mon[m] = v
            return v

        def lin(t):
            ts = [zq(c) * mv(m) if c != 1 else mv(m) for m, c in t.items()]
            return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        s = z3.Solver()
        for l in list(self.lemmas) + list(extra_lemmas):
            s.add(lin(l.t) == 0)
        ds = [lin(a.t) != lin(b.t) for a, b in pairs]
        s.add(z3.Or(*ds) if len(ds) > 1 else ds[0])
        r = zcheck(s, 60000)
        return r == z3.unsat

    def sign_by_lemmas(self, p, op):
        """p op 0 settled by the linear-system rows alone (monomials abstracted to reals)?"""
        atoms = {a for m in p.t for a, e in m}
        rows = [l for l in self.lemmas if any(a in atoms and ATOMS[a].kind == 'unk' for m in l.t for a, e in m)]
        # linear elimination instead of a solver call for the common case p = c*row + constant
        for val, o in ((True, NEGOP[op]), (False, op)):
            mon = {}

            def lin(t):
                ts = [zq(c) * mon.setdefault(m, z3.Real('m%d' % len(mon))) if m else zq(c) for m, c in t.items()]
                return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
            s = z3.Solver()
            for l in rows:
                s.add(lin(l.t) == 0)
            e = lin(p.t)
            s.add({'<': e < 0, '<=': e <= 0, '==': e == 0, '!=': e != 0, '>': e > 0, '>=': e >= 0}[o])
            if zcheck(s, 5000) == z3.unsat:
                return val
        return None

    def zero_by_lemmas(self, p):
        if not self.lemmas:
            return False
        return self.lra_zero([(p, ZERO)])


class Explorer:
    def __init__(self, seed=1, max_paths=400, feas_ms=700, literals=(), deadline=None):
        self.sampler = Sampler(seed, literals)
        self.work = [[]]
        self.max_paths = max_paths
        self.feas_ms = feas_ms
        self.deadline = deadline
        self.aborted = 0

    def push(self, prefix):
        self.work.append(prefix)
