"""Summaries of the two vortex-filament functions for the properties above them.

C01-C03 decide these two functions themselves over their real source.  Above them a filament is an uninterpreted
function of the offsets between the point and its ends, times the circulation, with exactly the facts proved there:
translation (C03), swapped ends and collinear positions (C01), mirroring (C03), length of the wake direction (C01) and,
where a scenario asks for it, rotation about the z axis (C03).  Points are evaluated by the real functions."""
import itertools

import numpy as _np

from . import core, loader, snp
from .core import ZERO, Sym, sym

VARIANTS = [(m, sw) for sw in (False, True) for m in itertools.product((1, -1), repeat=3)]


class Table:
    def __init__(self, name, nargs, fn):
        self.name, self.fn = name, fn
        self.rows = []
        self.fps = None
        self.memo = {}
        self.rot = None       # (cos, sin) of a rotation about z under which values may be shared
        self.evals = {}
        for k in range(3):
            core.SUMMARIES[name + str(k)] = self.evaluator(k)

    def evaluator(self, k):
        def f(*x):
            v = self.evals.get(x)
            if v is None:
                try:
                    v = _np.asarray(self.fn(*x), dtype=float)
                except (ZeroDivisionError, FloatingPointError, ValueError):
                    v = _np.full(3, float('nan'))
                if len(self.evals) > 200000:
                    self.evals.clear()
                self.evals[x] = v
            return float(v[k])
        return f

    def fp(self, args):
        out = _np.empty((2, 6))
        for i, a in enumerate(args):
            f = core.fingerprint(a)
            out[0, i], out[1, i] = f[0][0], f[1][0]
        return out

    def transforms(self):
        for m, sw in VARIANTS:
            if sw and self.name == 'W':
                continue
            yield m, sw, None
        if self.rot is not None:
            for m, sw in VARIANTS:
                if m[0] == m[1] and not (sw and self.name == 'W'):      # those commute with the rotation
                    for sg in (1, -1):
                        yield m, sw, sg

    @staticmethod
    def tr_args(args, m, sw, rot, cs):
        a, b = args[:3], args[3:]
        if sw:
            a, b = b, a
        if rot is not None:
            c, s = cs
            s = s * rot
            a = (c * a[0] - s * a[1], s * a[0] + c * a[1], a[2])
            b = (c * b[0] - s * b[1], s * b[0] + c * b[1], b[2])
        return tuple(x * k if k != 1 else x for x, k in zip(a, m)) + tuple(x * k if k != 1 else x for x, k in zip(b, m))

    def tr_val(self, v, m, sw, rot):
        f = m[0] * m[1] * m[2] * (-1 if sw else 1)
        v = list(v)
        if rot is not None:
            c, s = self.rot
            s = s * rot
            v = [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]]
        return [x * (f * k) if f * k != 1 else x for x, k in zip(v, m)]

    def same(self, a, b):
        for x, y in zip(a, b):
            if x.t == y.t:
                continue
            try:
                if not core.is_zero(x - y, 20000):
                    return False
            except core.EngineError:
                return False
        return True

    def value(self, args):
        args = tuple(core.simp(sym(a)) for a in args)
        if any(a.is_nan for a in args):
            return [core.NAN] * 3
        if self.name == 'W':
            args = args[:3] + direction(args[3:])
        key = tuple(a.key() for a in args)
        v = self.memo.get(key)
        if v is not None:
            return v
        a, b = args[:3], args[3:]
        cr = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        if all(self.is_zero(x) for x in cr):
            v = [ZERO] * 3
        else:
            v = self.lookup(args)
            if v is None:
                v = self.create(args)
        self.memo[key] = v
        return v

    @staticmethod
    def is_zero(p):
        if not p.t:
            return True
        if core.fp_nonzero(p):
            return False
        try:
            return core.is_zero(p, 20000)
        except core.EngineError:
            return False

    def lookup(self, args):
        if not self.rows:
            return None
        f = self.fp(args)
        F = self.fps
        for m, sw, rot in self.transforms():
            cs = None
            if rot is None:
                g = _np.array([self.tr_args(tuple(r), m, sw, None, None) for r in f])
            else:
                g = _np.empty((2, 6))
                for i in range(2):
                    c, s = (core.fingerprint(x)[i][0] for x in self.rot)
                    g[i] = self.tr_args(tuple(f[i]), m, sw, rot, (c, s))
            if rot is not None and self.name == 'W':
                # a turned wake direction may differ from the stored one by its length
                n = [_np.sqrt((q[..., 3:] ** 2).sum(axis=-1)) for q in (F, g)]
                F, g = F.copy(), g.copy()
                F[..., 3:] /= n[0][..., None]
                g[..., 3:] /= n[1][..., None]
            d = _np.abs(F - g).max(axis=(1, 2))
            for i in _np.nonzero(d < 1e-8)[0]:
                t = self.tr_args(args, m, sw, rot, self.rot)
                if rot is not None and self.name == 'W':
                    t = t[:3] + same_length(t[3:], self.rows[i][0][3:])
                if self.same(t, self.rows[i][0]):
                    # args transformed = stored  =>  U(args) = inverse transform of the stored value
                    return self.tr_val(self.rows[i][1], m, sw, -rot if rot is not None else None)
        return None

    def create(self, args):
        v = [core.summary(self.name + str(k), args) for k in range(3)]
        f = self.fp(args)
        for m, sw, rot in self.transforms():
            if rot is not None or (m == (1, 1, 1) and not sw):
                continue
            g = _np.array([self.tr_args(tuple(r), m, sw, None, None) for r in f])
            if _np.abs(f - g).max() < 1e-8 and self.same(self.tr_args(args, m, sw, None, None), args):
                w = self.tr_val([Sym.c(1)] * 3, m, sw, None)
                v = [x if y.const() == 1 else ZERO for x, y in zip(v, w)]
        self.rows.append((args, v))
        self.fps = f[None] if self.fps is None else _np.concatenate([self.fps, f[None]])
        return v


def direction(d):
    """A wake direction up to its (positive) length."""
    nz = [x for x in d if x.t]
    if len(nz) == 1:
        s = core.quick_signs(nz[0])
        if s == {1} or s == {-1}:
            k = 1 if s == {1} else -1
            return tuple(Sym.c(k) if x.t else ZERO for x in d)
    if all(x.is_const for x in d):
        g = max(abs(core.Q(x.const())) for x in nz) if nz else 1
        return tuple(Sym.c(core.Q(x.const()) / g) if x.t else ZERO for x in d)
    return tuple(core.strip_positive(tuple(d)))


def same_length(a, b):
    """a scaled to b where they are parallel by a rational factor (fingerprints of a rotated direction and a stored one)"""
    fa = _np.array([core.fingerprint(x)[0][0] for x in a])
    fb = _np.array([core.fingerprint(x)[0][0] for x in b])
    k = _np.sqrt((fb ** 2).sum() / (fa ** 2).sum())
    q = core.Q(k).limit_denominator(64)
    return tuple(x * Sym.c(q) for x in a) if q > 0 and abs(float(q) - k) < 1e-9 else tuple(a)


TABLES = {}


def install():
    if TABLES:
        return TABLES
    R = loader.real(loader.PKG + '.solver.velocity')
    z3 = _np.zeros(3)
    TABLES['L'] = L = Table('L', 6, lambda *x: R.vortex_line(z3, -_np.array(x[:3]), -_np.array(x[3:]), 1.0))
    TABLES['W'] = W = Table('W', 6, lambda *x: R.vortex_infinite_line(_np.array(x[:3]), z3, _np.array(x[3:]), 1.0))

    def vortex_line(p, p1, p2, gamma=1.0):
        r1, r2 = list(snp.array(p) - snp.array(p1)), list(snp.array(p) - snp.array(p2))
        return snp.array([sym(gamma) * x for x in L.value(tuple(r1 + r2))])

    def vortex_infinite_line(P, A, r0, gamma=1.0):
        r = list(snp.array(P) - snp.array(A))
        return snp.array([sym(gamma) * x for x in W.value(tuple(r + list(snp.array(r0))))])
    STAND_INS.update(vortex_line=vortex_line, vortex_infinite_line=vortex_infinite_line)
    patch()
    return TABLES


STAND_INS = {}


def patch():
    """use the summaries in the modules loaded now"""
    V = loader.load(loader.PKG + '.solver.velocity')
    for m in ('solver.velocity', 'solver.coefs', 'solver.forces', 'solver.vlm', 'runner.aircraft'):
        try:
            loader.load(loader.PKG + '.' + m)
        except Exception:
            pass
    for name, new in STAND_INS.items():
        old = getattr(V, name, None)
        if old is None:
            continue
        for m in list(loader._mods.values()):
            for k, v in list(m.__dict__.items()):
                if v is old:
                    m.__dict__[k] = new
