"""Stand-ins for numpy, math, numba and scipy used while executing repo code symbolically.

Arrays are numpy object arrays holding Sym values (class SArr); anything not
overridden here is the real numpy function applied to those object arrays.
"""
import builtins
import math as _math
import types
from fractions import Fraction

import numpy as _np

from . import core, prove
from .core import EngineError, NAN, PI, Sym, SymBool, ZERO, sym

FLOATS = (float, _np.float64, _np.float32, _np.floating, 'float', 'float64', 'float32', 'd', 'f8', _np.double, 'f')


class SArr(_np.ndarray):
    """Object array of Sym; float casts keep the symbols."""

    def astype(self, dtype, *a, **k):
        if is_float_dtype(dtype) or dtype is object:
            return _np.array(self, dtype=object).view(SArr)
        if self.dtype == object and all(isinstance(x, (bool, _np.bool_, SymBool)) for x in self.ravel().tolist()):
            return _np.array([bool(x) for x in self.ravel().tolist()]).reshape(self.shape).astype(dtype)
        return _np.array([int(x) for x in self.ravel().tolist()]).reshape(self.shape).astype(dtype)

    def mean(self, axis=None, dtype=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis, **k) / n

    def dot(self, b, out=None):
        return dot(self, b)

    def std(self, *a, **k):
        raise EngineError('std')
    var = std

    def round(self, *a, **k):
        raise EngineError('round')

    def tobytes(self, *a):
        raise EngineError('tobytes')

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr.item()
        return arr.view(SArr) if arr.dtype == object else _np.asarray(arr)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [_np.asarray(x) if isinstance(x, SArr) else x for x in inputs]
        ins = [lift(x) if isinstance(x, _np.ndarray) and x.dtype.kind == 'f' else x for x in ins]
        out = kw.get('out')
        if out is not None:
            kw['out'] = tuple(o.view(_np.ndarray) if isinstance(o, SArr) else o for o in out)
        name = ufunc.__name__
        ints = name in INTUF and all(is_int(x) for x in inputs) and method in ('__call__', 'reduce', 'accumulate', 'outer')
        if out is not None and isinstance(out[0], IArr) and not ints:
            raise EngineError('fractions put into an array of whole numbers')
        if method == '__call__' and name in UF_OVERRIDE:
            r = UF_OVERRIDE[name](*ins)
        elif name == 'matmul':
            r = dot(*[wrap(x) for x in ins])
        else:
            if name == 'reciprocal':
                r = _np.divide(_np.array(Sym.c(1), dtype=object), ins[0])
            else:
                r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = out[0]
            if name in UF_OVERRIDE or name == 'matmul':
                o[...] = r
            return o
        if name in BOOLUF and isinstance(r, _np.ndarray) and r.dtype == object:
            r = _np.array([bool(x) for x in r.ravel()], dtype=bool).reshape(r.shape)
        r = wrap(r)
        return r.view(IArr) if ints and isinstance(r, SArr) else r


class IArr(SArr):
    """Array of whole numbers: what is put into it loses its fraction in the real code, which is not encoded."""

    def __setitem__(self, key, value):
        if not is_int(value) and not all(core.whole(x) for x in _np.asarray(value, dtype=object).reshape(-1)):
            raise EngineError('fractions put into an array of whole numbers')
        super().__setitem__(key, value)

    def astype(self, dtype, *a, **k):
        return self.copy() if dtype is int else super().astype(dtype, *a, **k)

    def fill(self, v):
        self[...] = v


INTUF = {'add', 'subtract', 'multiply', 'negative', 'positive', 'absolute', 'maximum', 'minimum', 'square', 'sign'}


def is_int(x):
    """values of an integer type"""
    if isinstance(x, _np.ndarray):
        return isinstance(x, IArr) or x.dtype.kind in 'iu'
    return isinstance(x, (int, _np.integer)) and not isinstance(x, bool)


BOOLUF = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_not', 'logical_and', 'logical_or',
          'logical_xor'}


def is_float_dtype(d):
    if d is None:
        return False
    if d is SFloat:
        return True
    try:
        return _np.dtype(d).kind == 'f'
    except TypeError:
        return False


def lift(a):
    """float array -> object array of Sym."""
    a = _np.asarray(a)
    o = _np.empty(a.shape, dtype=object)
    f = o.ravel() if False else o.reshape(-1)
    for i, x in enumerate(a.reshape(-1).tolist()):
        f[i] = sym(x)
    return o


def wrap(r):
    if isinstance(r, _np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r.item()
            return r.view(SArr)
        if r.dtype.kind == 'f':
            return lift(r).view(SArr) if r.ndim else sym(r.item())
        return r
    if isinstance(r, (float, _np.floating)):
        return sym(float(r))
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def symbolic(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object or x.dtype.kind == 'f'
    if isinstance(x, (float, _np.floating)):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(symbolic(y, depth + 1) for y in x)
    return False


def array(obj, dtype=None, copy=None, ndmin=0, order=None, **k):
    if isinstance(obj, SArr):
        a = _np.array(obj, dtype=object)
        if isinstance(obj, IArr) and (dtype is None or dtype is int) and ndmin <= a.ndim:
            return a.view(IArr)
    elif isinstance(obj, _np.ndarray) and obj.dtype != object:
        a = obj
        if obj.dtype.kind == 'f' or is_float_dtype(dtype):
            a = lift(obj.astype(float))
        elif dtype is not None:
            a = _np.array(obj, dtype=dtype)
        else:
            a = _np.array(obj)
    else:
        if not isinstance(obj, _np.ndarray) and not isinstance(obj, (list, tuple, Sym, SymBool, int, float, _np.generic, str, bool)) \
                and hasattr(obj, '__iter__'):
            obj = list(obj)
        if symbolic(obj) or is_float_dtype(dtype):
            ints = False
            if isinstance(obj, (list, tuple)):
                ints = (dtype is None or dtype is int) and _ints(obj)
                obj = _unarr(obj)
            a = _np.array(obj, dtype=object)
            f = a.reshape(-1)
            for i, x in enumerate(f):
                y = x
                if isinstance(x, SymBool):
                    y = bool(x)
                elif not isinstance(x, (Sym, bool, str, _np.bool_)) and x is not None:
                    y = sym(x)
                    if y is NotImplemented:
                        y = x
                f[i] = y
            a = f.reshape(a.shape)
            if ints:
                return a.view(IArr)
            if all(isinstance(x, (bool, _np.bool_)) for x in f) and f.size:
                a = a.astype(bool)
            elif dtype is not None and not is_float_dtype(dtype) and dtype is not object:
                a = a.view(SArr).astype(dtype)
        else:
            a = _np.array(obj, dtype=_dt(dtype))
            if a.dtype.kind == 'f':
                a = lift(a)
    if ndmin and a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a.view(SArr) if a.dtype == object else a


def _ints(o):
    """sequences of integer arrays and of whole-number inputs"""
    if isinstance(o, (list, tuple)):
        return len(o) > 0 and all(_ints(x) for x in o)
    return is_int(o) or core.whole_input(o)


def _unarr(o):
    """nested sequences with arrays inside -> nested lists (object arrays must not stop at arrays)"""
    if isinstance(o, _np.ndarray):
        return o.tolist()
    if isinstance(o, (list, tuple)):
        return [_unarr(x) for x in o]
    return o


def _dt(d):
    return object if is_float_dtype(d) else d


def asarray(obj, dtype=None, **k):
    if isinstance(obj, IArr) and is_float_dtype(dtype):
        return array(obj, dtype)
    if isinstance(obj, SArr) and (dtype is None or is_float_dtype(dtype)):
        return obj
    if isinstance(obj, _np.ndarray) and obj.dtype.kind in 'biu' and dtype is None:
        return obj
    return array(obj, dtype=dtype)


def _filled(shape, v, dtype):
    if dtype is not None and not is_float_dtype(dtype) and dtype is not object:
        return _np.full(shape, v if not isinstance(v, Sym) else int(v), dtype=dtype)
    if isinstance(v, (bool, _np.bool_)) and dtype is None:
        return _np.full(shape, v)
    if isinstance(v, _np.ndarray) or isinstance(v, (list, tuple)):
        a = _np.empty(shape, dtype=object)
        a[...] = array(v)
        return a.view(SArr)
    if isinstance(v, int) and dtype is None and not isinstance(v, bool):
        return _np.full(shape, v)
    a = _np.empty(shape, dtype=object)
    a.reshape(-1)[:] = [sym(v)] * a.size
    return a.view(SArr)


def zeros(shape, dtype=float, order='C', **k):
    return _filled(shape, ZERO, dtype)


def ones(shape, dtype=float, order='C', **k):
    return _filled(shape, Sym.c(1), dtype)


def empty(shape, dtype=float, order='C', **k):
    return _filled(shape, ZERO if is_float_dtype(dtype) else 0, dtype)


def full(shape, fill_value, dtype=None, **k):
    return _filled(shape, fill_value, dtype)


def zeros_like(a, dtype=None, **k):
    a = asarray(a)
    if isinstance(a, IArr) and dtype is None:
        return _filled(a.shape, ZERO, float).view(IArr)
    return zeros(a.shape, dtype or (float if a.dtype == object else a.dtype))


def ones_like(a, dtype=None, **k):
    a = asarray(a)
    if isinstance(a, IArr) and dtype is None:
        return _filled(a.shape, Sym.c(1), float).view(IArr)
    return ones(a.shape, dtype or (float if a.dtype == object else a.dtype))


def empty_like(a, dtype=None, **k):
    return zeros_like(a, dtype)


def full_like(a, v, dtype=None, **k):
    a = asarray(a)
    if isinstance(a, IArr) and dtype is None:
        r = zeros_like(a)
        r[...] = v
        return r
    return full(a.shape, v, dtype or (float if a.dtype == object else a.dtype))


def eye(n, m=None, k=0, dtype=float, **kw):
    return array(_np.eye(n, m, k), dtype=dtype)


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = int(num)
    d = n - 1 if endpoint else n
    a, b = asarray(start), asarray(stop)
    sa = a if isinstance(a, SArr) else sym(start) if a.ndim == 0 else array(a, dtype=float)
    sb = b if isinstance(b, SArr) else sym(stop) if b.ndim == 0 else array(b, dtype=float)
    step = (sb - sa) / d if d else NAN
    out = [sa + step * i for i in range(n)] if d else [sa]
    if endpoint and n > 1:
        out[-1] = sb
    r = array(out)
    if r.dtype != object:
        r = lift(r).view(SArr)
    return (r, step) if retstep else r


def arange(*a, **k):
    if any(isinstance(x, (Sym, float)) for x in a):
        a = [sym(x) for x in a]
        if not all(x.is_const for x in a):
            raise EngineError('arange over symbols')
        lo, hi, st = (ZERO, a[0], Sym.c(1)) if len(a) == 1 else (a[0], a[1], Sym.c(1)) if len(a) == 2 else a
        out = []
        x = Fraction(lo.const())
        while x < hi.const():
            out.append(Sym.c(x))
            x += st.const()
        return array(out, dtype=float)
    return _np.arange(*a, **k)


def _o(x):
    """argument -> object ndarray of Sym"""
    a = _np.asarray(array(x, dtype=float) if not isinstance(x, SArr) else x)
    f = a.reshape(-1)
    for v in f:
        if type(v) is not Sym:
            b = _np.empty(a.shape, dtype=object)
            g = b.reshape(-1)
            for i, w in enumerate(f):
                g[i] = sym(w)
            return b
    return a


def dot(a, b, out=None):
    if not (symbolic(a) or symbolic(b)):
        return _np.dot(a, b)
    if isinstance(a, Sym) or isinstance(b, Sym) or _np.ndim(a) == 0 or _np.ndim(b) == 0:
        return wrap(sc(a) * sc(b)) if not (isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray)) else wrap(a * b)
    A, B = _o(a), _o(b)
    if A.ndim == 1 and B.ndim == 1:
        if A.shape != B.shape:
            raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
        s = ZERO
        for x, y in zip(A, B):
            s = s + x * y
        return s
    sb = B.shape[-2] if B.ndim > 1 else B.shape[0]
    if A.shape[-1] != sb:
        raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
    return wrap(_np.dot(A, B))


def sc(x):
    return sym(x)


def matmul(a, b):
    if not (symbolic(a) or symbolic(b)):
        return _np.matmul(a, b)
    A, B = _o(a), _o(b)
    if A.ndim <= 2 and B.ndim <= 2:
        return dot(A.view(SArr), B.view(SArr))
    return wrap(_np.matmul(A, B))


def multi_dot(arrs, **k):
    r = arrs[-1]
    for a in reversed(arrs[:-1]):
        r = dot(a, r)
    return r


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    A, B = _o(a), _o(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    A = _np.moveaxis(A, axisa, -1)
    B = _np.moveaxis(B, axisb, -1)
    if A.shape[-1] == 2 and B.shape[-1] == 2:
        return wrap(A[..., 0] * B[..., 1] - A[..., 1] * B[..., 0])
    if A.shape[-1] != 3 or B.shape[-1] != 3:
        raise ValueError('incompatible dimensions for cross product')
    A, B = _np.broadcast_arrays(A, B)
    r = _np.empty(A.shape, dtype=object)
    r[..., 0] = A[..., 1] * B[..., 2] - A[..., 2] * B[..., 1]
    r[..., 1] = A[..., 2] * B[..., 0] - A[..., 0] * B[..., 2]
    r[..., 2] = A[..., 0] * B[..., 1] - A[..., 1] * B[..., 0]
    return (r if r.ndim == 1 else _np.moveaxis(r, -1, axisc)).view(SArr)


def _norm1(v):
    v = [x for x in v if x.t]
    if not v:
        return ZERO
    if any(x.is_nan for x in v):
        return NAN
    if len(v) == 1:
        return abs(v[0])
    s = ZERO
    for x in v:
        s = s + x * x
    return core.sqrt(core.known_nonneg(s))


def norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None and ord not in (2, 'fro'):
        raise EngineError('norm order')
    A = _o(x)
    if axis is None:
        r = _norm1(list(A.reshape(-1)))
        return array([r]).reshape((1,) * A.ndim) if keepdims else r
    if isinstance(axis, tuple):
        if len(axis) != 1:
            raise EngineError('norm axis tuple')
        axis = axis[0]
    M = _np.moveaxis(A, axis, -1)
    out = _np.empty(M.shape[:-1], dtype=object)
    for idx in _np.ndindex(*M.shape[:-1]):
        out[idx] = _norm1(list(M[idx]))
    if keepdims:
        out = _np.expand_dims(out, axis)
    return wrap(out)


def solve(a, b):
    A, B = _o(a), _o(b)
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n or B.shape[0] != n:
        raise _np.linalg.LinAlgError('shape')
    if B.ndim == 2:
        cols = [solve(A.view(SArr), B[:, j].view(SArr)) for j in range(B.shape[1])]
        return array(_np.array([list(c) for c in cols], dtype=object).T)
    rows = [[A[i, j] for j in range(n)] for i in range(n)]
    rhs = list(B)
    if any(e.is_nan for r in rows for e in r) or any(e.is_nan for e in rhs):
        return array([NAN] * n)
    return array(solve_contract(rows, rhs))


def solve_contract(rows, rhs):
    """x with A x = b: fresh unknowns constrained by the rows (A is taken non-singular)."""
    path = core.PATH
    for s in path.systems:
        if len(s.b) == len(rhs) and all(x.t == y.t for x, y in zip(s.b, rhs)) and \
                all(x.t == y.t for r, q in zip(s.A, rows) for x, y in zip(r, q)):
            return s.x
    hint = getattr(path, 'solve_hint', None)
    if hint is not None:
        cand = hint(rows, rhs)
        if cand is not None:
            return cand
    k = len(path.systems)
    sysd = core.LinSys(rows, rhs)
    xs = []
    for i in range(len(rhs)):
        key = ('unk', k, i, hash(tuple(x.key() for x in rhs)), hash(tuple(x.key() for r in rows for x in r)))
        a = core._atom(key, 'unk', 'g%d_%d' % (k, i), (sysd, i))
        xs.append(Sym({((a.id, 1),): 1}))
    sysd = core.ATOMS[next(iter(xs[0].t))[0][0]].data[0]
    sysd.x = xs
    path.systems.append(sysd)
    for r, b in zip(rows, rhs):
        s = -b
        for c, x in zip(r, xs):
            s = s + c * x
        path.lemmas.append(s)
    path.assumed.append('linear system of size %d is non-singular' % len(rhs))
    return xs


def where(cond, *xy):
    c = _np.asarray(cond)
    if c.dtype == object:
        c = _np.array([bool(x) for x in c.reshape(-1)]).reshape(c.shape)
    if not xy:
        return _np.where(c)
    x, y = (_np.asarray(array(v, dtype=None)) if not isinstance(v, Sym) else _np.array(v, dtype=object) for v in xy)
    r = _np.where(c, x, y)
    return wrap(r)


def isnan(x):
    if isinstance(x, _np.ndarray):
        if x.dtype != object:
            return _np.isnan(x)
        return _np.array([sym(v).is_nan for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return isnan(array(x))
    return sym(x).is_nan


def isfinite(x):
    r = isnan(x)
    return ~r if isinstance(r, _np.ndarray) else not r


def isinf(x):
    r = isnan(x)
    return _np.zeros(r.shape, dtype=bool) if isinstance(r, _np.ndarray) else False


def nan_to_num(x, nan=0.0, **k):
    if isinstance(x, _np.ndarray):
        return array([sym(nan) if sym(v).is_nan else v for v in x.reshape(-1)]).reshape(x.shape)
    return sym(nan) if sym(x).is_nan else x


def _close(a, b, tol_abs, tol_rel):
    a, b = sym(a), sym(b)
    if a.is_nan or b.is_nan:
        return False
    d = a - b
    if not d.t:
        return True
    try:
        if not core.fp_nonzero(d) and (core.is_zero(d, 20000) or core.PATH.zero_by_lemmas(d)):
            return True
    except EngineError:
        pass
    bound = sym(tol_abs)
    if tol_rel:
        bound = bound + sym(tol_rel) * abs(b)
    return bool(-bound <= d) and bool(d <= bound)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    A, B = _np.broadcast_arrays(_np.asarray(array(a)), _np.asarray(array(b)))
    r = _np.array([(sym(x).is_nan and sym(y).is_nan and equal_nan) or _close(x, y, atol, rtol)
                   for x, y in zip(A.reshape(-1), B.reshape(-1))], dtype=bool).reshape(A.shape)
    return bool(r) if r.ndim == 0 else r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(_np.all(isclose(a, b, rtol, atol, equal_nan)))


def array_equal(a, b, equal_nan=False):
    A, B = _np.asarray(array(a)), _np.asarray(array(b))
    if A.shape != B.shape:
        return False
    if A.dtype != object and B.dtype != object:
        return bool(_np.array_equal(A, B))
    for x, y in zip(A.reshape(-1), B.reshape(-1)):
        if not (sym(x) == sym(y)):
            return False
    return True


def interp(x, xp, fp, left=None, right=None, period=None):
    xs = asarray(x)
    scalar = _np.ndim(x) == 0
    X = [sym(v) for v in (_np.asarray(xs).reshape(-1) if not scalar else [x])]
    XP = [sym(v) for v in _o(xp)]
    FP = [sym(v) for v in _o(fp)]
    if len(XP) != len(FP):
        raise ValueError('fp and xp are not of the same length.')
    out = []
    for v in X:
        if v < XP[0]:
            out.append(FP[0] if left is None else sym(left))
            continue
        if v > XP[-1]:
            out.append(FP[-1] if right is None else sym(right))
            continue
        res = FP[-1]
        for j in range(len(XP) - 1):
            if v < XP[j + 1]:
                res = FP[j] + (FP[j + 1] - FP[j]) * (v - XP[j]) / (XP[j + 1] - XP[j])
                break
        out.append(res)
    return out[0] if scalar else array(out).reshape(_np.asarray(xs).shape)


def average(a, axis=None, weights=None, **k):
    A = array(a, dtype=float)
    if weights is None:
        return A.mean(axis=axis)
    w = array(weights, dtype=float)
    if axis is not None and w.shape != A.shape:
        sh = [1] * A.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return (A * w).sum(axis=axis) / (w * ones_like(A)).sum(axis=axis)


def mean(a, axis=None, **k):
    return array(a, dtype=float).mean(axis=axis, **{q: v for q, v in k.items() if q == 'keepdims'})


def _unary(name):
    def f(x, *a, **k):
        if isinstance(x, _np.ndarray) or isinstance(x, (list, tuple)):
            A = _o(x)
            r = _np.empty(A.shape, dtype=object)
            rf = r.reshape(-1)
            for i, v in enumerate(A.reshape(-1)):
                rf[i] = getattr(sym(v), name)()
            return r.view(SArr)
        return getattr(sym(x), name)()
    f.__name__ = name
    return f


def _binary(fn):
    def f(x, y, *a, **k):
        if isinstance(x, (_np.ndarray, list, tuple)) or isinstance(y, (_np.ndarray, list, tuple)):
            A, B = _np.broadcast_arrays(_o(x), _o(y))
            r = _np.empty(A.shape, dtype=object)
            rf = r.reshape(-1)
            for i, (u, v) in enumerate(zip(A.reshape(-1), B.reshape(-1))):
                rf[i] = fn(sym(u), sym(v))
            return r.view(SArr)
        return fn(sym(x), sym(y))
    return f


def _max(a, b):
    return a if a >= b else b


def _min(a, b):
    return a if a <= b else b


def _sign(a):
    if a.is_nan:
        return NAN
    return Sym.c(1) if a > 0 else (Sym.c(-1) if a < 0 else ZERO)


def absolute(x):
    if isinstance(x, (_np.ndarray, list, tuple)):
        A = _o(x)
        r = _np.empty(A.shape, dtype=object)
        rf = r.reshape(-1)
        for i, v in enumerate(A.reshape(-1)):
            rf[i] = abs(sym(v))
        return r.view(SArr)
    return abs(sym(x))


def sign(x):
    if isinstance(x, (_np.ndarray, list, tuple)):
        A = _o(x)
        return array([_sign(v) for v in A.reshape(-1)]).reshape(A.shape)
    return _sign(sym(x))


def clip(x, lo, hi, **k):
    r = x
    if lo is not None:
        r = FUN['maximum'](r, lo)
    if hi is not None:
        r = FUN['minimum'](r, hi)
    return r


def _reduce_ext(pick):
    def f(a, axis=None, **k):
        A = _o(a) if symbolic(a) else _np.asarray(a)
        if A.dtype != object:
            return (_np.max if pick is _max else _np.min)(A, axis=axis)
        if axis is None:
            r = None
            for v in A.reshape(-1):
                r = sym(v) if r is None else pick(r, sym(v))
            return r
        M = _np.moveaxis(A, axis, 0)
        r = M[0]
        for q in M[1:]:
            r = _np.asarray(_binary(pick)(r.view(SArr) if r.ndim else r, q.view(SArr) if q.ndim else q))
        return wrap(r)
    return f


def argext(pick):
    def f(a, axis=None, **k):
        A = _o(a)
        if axis is not None and A.ndim > 1:
            raise EngineError('argmax axis')
        best, bi = None, 0
        for i, v in enumerate(A.reshape(-1)):
            if best is None or (v > best if pick is _max else v < best):
                best, bi = v, i
        return bi
    return f


def asum(a, axis=None, **k):
    if isinstance(a, types.GeneratorType):
        return sum(a)
    A = array(a)
    if A.dtype != object:
        return _np.sum(A, axis=axis, **k)
    if A.size == 0 and axis is None:
        return ZERO
    return wrap(_np.add.reduce(_np.asarray(A), axis=axis if axis is not None else tuple(range(A.ndim)),
                               keepdims=bool(k.get('keepdims', False))))


def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise EngineError('einsum spec')
    A = [_o(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        ins = spec.partition('->')[0].split(',')
        rank = {a.ndim - len(i.replace('...', '')) for i, a in zip(ins, A) if '...' in i}
        if len(rank) != 1:
            raise EngineError('einsum ellipsis')
        fill = ''.join(c for c in 'ZYXWVUTS' if c not in spec)[:rank.pop()]
        if '->' not in spec:
            names = spec.replace('...', '').replace(',', '')
            spec += '->...' + ''.join(sorted(c for c in set(names) if names.count(c) == 1))
        spec = spec.replace('...', fill)
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        rhs = ''.join(sorted(c for c in set(lhs) if c != ',' and lhs.count(c) == 1))
    dims = {}
    for s, a in zip(ins, A):
        for c, n in zip(s, a.shape):
            dims[c] = n
    summed = [c for c in dims if c not in rhs]
    out = _np.empty([dims[c] for c in rhs], dtype=object)
    for oi in _np.ndindex(*out.shape):
        ix = dict(zip(rhs, oi))
        s = ZERO
        for si in _np.ndindex(*[dims[c] for c in summed]):
            ix.update(zip(summed, si))
            v = Sym.c(1)
            for sp, a in zip(ins, A):
                v = v * a[tuple(ix[c] for c in sp)]
            s = s + v
        out[oi] = s
    return wrap(out)


def inner(a, b):
    if _np.ndim(a) <= 1 and _np.ndim(b) <= 1:
        return dot(a, b)
    return dot(a, _np.asarray(array(b)).T.view(SArr))


def vdot(a, b):
    return dot(array(a).reshape(-1), array(b).reshape(-1))


def outer(a, b):
    A, B = _o(a).reshape(-1), _o(b).reshape(-1)
    return wrap(A[:, None] * B[None, :])


def trapz(*a, **k):
    raise EngineError('trapz')


def gradient(*a, **k):
    raise EngineError('gradient')


def any_(a, axis=None, **k):
    A = _np.asarray(a)
    if A.dtype == object:
        A = _np.array([bool(x) for x in A.reshape(-1)], dtype=bool).reshape(A.shape)
    r = _np.any(A, axis=axis, **k)
    return r


def all_(a, axis=None, **k):
    A = _np.asarray(a)
    if A.dtype == object:
        A = _np.array([bool(x) for x in A.reshape(-1)], dtype=bool).reshape(A.shape)
    return _np.all(A, axis=axis, **k)


def det(a):
    A = _o(a)
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    s = ZERO
    for j in range(n):
        M = _np.delete(_np.delete(A, 0, 0), j, 1)
        s = s + (A[0, j] * det(M.view(SArr))) * (1 if j % 2 == 0 else -1)
    return s


def inv(a):
    A = _o(a)
    n = A.shape[0]
    if n > 4:
        raise EngineError('matrix inverse of size %d' % n)
    d = det(a)
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            M = _np.delete(_np.delete(A, i, 0), j, 1)
            c = det(M.view(SArr)) if n > 1 else Sym.c(1)
            out[j, i] = c * (1 if (i + j) % 2 == 0 else -1) / d
    return wrap(out)


# --- numpy.testing -----------------------------------------------------------
def assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    A, B = _np.asarray(array(actual)), _np.asarray(array(desired))
    A, B = _np.broadcast_arrays(A, B)
    tol = Fraction(3, 2) * Fraction(1, 10 ** decimal)
    for x, y in zip(A.reshape(-1), B.reshape(-1)):
        if isinstance(x, (bool, _np.bool_)) and isinstance(y, (bool, _np.bool_)):
            if bool(x) != bool(y):
                raise AssertionError('Arrays are not almost equal')
            continue
        x, y = sym(x), sym(y)
        if x.is_nan and y.is_nan:
            continue
        if x.is_nan or y.is_nan or not _close(x, y, tol, 0):
            raise AssertionError('Arrays are not almost equal to %d decimals %s' % (decimal, err_msg))


def assert_allclose(actual, desired, rtol=1e-7, atol=0, **k):
    if not allclose(actual, desired, rtol, atol, equal_nan=True):
        raise AssertionError('Not equal to tolerance')


def assert_array_equal(a, b, *r, **k):
    if not array_equal(a, b):
        raise AssertionError('Arrays are not equal')


def assert_equal(a, b, *r, **k):
    if isinstance(a, (str, int, bool)) and isinstance(b, (str, int, bool)):
        if a != b:
            raise AssertionError('Items are not equal')
        return
    assert_array_equal(a, b)


class _Mod(types.ModuleType):
    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__version__',):
            raise AttributeError(n)
        v = getattr(self._real, n)
        if isinstance(v, float) and n in ('pi',):
            return PI
        if isinstance(v, types.FunctionType) or isinstance(v, _np.ufunc) or \
                type(v).__name__ in ('_ArrayFunctionDispatcher', 'builtin_function_or_method'):
            return passthrough(v)
        return v


def passthrough(f):
    if isinstance(f, _np.ufunc):
        return UFunc(f)

    def g(*a, **k):
        a = [array(x) if isinstance(x, (list, tuple)) and symbolic(x) and not any(isinstance(y, _np.ndarray) for y in x) else
             (lift(x).view(SArr) if isinstance(x, _np.ndarray) and x.dtype.kind == 'f' else x) for x in a]
        if 'dtype' in k and is_float_dtype(k['dtype']):
            k['dtype'] = object
        a = [_np.asarray(x) if isinstance(x, SArr) else
             (type(x)(_np.asarray(y) if isinstance(y, SArr) else y for y in x)
              if isinstance(x, (list, tuple)) and any(isinstance(y, SArr) for y in x) else x) for x in a]
        return wrap(f(*a, **k))
    g.__name__ = getattr(f, '__name__', 'f')
    return g


class UFunc:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        if self.__name__ in UF_OVERRIDE and 'out' not in k:
            return UF_OVERRIDE[self.__name__](*a)
        a = [array(x) if isinstance(x, (list, tuple)) else x for x in a]
        a = [lift(x).view(SArr) if isinstance(x, _np.ndarray) and x.dtype.kind == 'f' else x for x in a]
        if not any(isinstance(x, SArr) for x in a):
            a = [_np.array(x, dtype=object) if isinstance(x, Sym) else x for x in a]
        return wrap(self.f(*a, **k))

    def reduce(self, a, axis=0, **k):
        return wrap(self.f.reduce(_o(a) if symbolic(a) else _np.asarray(a), axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        return wrap(self.f.accumulate(_o(a), axis=axis, **k))

    def outer(self, a, b, **k):
        return wrap(self.f.outer(_o(a), _o(b), **k))

    def at(self, a, i, b=None):
        return self.f.at(a, i, b)


FUN = {}
for _n_ in ('sqrt', 'sin', 'cos', 'tan', 'log', 'exp', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'arcsin', 'arccos',
            'arctan', 'square', 'reciprocal'):
    FUN[_n_] = _unary(_n_)
FUN['arctan2'] = _binary(lambda a, b: core.atan2(a, b))
FUN['hypot'] = _binary(lambda a, b: a.hypot(b))
FUN['maximum'] = _binary(_max)
FUN['minimum'] = _binary(_min)
FUN['fmax'], FUN['fmin'] = FUN['maximum'], FUN['minimum']
FUN['power'] = _binary(lambda a, b: a ** b)
FUN['float_power'] = FUN['power']
FUN['copysign'] = _binary(lambda a, b: abs(a) if b >= 0 else -abs(a))
UF_OVERRIDE = dict(FUN)
UF_OVERRIDE.update(absolute=absolute, fabs=absolute, sign=sign, isnan=isnan, isfinite=isfinite, isinf=isinf)
UF_OVERRIDE['negative'] = lambda a: -a if isinstance(a, Sym) else wrap(_np.negative(_o(a)))


def log10(x):
    return FUN['log'](x) / core.log(Sym.c(10))


def log2(x):
    return FUN['log'](x) / core.log(Sym.c(2))


class SFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, Sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SFloat(metaclass=SFloatMeta):
    """float in symbolically executed code: the identity on symbols."""

    def __new__(cls, x=0.0):
        if isinstance(x, (Sym,)):
            return x
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return x.reshape(-1)[0]
        if isinstance(x, str):
            return sym(builtins.float(x)) if x.strip().lower() not in ('inf', '-inf', 'infinity') else builtins.float(x)
        if isinstance(x, SymBool):
            return sym(bool(x))
        return sym(builtins.float(x))


def sround(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


linalg = _Mod('numpy.linalg', _np.linalg, norm=norm, solve=solve, multi_dot=multi_dot, det=det, inv=inv, matmul=matmul,
              cross=cross)
testing = _Mod('numpy.testing', _np.testing, assert_almost_equal=assert_almost_equal, assert_allclose=assert_allclose,
               assert_array_almost_equal=lambda a, b, decimal=6, **k: assert_almost_equal(a, b, decimal),
               assert_array_equal=assert_array_equal, assert_equal=assert_equal)


def copy_(a, **k):
    if isinstance(a, SArr):
        return _np.array(a, dtype=object).view(SArr)
    return array(a)


def diagonal(a, *r, **k):
    return wrap(_np.diagonal(_np.asarray(a), *r, **k)).copy()


_over = dict(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfarray=asarray, zeros=zeros, ones=ones,
             empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like,
             eye=eye, identity=identity, linspace=linspace, arange=arange, dot=dot, matmul=matmul, cross=cross,
             where=where, isnan=isnan, isfinite=isfinite, isinf=isinf, nan_to_num=nan_to_num, isclose=isclose,
             allclose=allclose, array_equal=array_equal, interp=interp, average=average, mean=mean,
             absolute=absolute, abs=absolute, fabs=absolute, sign=sign, clip=clip, max=_reduce_ext(_max), amax=_reduce_ext(_max),
             min=_reduce_ext(_min), amin=_reduce_ext(_min), argmax=argext(_max), argmin=argext(_min), sum=asum, einsum=einsum, fromiter=lambda it, dtype=None, count=-1, **k: array(list(it)[:count if count >= 0 else None], dtype=dtype),
             inner=inner, vdot=vdot, outer=outer, trapz=trapz, gradient=gradient, any=any_, all=all_, linalg=linalg,
             testing=testing, pi=PI, copy=copy_, log10=log10, log2=log2, float64=SFloat, float32=SFloat, double=SFloat,
             float_=SFloat, nan=NAN, ndarray=_np.ndarray, diagonal=diagonal)
_over.update(FUN)
numpy = _Mod('numpy', _np, **_over)


# --------------------------------------------------------------------------
# math
# --------------------------------------------------------------------------
def _mfun(name):
    def f(x):
        if isinstance(x, _np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        return getattr(sym(x), name)()
    return f


def _msqrt(x):
    x = sym(x)
    if x < 0:
        raise ValueError('math domain error')
    return core.sqrt(x)


def _mhypot(*xs):
    return _norm1([sym(x) for x in xs])


def _misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    return _close(a, b, abs_tol, rel_tol)


def _fsum(it):
    s = ZERO
    for x in it:
        s = s + x
    return s


def _dist(p, q):
    return _norm1([sym(a) - sym(b) for a, b in zip(p, q)])


math = _Mod('math', _math, sqrt=_msqrt, sin=_mfun('sin'), cos=_mfun('cos'), tan=_mfun('tan'), atan=_mfun('arctan'),
            asin=_mfun('arcsin'), acos=_mfun('arccos'), atan2=lambda y, x: core.atan2(sym(y), sym(x)), radians=_mfun('deg2rad'),
            degrees=_mfun('rad2deg'), hypot=_mhypot, log=lambda x, b=None: core.log(sym(x)) if b is None else core.log(sym(x)) / core.log(sym(b)),
            exp=_mfun('exp'), pow=lambda a, b: sym(a) ** b, fabs=lambda x: abs(sym(x)), isnan=lambda x: sym(x).is_nan,
            isfinite=lambda x: not sym(x).is_nan, isinf=lambda x: False, isclose=_misclose, pi=PI, fsum=_fsum, dist=_dist,
            copysign=lambda a, b: abs(sym(a)) if sym(b) >= 0 else -abs(sym(a)), tau=PI * 2, nan=NAN,
            prod=lambda xs, start=1: _prod(xs, start), sumprod=lambda a, b: _fsum(sym(x) * y for x, y in zip(a, b)))


def _prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


# --------------------------------------------------------------------------
# numba: everything runs interpreted
# --------------------------------------------------------------------------
class _Dummy:
    def __call__(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self


def _jit(*a, **k):
    if len(a) == 1 and isinstance(a[0], types.FunctionType) and not k:
        return a[0]
    return lambda f: f


class _Numba(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('jit', 'njit', 'vectorize', 'guvectorize', 'generated_jit'):
            return _jit
        if n == 'prange':
            return range
        return _Dummy()


numba = _Numba('numba')
numba.typed = types.ModuleType('numba.typed')
numba.typed.List = list
numba.typed.Dict = dict


# --------------------------------------------------------------------------
# scipy
# --------------------------------------------------------------------------
class Rotation:
    def __init__(self, ms, single):
        self.ms, self.single = ms, single

    @classmethod
    def from_rotvec(cls, rv, degrees=False):
        A = _o(rv)
        if A.ndim == 2:
            return cls([_rodrigues([sym(x) for x in r], degrees) for r in A], False)
        return cls([_rodrigues([sym(x) for x in A], degrees)], True)

    @classmethod
    def from_matrix(cls, m):
        A = _o(m)
        return cls([A] if A.ndim == 2 else list(A), A.ndim == 2)

    @classmethod
    def from_quat(cls, q, **k):
        x, y, z, w = [sym(v) for v in _o(q)]
        n = x * x + y * y + z * z + w * w
        M = [[1 - 2 * (y * y + z * z) / n, 2 * (x * y - z * w) / n, 2 * (x * z + y * w) / n],
             [2 * (x * y + z * w) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - x * w) / n],
             [2 * (x * z - y * w) / n, 2 * (y * z + x * w) / n, 1 - 2 * (x * x + y * y) / n]]
        return cls([_np.array(M, dtype=object)], True)

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        an = [sym(x) for x in (_o(angles).reshape(-1) if _np.ndim(angles) else [angles])]
        if degrees:
            an = [a.deg2rad() for a in an]
        M = _np.array([[Sym.c(int(i == j)) for j in range(3)] for i in range(3)], dtype=object)
        for ch, a in zip(seq, an):
            ax = {'x': 0, 'y': 1, 'z': 2}[ch.lower()]
            s, c = core.sincos(a)
            i, j = [(1, 2), (2, 0), (0, 1)][ax]
            Rm = _np.array([[Sym.c(int(p == q)) for q in range(3)] for p in range(3)], dtype=object)
            Rm[i, i], Rm[j, j], Rm[i, j], Rm[j, i] = c, c, -s, s
            M = _np.dot(Rm, M) if ch.islower() else _np.dot(M, Rm)
        return cls([M], True)

    def as_matrix(self):
        return array(self.ms[0]) if self.single else array([m.tolist() for m in self.ms])

    def apply(self, v, inverse=False):
        V = _o(v)
        ms = [m.T if inverse else m for m in self.ms]
        if V.ndim == 1:
            r = [_np.dot(m, V) for m in ms]
            return array(r[0].tolist()) if self.single else array([x.tolist() for x in r])
        if self.single:
            return array([_np.dot(ms[0], x).tolist() for x in V])
        return array([_np.dot(m, x).tolist() for m, x in zip(ms, V)])

    def inv(self):
        return Rotation([m.T for m in self.ms], self.single)

    def __mul__(self, o):
        return Rotation([_np.dot(a, b) for a, b in zip(self.ms, o.ms)], self.single)


def _is_angle_atom(a):
    return a.kind in ('pi',) or (a.kind == 'var' and a.name.startswith(('ang_', 'deg_'))) or \
        (a.kind == 'uf' and a.data[0] in ('asin', 'acos', 'atan', 'atan2'))


def _rodrigues(v, degrees):
    """Rotation matrix of a rotation vector angle*axis (axis unit), the angle being recognised syntactically."""
    if degrees:
        v = [x.deg2rad() for x in v]
    nz = [x for x in v if x.t]
    I = [[Sym.c(int(i == j)) for j in range(3)] for i in range(3)]
    if not nz:
        return _np.array(I, dtype=object)
    # split every component by its monomial of angle atoms; the parts must be multiples of one direction
    parts = {}
    for i, x in enumerate(v):
        for m, cf in x.t.items():
            am = tuple((a, e) for a, e in m if _is_angle_atom(core.ATOMS[a]))
            rm = tuple((a, e) for a, e in m if not _is_angle_atom(core.ATOMS[a]))
            parts.setdefault(am, [{}, {}, {}])[i][rm] = cf
    monos = sorted(parts)
    w = [Sym(t) for t in parts[monos[0]]]
    angle = ZERO
    for am in monos:
        ratio = None
        for t0, t1 in zip(parts[monos[0]], parts[am]):
            if set(t0) != set(t1):
                raise EngineError('rotation vector with several angles')
            for m in t0:
                r = Fraction(t1[m]) / Fraction(t0[m])
                if ratio is None:
                    ratio = r
                elif ratio != r:
                    raise EngineError('rotation vector with several angles')
        angle = angle + Sym({am: 1}) * ratio
    n2 = ZERO
    for x in w:
        n2 = n2 + x * x
    n2 = core.simp(n2)
    if not n2.is_const and not core.fp_nonzero(n2 - Sym.c(1)) and core.is_zero(n2 - 1):
        n2 = Sym.c(1)
    n = core.sqrt(n2)
    u = [x / n for x in w]
    th = angle * n
    if len([x for x in u if x.t]) == 1:
        # keep the sign in the angle
        k = [i for i, x in enumerate(u) if x.t][0]
        if u[k].is_const and u[k].const() == -1:
            u[k] = Sym.c(1)
            th = -th
    s, c = core.sincos(th)
    K = [[ZERO, -u[2], u[1]], [u[2], ZERO, -u[0]], [-u[1], u[0], ZERO]]
    M = _np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            M[i, j] = I[i][j] * c + s * K[i][j] + (1 - c) * u[i] * u[j]
    return M


class _Interp:
    """scipy.interpolate: cubic splines as the linear operator of the data values they are."""

    @staticmethod
    def splrep(x, y, s=None, k=3, **kw):
        return ('spl', [sym(v) for v in _o(x)], [sym(v) for v in _o(y)], k, s)

    @staticmethod
    def splev(xn, tck, der=0, ext=0):
        from scipy import interpolate as I
        _, x, y, k, s = tck
        if not all(v.is_const for v in x):
            raise EngineError('spline over symbolic abscissae')
        if s not in (0, ZERO) and not (isinstance(s, Sym) and not s.t):
            if s is not None:
                raise EngineError('smoothing spline')
        scalar = _np.ndim(xn) == 0
        xs = [sym(v) for v in (_o(xn).reshape(-1) if not scalar else [xn])]
        if not all(v.is_const for v in xs):
            raise EngineError('spline at symbolic points')
        fx = _np.array([float(v.const()) for v in x])
        fn = _np.array([float(v.const()) for v in xs])
        rows = []
        for i in range(len(x)):
            e = _np.zeros(len(x))
            e[i] = 1.0
            rows.append(I.splev(fn, I.splrep(fx, e, s=0, k=int(k)), der=der, ext=ext))
        out = []
        for q in range(len(xs)):
            v = ZERO
            for i in range(len(x)):
                w = float(rows[i][q])
                if abs(w) < 1e-14:
                    continue
                if abs(w - 1) < 1e-14:
                    w = 1.0
                v = v + Sym.c(Fraction(w).limit_denominator(10 ** 15)) * y[i]
            out.append(v)
        return out[0] if scalar else array(out).reshape(_np.shape(xn))


def make_scipy():
    import scipy as _sp
    import scipy.interpolate
    import scipy.spatial.transform
    tr = types.ModuleType('scipy.spatial.transform')
    tr.Rotation = Rotation
    sp = types.ModuleType('scipy.spatial')
    sp.transform = tr
    ip = types.ModuleType('scipy.interpolate')
    ip.splrep, ip.splev = _Interp.splrep, _Interp.splev
    la = types.ModuleType('scipy.linalg')
    la.solve = lambda a, b, **k: solve(a, b)
    la.norm = norm
    la.inv = inv
    s = types.ModuleType('scipy')
    s.spatial, s.interpolate, s.linalg = sp, ip, la
    return {'scipy': s, 'scipy.spatial': sp, 'scipy.spatial.transform': tr, 'scipy.interpolate': ip, 'scipy.linalg': la}
