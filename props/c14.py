"""C14 airfoil surfaces and admissible parameters."""
from symv.harness import scenario
from .c13 import foil

P = 'C14'
A = ('0.2969', '-0.126', '-0.3516', '0.2843', '-0.1015')


@scenario(P, [{'n': n} for n in (2, 3, 4, 5, 9, 12)], thorough=[{'n': n} for n in (7, 15, 21, 33)])
def surfaces(S, n):
    m, p, t = S.real('m', 0, 0.3), S.real('p', 0, 0.9), S.real('t', 0, 0.4)
    f = foil(S, m, p, t, n)
    S.same('one point per station', [len(v) for v in (f.xu, f.yu, f.xl, f.yl, f.yt)], [n] * 5)
    for i in range(n):
        x = S.num(i) / (n - 1)
        half = [f.xu[i] - f.xc[i], f.yu[i] - f.yc[i]]
        S.eq('mean is the camber line', [f.xu[i] + f.xl[i], f.yu[i] + f.yl[i]], [2 * x, 2 * f.yc[i]])
        slope = 2 * m * (p - x) / (p * p) if x < p else 2 * m * (p - x) / ((1 - p) * (1 - p))
        S.eq('along the camber normal', half[0] + half[1] * slope, 0)
        S.eq('thickness', half[0] * half[0] + half[1] * half[1], f.yt[i] ** 2)
        S.le('upper above lower', f.yl[i], f.yu[i])


@scenario(P, [{'n': n} for n in (2, 3, 4, 5, 10, 21, 50, 100, 150)], thorough=[{'n': n} for n in (201, 500, 1000, 10002)])
def thickness(S, n):
    t = S.real('t', 0, 0.4)
    f = foil(S, S.num(0), S.num('0.5'), t, n)
    for i in list(range(n)) if n < 200 else [0, 1, n // 3, n - 3, n - 1]:
        x = S.num(i) / (n - 1)
        a = [S.num(c) for c in A]
        if i == n - 1:
            S.eq('closed at the trailing edge', f.yt[i], 0)
        elif n - 1 - i > (n - 1) / 10000:
            S.eq('half thickness', f.yt[i], 5 * t * (a[0] * S.np.sqrt(x) + a[1] * x + a[2] * x ** 2 + a[3] * x ** 3 + a[4] * x ** 4))
            S.eq('symmetric profile', [f.xu[i], f.yu[i], f.xl[i], f.yl[i]], [x, f.yt[i], x, -f.yt[i]])


@scenario(P, [{'n': n} for n in (2, 3, 6, 14)])
def zero_thickness(S, n):
    f = foil(S, S.real('m', 0, 0.3), S.real('p', 0, 0.9), S.num(0), n)
    S.eq('upper', [list(f.xu), list(f.yu)], [list(f.xc), list(f.yc)])
    S.eq('lower', [list(f.xl), list(f.yl)], [list(f.xc), list(f.yc)])


@scenario(P, [dict(which=w, side=s) for w in 'mpt' for s in ('low', 'high')])
def refused(S, which, side):
    hi = {'m': 0.3, 'p': 0.9, 't': 0.4}
    v = {k: S.real(k, 0, h) for k, h in hi.items()}
    v[which] = S.real('bad', -5, -1e-6) if side == 'low' else S.real('bad', hi[which] + 1e-6, 5)
    f, e = S.call(S.mod('thin_airfoil.vlm_airfoil').VlmAirfoil, v['m'], v['p'], v['t'], 3)
    S.true('refused', e is not None)


@scenario(P, [dict(m=m, p=p, t=t) for m in ('0', '0.3') for p in ('0', '0.9') for t in ('0', '0.4')])
def limits_are_accepted(S, m, p, t):
    f, e = S.call(S.mod('thin_airfoil.vlm_airfoil').VlmAirfoil, S.num(m), S.num(p), S.num(t), 3)
    if e is not None:
        return S.fail('accepted', repr(e))
    S.finite('finite', f.yu)
