"""C13 NACA four-digit camber line."""
from symv.harness import scenario

P = 'C13'


def foil(S, m, p, t, n):
    f, e = S.call(S.mod('thin_airfoil.vlm_airfoil').VlmAirfoil, m, p, t, n)
    if e is not None:
        S.fail('accepted', 'admissible parameters are refused: %r' % (e,))
        S.assume(False)
    return f


def stations(S, f, n):
    S.same('stations', [len(f.xc), len(f.yc)], [n, n])
    for i in range(n):
        S.eq('evenly spaced', f.xc[i] * (n - 1), i)


@scenario(P, [{'n': n} for n in (2, 3, 4, 5, 8, 11, 20)], thorough=[{'n': n} for n in (6, 7, 9, 10, 13, 21, 33, 51)])
def parabolas(S, n):
    """any camber and position: the two parabolas, none above the maximum camber"""
    m, p = S.real('m', 0, 0.3), S.real('p', 0, 0.9)
    f = foil(S, m, p, S.num(0), n)
    stations(S, f, n)
    for i in range(n):
        x = S.num(i) / (n - 1)
        y = f.yc[i]
        if x < p:
            S.eq('before the position', y * p * p, m * (2 * p * x - x * x))
        else:
            S.eq('behind the position', y * (1 - p) * (1 - p), m * (1 - 2 * p + 2 * p * x - x * x))
        S.le('not above the maximum', y, m)
        S.le('not below zero', 0, y)
    S.eq('trailing edge', f.yc[n - 1], 0)
    if p > 0:
        S.eq('leading edge', f.yc[0], 0)


@scenario(P, [dict(n=n, k=k) for n, k in ((3, 1), (5, 1), (5, 2), (11, 9))],
          thorough=[dict(n=11, k=k) for k in range(1, 10)] + [dict(n=41, k=13)])
def maximum_at_the_position(S, n, k):
    """a station lies at the camber position"""
    m, t = S.real('m', 0, 0.3), S.real('t', 0, 0.4)
    f = foil(S, m, S.num(k) / (n - 1), t, n)
    S.eq('reached', f.yc[k], m)
    S.eq('zero slope', f.xu[k], f.xc[k])
    S.eq('zero slope', f.xl[k], f.xc[k])


@scenario(P, [{'n': 2}, {'n': 4}, {'n': 9}, {'n': 40}])
def zero_position(S, n):
    m = S.real('m', 0, 0.3)
    f = foil(S, m, S.num(0), S.num(0), n)
    for i in range(n):
        x = S.num(i) / (n - 1)
        S.eq('single parabola', f.yc[i], m * (1 - x * x))


@scenario(P, [{'n': 2}, {'n': 6}, {'n': 17}])
def linear_in_camber(S, n):
    m, p, k = S.real('m', 0, 0.3), S.real('p', 0, 0.9), S.real('k', 0, 1)
    a, b = foil(S, m, p, S.num(0), n), foil(S, k * m, p, S.num(0), n)
    S.eq('proportional', b.yc, a.yc * k)


@scenario(P)
def default_stations(S):
    f = foil(S, S.num('0.02'), S.num('0.4'), S.num('0.12'), 100)
    g = S.mod('thin_airfoil.vlm_airfoil').VlmAirfoil(S.num('0.02'), S.num('0.4'), S.num('0.12'))
    S.eq('default n', g.yc, f.yc)
