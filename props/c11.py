"""C11 panel areas."""
from symv.harness import scenario
from .c03 import turn

P = 'C11'


def area(S, *q):
    return S.mod('solver.panels').get_panels_area(S.arr([list(x) for x in q]))


def trapezoid(S):
    """fore-aft sides parallel to d (lengths u, v), fore corners a and b"""
    a, b, d = S.vec('a'), S.vec('b'), S.vec('d')
    u, v = S.pos('u', 3), S.pos('v', 3)
    return [a + u * d, a, b, b + v * d], (u + v) * S.norm(S.cross(d, b - a)) / 2


@scenario(P)
def parallel_sides(S):
    q, ref = trapezoid(S)
    S.eq('area', area(S, q)[0], ref)


@scenario(P)
def parallelogram(S):
    a, d, e = S.vec('a'), S.vec('d'), S.vec('e')
    S.eq('area', area(S, [a + d, a, a + e, a + d + e])[0], S.norm(S.cross(d, e)))


@scenario(P)
def flat_quadrilateral(S):
    """convex quadrilateral in the plane y = 0: corners aft-low, fore-low, fore-high, aft-high"""
    x = [S.real('x%d' % i, lo, hi) for i, (lo, hi) in enumerate(((1, 2), (-1, 0), (-1, 0), (1, 2)))]
    z = [S.real('z%d' % i, lo, hi) for i, (lo, hi) in enumerate(((-1, 0), (-1, 0), (1, 2), (1, 2)))]
    pts = [[x[i], 0, z[i]] for i in range(4)]
    shoelace = sum((x[i] * z[(i + 1) % 4] - x[(i + 1) % 4] * z[i] for i in range(4)), 0) / 2
    S.eq('area', area(S, pts)[0] ** 2, shoelace ** 2)


@scenario(P)
def several_panels(S):
    q, ref = trapezoid(S)
    a, d, e = S.vec('c'), S.vec('f'), S.vec('g')
    r = [a + d, a, a + e, a + d + e]
    got = area(S, q, r, q)
    S.same('one per panel', len(got), 3)
    S.eq('first', got[0], ref)
    S.eq('second', got[1], S.norm(S.cross(d, e)))
    S.eq('third', got[2], ref)


@scenario(P)
def moved_and_scaled(S):
    """any panel, warped ones included"""
    q = [S.vec(n) for n in 'abcd']
    t, k = S.vec('t'), S.pos('k', 4)
    a = area(S, q)[0]
    S.le('non-negative', 0, a)
    S.eq('moved', area(S, [x + t for x in q])[0], a)
    S.eq('scaled', area(S, [k * x for x in q])[0], k * k * a)
    for ax in range(3):
        f = S.arr([-1 if i == ax else 1 for i in range(3)])
        S.eq('mirrored', area(S, [f * x for x in q])[0], a)
    S.eq('axes relabelled', area(S, [S.arr([x[1], x[2], x[0]]) for x in q])[0], a)


@scenario(P, [{'ax': 0}, {'ax': 1}, {'ax': 2}])
def turned(S, ax):
    q = [S.vec(n) for n in 'abcd']
    th = S.ang('t')
    co, si = S.np.cos(th), S.np.sin(th)
    S.eq('turned', area(S, [turn(S, ax, x, co, si) for x in q])[0], area(S, q)[0])
