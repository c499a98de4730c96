"""C12 segments, point grids, wing panels."""
from symv.harness import scenario

P = 'C12'


@scenario(P, [{'n': n} for n in list(range(1, 13)) + [20, 33, 50]], thorough=[{'n': n} for n in (64, 100)])
def segment(S, n):
    a, b = S.vec('a'), S.vec('b')
    s = S.mod('solver.mesher').discrete_segment(a, b, n)
    S.same('number of points', len(s), n + 1)
    for i in range(n + 1):
        S.eq('evenly spaced', s[i] * n, a * (n - i) + b * i)
    S.eq('starts exactly at its first end', s[0], a)
    S.eq('ends exactly at its second end', s[n], b)


@scenario(P, [dict(m=m, n=n) for m, n in ((1, 1), (2, 3), (3, 2), (1, 12), (12, 1), (5, 5), (7, 9))], thorough=[dict(m=20, n=20)])
def grid(S, m, n):
    a, b = S.mat('a', m), S.mat('b', m)
    g = S.mod('solver.mesher').make_point_mesh(a, b, n)
    S.same('rows', len(g), m)
    for i in range(m):
        S.same('points', len(g[i]), n + 1)
        for j in range(n + 1):
            S.eq('evenly spaced', g[i][j] * n, a[i] * (n - j) + b[i] * j)


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=1), dict(nc=1, ns=3), dict(nc=3, ns=2)] +
          [dict(nc=c, ns=s) for c, s in ((4, 4), (5, 1), (1, 6), (2, 7), (7, 2), (9, 3), (3, 10), (12, 1), (1, 13), (8, 8))], thorough=[dict(nc=12, ns=20), dict(nc=20, ns=9)])
def wing_panels(S, nc, ns):
    sw, se, nw, ne = [S.vec(n) for n in 'abcd']
    panels, te, le = S.mod('solver.panels').make_panels_from_le_te_points([sw, se, nw, ne], [nc, ns])

    def point(i, j):
        u, v = S.num(i) / nc, S.num(j) / ns
        return (1 - u) * (1 - v) * sw + u * (1 - v) * se + (1 - u) * v * nw + u * v * ne
    S.same('number of panels', len(panels), nc * ns)
    for i in range(nc):
        for j in range(ns):
            S.eq('corners', panels[i * ns + j], [point(i + 1, j), point(i, j), point(i, j + 1), point(i + 1, j + 1)])
