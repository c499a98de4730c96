"""C28 section coefficients."""
import types

from symv.harness import scenario

P = 'C28'


def blocks(S, k, nc, ns, tag=''):
    """k sails and their images: areas, loads, apparent winds and load points of all panels"""
    n = 2 * k * nc * ns
    v = lambda q, lo=-10, hi=10: [[S.real('%s%s%d%s' % (tag, q, i, a), lo, hi) for a in 'xyz'] for i in range(n)]
    areas = [S.pos('%sA%d' % (tag, i)) for i in range(n)]
    wind = v('w')
    for p in wind:
        S.assume(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] > S.num('0.01'))
    return areas, wind, v


def section(S, areas, load, wind, rho, idx):
    """area-weighted mean over the panels idx of |load| / (q A)"""
    A = sum(areas[i] for i in idx)
    c = [S.norm(load[i]) / (rho * S.norm2(wind[i]) / 2 * areas[i]) for i in idx]
    return sum(c[j] * areas[i] for j, i in enumerate(idx)) / A


def strip(q, j, nc, ns):
    return [q * nc * ns + r * ns + j for r in range(nc)]


SHAPES = [dict(k=k, nc=nc, ns=ns) for k, nc, ns in ((1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (2, 1, 1), (2, 2, 1), (2, 1, 2), (1, 3, 2), (1, 2, 3), (2, 2, 2), (3, 1, 2), (3, 2, 1), (1, 4, 1), (1, 1, 5), (1, 4, 3), (2, 3, 4), (4, 2, 2), (1, 7, 7), (2, 1, 12))]
BIG = [dict(k=2, nc=3, ns=3), dict(k=1, nc=9, ns=8), dict(k=3, nc=5, ns=6)]


@scenario(P, SHAPES, thorough=BIG)
def strips(S, k, nc, ns):
    areas, wind, v = blocks(S, k, nc, ns)
    load = v('f')
    rho = S.pos('rho')
    n = len(areas)
    panels = S.np.zeros((n, 4, 3))
    c = S.mod('solver.coefs').get_C(panels, S.arr(areas), S.arr(load), S.arr(wind), ns, nc, rho)
    S.same('shape', tuple(c.shape), (k, ns))
    L, W = S.arr(load), S.arr(wind)
    for q in range(k):
        for j in range(ns):
            S.eq('strip', c[q][j], section(S, areas, L, W, rho, strip(q, j, nc, ns)))


@scenario(P, SHAPES, thorough=BIG[:2])
def shown_distribution(S, k, nc, ns):
    areas, wind, v = blocks(S, k, nc, ns)
    lift, drag, cp = v('l'), v('d'), v('p')
    rho = S.pos('rho')
    n = len(areas)
    for x in lift + drag:
        S.assume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] > S.num('0.01'))
    L, D, W, C = S.arr(lift), S.arr(drag), S.arr(wind), S.arr(cp)
    m = types.SimpleNamespace(panels=S.np.zeros((n, 4, 3)), areas=S.arr(areas), lift=L, drag=D, cp=C, n_spanwise=ns, n_chordwise=nc, rho=rho,
                              inlet_conditions=types.SimpleNamespace(V_app_infs=W))
    sol = types.SimpleNamespace(n_spanwise=ns, n_chordwise=nc)
    z, y1, y2 = S.mod('solver.coefs').get_data_for_coeff_plot(m, sol)
    S.same('sails', (len(z), len(y1), len(y2)), (k, k, k))
    for q in range(k):
        S.same('strips', (len(z[q]), len(y1[q]), len(y2[q])), (ns, ns, ns))
        As = [sum(areas[i] for i in strip(q, j, nc, ns)) for j in range(ns)]
        for j in range(ns):
            S.eq('height', z[q][j], sum(cp[i][2] for i in strip(q, j, nc, ns)) / nc)
        for nm, F, got in (('lift', L, y1), ('drag', D, y2)):
            c = [section(S, areas, F, W, rho, strip(q, j, nc, ns)) for j in range(ns)]
            mean = sum(a * b for a, b in zip(As, c)) / sum(As)
            for j in range(ns):
                S.eq(nm, got[q][j], c[j] / mean)


@scenario(P, [dict(k=1, nc=2, ns=2), dict(k=2, nc=1, ns=1), dict(k=1, nc=3, ns=2), dict(k=3, nc=2, ns=2)])
def weighted_mean_is_one(S, k, nc, ns):
    """the values shown for one sail have area-weighted mean one"""
    areas, wind, v = blocks(S, k, nc, ns)
    lift, cp = v('l'), v('p')
    for x in lift:
        S.assume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] > S.num('0.01'))
    L, W, n = S.arr(lift), S.arr(wind), len(areas)
    m = types.SimpleNamespace(panels=S.np.zeros((n, 4, 3)), areas=S.arr(areas), lift=L, drag=L, cp=S.arr(cp), n_spanwise=ns, n_chordwise=nc, rho=S.pos('rho'),
                              inlet_conditions=types.SimpleNamespace(V_app_infs=W))
    z, y1, y2 = S.mod('solver.coefs').get_data_for_coeff_plot(m, m)
    for q in range(k):
        As = [sum(areas[i] for i in strip(q, j, nc, ns)) for j in range(ns)]
        S.eq('mean', sum(a * b for a, b in zip(As, y1[q])), sum(As))
