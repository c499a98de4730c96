"""C09 lattice points, normals and vortex corners."""
from symv.harness import scenario
from .lattice import flags, sail_set, solution, wind

P = 'C09'


def panels(S, n):
    q = S.arr([[[S.real('p%d%d%s' % (i, k, x)) for x in 'xyz'] for k in range(4)] for i in range(n)])
    for i in range(n):
        S.assume(S.norm(S.cross(q[i][2] - q[i][0], q[i][3] - q[i][1])) > 0)
    return q


def check(S, q, res, corners, orient):
    ns, ctr, cp, rings, span, le, te = res
    for i in range(len(q)):
        p1, p2, p3, p4 = q[i]
        fore, aft = (p2 + p3) / 2, (p1 + p4) / 2
        S.eq('load point', cp[i], fore + (aft - fore) / 4)
        S.eq('control point', ctr[i], fore + 3 * (aft - fore) / 4)
        S.eq('fore edge mid-point', le[i], fore)
        S.eq('aft edge mid-point', te[i], aft)
        d = S.cross(p3 - p1, p4 - p2)
        S.eq('normal', ns[i] * S.norm(d), d)
        A, B, C, D = corners(i)
        S.eq('bound corner low', rings[i][1], B)
        S.eq('bound corner high', rings[i][2], C)
        S.eq('aft corner low', rings[i][0], A)
        S.eq('aft corner high', rings[i][3], D)
        S.eq('span vector', span[i], (C - B) * orient)


def own(q, i):
    p1, p2, p3, p4 = q[i]
    b, c = p2 + (p1 - p2) / 4, p3 + (p4 - p3) / 4
    return [p1 + (p1 - p2) / 4, b, c, p4 + (p4 - p3) / 4]


def lattice(q, i, nc, ns):
    c = own(q, i)
    if (i % (nc * ns)) < (nc - 1) * ns:
        nxt = own(q, i + ns)
        c[0], c[3] = nxt[1], nxt[2]
    return c


CASES = [dict(nc=1, ns=1, g=1), dict(nc=1, ns=2, g=1), dict(nc=2, ns=1, g=1), dict(nc=2, ns=2, g=1), dict(nc=3, ns=1, g=1),
         dict(nc=2, ns=1, g=2), dict(nc=1, ns=2, g=2), dict(nc=3, ns=2, g=1), dict(nc=2, ns=3, g=2), dict(nc=4, ns=1, g=4), dict(nc=3, ns=3, g=1), dict(nc=5, ns=2, g=1), dict(nc=2, ns=5, g=1),
         dict(nc=4, ns=4, g=2), dict(nc=1, ns=11, g=1), dict(nc=11, ns=1, g=1)]


@scenario(P, [dict(c, orient=-1) for c in CASES] + [dict(nc=2, ns=2, g=1, orient=1)],
          thorough=[dict(nc=8, ns=3, g=2, orient=-1), dict(nc=4, ns=7, g=2, orient=1), dict(nc=3, ns=3, g=6, orient=-1)])
def sail_lattice(S, nc, ns, g, orient):
    c = S.mod('solver.coefs')
    n = nc * ns * g
    q = panels(S, n)
    te = flags(([False] * (ns * (nc - 1)) + [True] * ns) * g)
    res = c.calculate_vlm_variables(q, te, S.num(orient), nc, ns)
    check(S, q, res, lambda i: lattice(q, i, nc, ns), orient)


@scenario(P, [dict(n=1, orient=1), dict(n=2, orient=-1), dict(n=5, orient=1), dict(n=12, orient=-1)], thorough=[dict(n=40, orient=1)])
def wing_lattice(S, n, orient):
    c = S.mod('solver.coefs')
    q = panels(S, n)
    res = c.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points(q, S.num(orient))
    check(S, q, res, lambda i: own(q, i), orient)


@scenario(P, [dict(n=1)])
def normal_is_unit_and_across(S, n):
    c = S.mod('solver.coefs')
    q = panels(S, n)
    te = flags([True] * n)
    for res in (c.calculate_vlm_variables(q, te, S.num(-1), 1, n),
                c.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points(q, S.num(-1))):
        for i in range(n):
            S.eq('unit', S.norm2(res[0][i]), 1)
            S.across('across diagonal', res[0][i], q[i][2] - q[i][0])
            S.across('across diagonal', res[0][i], q[i][3] - q[i][1])


@scenario(P, [dict(nc=2, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=2, ns=2, sails=1), dict(nc=3, ns=1, sails=1), dict(nc=1, ns=1, sails=2), dict(nc=2, ns=2, sails=1, geo='heeled'),
              dict(nc=2, ns=1, sails=1, geo='free')],
          thorough=[dict(nc=2, ns=2, sails=2), dict(nc=3, ns=2, sails=1), dict(nc=2, ns=2, sails=1, geo='free')])
def of_a_solution(S, nc, ns, sails, geo='plain'):
    S.abstract_filaments()
    q, te, le = sail_set(S, nc, ns, sails, geo=geo)
    m = solution(S, q, nc, ns, S.pos('rho'), wind(S), te, le, free=geo == 'free')
    res = (m.normals, m.ctr_p, m.cp, m.rings, m.span_vectors, m.leading_mid_points, m.trailing_mid_points)
    check(S, q, res, lambda i: lattice(q, i, nc, ns), -1)
