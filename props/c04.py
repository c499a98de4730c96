"""C04 influence matrix and velocity sums."""
from symv.harness import scenario
from .lattice import flags, sail_set, solution, unit_velocity, wind

P = 'C04'


@scenario(P, [dict(m=2, te=2, orient=-1), dict(m=2, te=1, orient=1), dict(m=1, te=1, orient=1), dict(m=1, te=0, orient=-1),
              dict(m=3, te=5, orient=-1), dict(m=7, te=0b1001101, orient=1), dict(m=13, te=0b1000000000111, orient=-1)],
          thorough=[dict(m=3, te=t, orient=o) for t in range(8) for o in (1, -1)] + [dict(m=4, te=12, orient=-1)])
def entries(S, m, te, orient):
    """any corners, points, normals and winds; trailing-edge flags as the bits of te"""
    S.abstract_filaments()
    c = S.mod('solver.coefs')
    V = S.mat('V', m)
    pts = S.mat('p', m)
    nrm = S.mat('n', m)
    rings = S.arr([[[S.real('r%d%s%s' % (j, 'ABCD'[k], x)) for x in 'xyz'] for k in range(4)] for j in range(m)])
    f = flags([bool(te >> j & 1) for j in range(m)])
    for j in range(m):
        S.assume(S.norm2(V[j]) > 0)
    A, B = c.calc_velocity_coefs(V, pts, rings, nrm, f, S.num(orient))
    for i in range(m):
        for j in range(m):
            u = unit_velocity(S, pts[i], rings[j], V[j], f[j], orient)
            S.eq('stored velocity', B[i, j], u)
            S.eq('matrix entry', A[i, j], S.dot(u, nrm[i]))


@scenario(P, [{'m': 1}, {'m': 3}, {'m': 6}, {'m': 17}], thorough=[{'m': 40}])
def sums(S, m):
    v = S.mod('solver.velocity')
    V, g = S.mat('V', m), S.arr([S.real('g%d' % j) for j in range(m)])
    U = S.arr([[[S.real('u%d%d%s' % (i, j, x)) for x in 'xyz'] for j in range(m)] for i in range(m)])
    ind, tot = v.calculate_app_fs(V, U, g)
    S.eq('calc_induced_velocity', v.calc_induced_velocity(U, g), ind)
    for i in range(m):
        ref = sum((U[i, j] * g[j] for j in range(m)), S.arr([0, 0, 0]))
        S.eq('induced', ind[i], ref)
        S.eq('total', tot[i], V[i] + ref)


SETS = [dict(nc=1, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=2, ns=1, sails=1), dict(nc=1, ns=1, sails=2)]
GEO = [dict(nc=2, ns=2, sails=1), dict(nc=1, ns=3, sails=1), dict(nc=2, ns=1, sails=1, geo='heeled'), dict(nc=1, ns=2, sails=1, geo='flat'), dict(nc=1, ns=1, sails=1, geo='free'),
       dict(nc=2, ns=1, sails=1, geo='free')]
BIG = [dict(nc=3, ns=1, sails=1), dict(nc=2, ns=1, sails=2), dict(nc=2, ns=2, sails=2), dict(nc=1, ns=1, sails=3)]
FREE = [dict(nc=1, ns=2, sails=1, geo='free'), dict(nc=1, ns=1, sails=2, geo='free'), dict(nc=2, ns=2, sails=1, geo='free')]


@scenario(P, SETS + GEO, thorough=BIG + FREE)
def solver_uses_them(S, nc, ns, sails, geo='plain'):
    """A whole solution: every stored matrix, velocity and sum of the solver object, at control and load points."""
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns, sails, geo=geo)
    w = wind(S)
    rho = S.pos('rho')
    m = solution(S, panels, nc, ns, rho, w, te, le, free=geo == 'free')
    N = len(panels)
    V = m.inlet_conditions.V_app_infs
    o = -1
    for i in range(N):
        tot_c, tot_f = S.arr([0, 0, 0]), S.arr([0, 0, 0])
        for j in range(N):
            u = unit_velocity(S, m.ctr_p[i], m.rings[j], V[j], te[j], o)
            S.eq('stored velocity', m.v_ind_coeff[i, j], u)
            S.eq('matrix entry', m.coeff[i, j], S.dot(u, m.normals[i]))
            tot_c = tot_c + u * m.gamma_magnitude[j]
            tot_f = tot_f + unit_velocity(S, m.cp[i], m.rings[j], V[j], te[j], o) * m.gamma_magnitude[j]
        S.eq('right-hand side', m.RHS[i], -S.dot(V[i], m.normals[i]))
        S.eq('induced at control point', m.V_induced_at_ctrl[i], tot_c)
        S.eq('total at control point', m.V_app_fs_at_ctrl_p[i], tot_c + V[i])
        S.eq('induced at load point', m.V_induced_at_cp[i], tot_f)
        S.eq('total at load point', m.V_app_fs_at_cp[i], tot_f + V[i])
