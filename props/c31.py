"""C31 mirror symmetry of the flow; no flow through the water surface."""
from symv.harness import scenario
from .lattice import sail_set, solution, total, unit_velocity, wind

P = 'C31'
SETS = [dict(nc=1, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=2, ns=1, sails=1), dict(nc=1, ns=1, sails=2)]
BIG = [dict(nc=2, ns=2, sails=1), dict(nc=1, ns=3, sails=1), dict(nc=2, ns=1, sails=2)]
GEO = [dict(nc=1, ns=2, sails=1, geo='heeled'), dict(nc=2, ns=1, sails=1, geo='flat'), dict(nc=1, ns=1, sails=1, geo='free')]


def image(i, nc, ns, sails):
    """index of the mirror image of panel i: same sail, same row, reversed span"""
    q, r = divmod(i, nc * ns)
    return ((q + sails) % (2 * sails)) * nc * ns + (r // ns) * ns + ns - 1 - r % ns


def solve(S, nc, ns, sails, kind, geo):
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns, sails, geo=geo)
    w = wind(S, kind)
    m = solution(S, panels, nc, ns, S.pos('rho'), w, te, le, free=geo == 'free')
    N = len(panels)
    im = [image(i, nc, ns, sails) for i in range(N)]
    S.unique('equal circulations', m.gamma_magnitude, [m.gamma_magnitude[im[i]] for i in range(N)])
    return m, N, im, te


@scenario(P, [dict(c, kind=k) for c, k in zip(SETS, ('exp', 'flat', 'exp', 'exp'))] + [dict(nc=1, ns=1, sails=1, kind='log')] +
          [dict(c, kind='exp') for c in GEO + BIG] + [dict(c, kind='log') for c in GEO],
          thorough=[dict(c, kind=k) for c in SETS + BIG for k in ('flat', 'log')] + [dict(nc=3, ns=2, sails=1, kind='exp'), dict(nc=2, ns=2, sails=2, kind='exp'), dict(nc=1, ns=2, sails=1, kind='exp', geo='free')])
def image_is_mirror(S, nc, ns, sails, kind, geo='plain'):
    m, N, im, te = solve(S, nc, ns, sails, kind, geo)
    M = S.arr([1, 1, -1])
    for i in range(N):
        k = im[i]
        S.eq('circulation', m.gamma_magnitude[i], m.gamma_magnitude[k])
        S.eq('wind', m.inlet_conditions.V_app_infs[i], m.inlet_conditions.V_app_infs[k])
        S.eq('velocity at load point', m.V_app_fs_at_cp[i], M * m.V_app_fs_at_cp[k])
        S.eq('velocity at control point', m.V_app_fs_at_ctrl_p[i], M * m.V_app_fs_at_ctrl_p[k])
        S.eq('load', m.force[i], M * m.force[k])
        S.eq('lift', m.lift[i], M * m.lift[k])
        S.eq('drag', m.drag[i], M * m.drag[k])
        S.eq('pressure', m.pressure[i], m.pressure[k])
        S.eq('pressure coefficient', m.p_coeffs[i], m.p_coeffs[k])


@scenario(P, [dict(c, kind='exp') for c in SETS + GEO], thorough=[dict(c, kind='exp') for c in BIG])
def no_flow_through_the_surface(S, nc, ns, sails, kind, geo='plain'):
    m, N, im, te = solve(S, nc, ns, sails, kind, geo)
    p = S.arr([S.real('px'), S.real('py'), 0])
    V = m.inlet_conditions.V_app_infs
    u = total(S, [unit_velocity(S, p, m.rings[j], V[j], te[j], -1) * m.gamma_magnitude[j] for j in range(N)])
    S.eq('vertical velocity', u[2], 0)
    S.eq('vertical wind', [v[2] for v in V], 0)
