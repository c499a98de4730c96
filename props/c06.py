"""C06 Kutta-Joukowski loads."""
from symv.harness import scenario
from .lattice import bound_gamma, flags, sail_set, solution, total, unit_velocity, wind

P = 'C06'
CASES = [dict(nc=1, ns=1, g=1), dict(nc=1, ns=2, g=1), dict(nc=2, ns=1, g=1), dict(nc=2, ns=2, g=1), dict(nc=2, ns=1, g=2),
         dict(nc=1, ns=1, g=2), dict(nc=3, ns=1, g=1), dict(nc=1, ns=3, g=1), dict(nc=3, ns=2, g=1), dict(nc=2, ns=3, g=1), dict(nc=1, ns=2, g=3),
         dict(nc=3, ns=3, g=1), dict(nc=5, ns=1, g=2), dict(nc=2, ns=6, g=2)]


def inputs(S, nc, ns, g, big=False):
    """Arbitrary panels data: nothing is taken from the geometry functions."""
    m = nc * ns * g
    V, cp, n, sp = S.mat('V', m), S.mat('p', m), S.mat('n', m), S.mat('s', m)
    for j in range(m):
        S.assume(S.norm2(V[j]) > 0)
    rings = S.arr([[[S.real('r%d%s%s' % (j, 'ABCD'[k], x)) for x in 'xyz'] for k in range(4)] for j in range(m)])
    gam = S.arr([S.real('g%d' % j) for j in range(m)])
    te = flags(([False] * (ns * (nc - 1)) + [True] * ns) * g)
    le = flags((([True] * ns + [False] * (ns * (nc - 1))) if nc > 1 else [False] * ns) * g)
    return m, V, gam, S.pos('rho'), cp, rings, n, sp, te, le


@scenario(P, [dict(c, orient=o) for c, o in zip(CASES, (1, -1, -1, 1, -1, 1, -1, -1, 1, -1, 1, -1, 1, -1))],
          thorough=[dict(nc=6, ns=6, g=2, orient=-1), dict(nc=3, ns=1, g=2, orient=1), dict(nc=2, ns=2, g=2, orient=-1)])
def panel_loads(S, nc, ns, g, orient):
    S.abstract_filaments()
    F = S.mod('solver.forces')
    m, V, gam, rho, cp, rings, n, sp, te, le = inputs(S, nc, ns, g)
    args = (V, gam, rho, cp, rings, ns, n, sp, te, le)
    res = {k: F.calc_force_wrapper(*args, k, S.num(orient)) for k in ('force_xyz', 'lift', 'drag')}
    for i in range(m):
        ind = total(S, [unit_velocity(S, cp[i], rings[j], V[j], te[j], orient) * gam[j] for j in range(m)])
        b = sp[i] * bound_gamma(gam, i, nc, ns)
        loads = {'force_xyz': V[i] + ind, 'lift': V[i], 'drag': ind}
        for k, (f, vat, vind) in res.items():
            S.eq(k, f[i], S.cross(loads[k], b) * rho)
            S.eq('induced velocity', vind[i], ind)
            S.eq('local velocity', vat[i], V[i] + ind)
        f, lift = res['force_xyz'][0][i], res['lift'][0][i]
        S.eq('lift plus drag', lift + res['drag'][0][i], f)
        S.across('lift across wind', lift, V[i])
        S.across('load across local velocity', f, res['force_xyz'][1][i])
        S.across('load across filament', f, sp[i])


@scenario(P)
def default_is_total_with_unit_orientation(S):
    S.abstract_filaments()
    F = S.mod('solver.forces')
    m, V, gam, rho, cp, rings, n, sp, te, le = inputs(S, 2, 1, 1)
    a = F.calc_force_wrapper(V, gam, rho, cp, rings, 1, n, sp, te, le)
    b = F.calc_force_wrapper(V, gam, rho, cp, rings, 1, n, sp, te, le, 'force_xyz', S.num(1))
    for x, y in zip(a, b):
        S.eq('default', x, y)


@scenario(P, [{'name': n} for n in ('Lift', 'force', '', 'lift ', 'drag_xyz', 'total', None)])
def unknown_load_is_refused(S, name):
    S.abstract_filaments()
    F = S.mod('solver.forces')
    m, V, gam, rho, cp, rings, n, sp, te, le = inputs(S, 1, 1, 1)
    r, e = S.call(F.calc_force_wrapper, V, gam, rho, cp, rings, 1, n, sp, te, le, name, S.num(1))
    S.true('refused', e is not None)


@scenario(P, [dict(nc=1, ns=1, sails=1), dict(nc=2, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=2, ns=2, sails=1), dict(nc=3, ns=1, sails=1), dict(nc=1, ns=1, sails=2),
              dict(nc=2, ns=1, sails=1, geo='heeled'), dict(nc=1, ns=2, sails=1, geo='flat'), dict(nc=2, ns=1, sails=1, geo='free')],
          thorough=[dict(nc=3, ns=2, sails=1), dict(nc=2, ns=1, sails=2), dict(nc=2, ns=2, sails=1, geo='free'), dict(nc=2, ns=1, sails=2, geo='free')])
def solver_loads(S, nc, ns, sails, geo='plain'):
    """The loads of a solution, from its own velocities, circulations and bound vortices."""
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns, sails, geo=geo)
    rho = S.pos('rho')
    m = solution(S, panels, nc, ns, rho, wind(S), te, le, free=geo == 'free')
    V = m.inlet_conditions.V_app_infs
    for i in range(len(panels)):
        b = (m.rings[i, 2] - m.rings[i, 1]) * (-bound_gamma(m.gamma_magnitude, i, nc, ns))
        S.eq('total', m.force[i], S.cross(m.V_app_fs_at_cp[i], b) * rho)
        S.eq('lift', m.lift[i], S.cross(V[i], b) * rho)
        S.eq('drag', m.drag[i], S.cross(m.V_induced_at_cp[i], b) * rho)
        S.eq('lift plus drag', m.lift[i] + m.drag[i], m.force[i])
        S.across('lift across wind', m.lift[i], V[i])
