"""C07 pressures and pressure coefficients."""
from symv.harness import scenario
from .lattice import sail_set, solution, wind

P = 'C07'


@scenario(P, [{'m': m} for m in (1, 2, 4, 9, 17)], thorough=[{'m': 60}])
def pressure(S, m):
    F = S.mod('solver.forces')
    f, n = S.mat('f', m), S.mat('n', m)
    a = S.arr([S.pos('a%d' % i) for i in range(m)])
    p = F.calc_pressure(f, n, a)
    S.same('one value per panel', len(p), m)
    for i in range(m):
        S.eq('pressure', p[i] * a[i], S.dot(f[i], n[i]))


@scenario(P, [{'m': m} for m in (1, 2, 4, 9, 17)], thorough=[{'m': 60}])
def coefficient(S, m):
    F = S.mod('solver.forces')
    p = S.arr([S.real('p%d' % i) for i in range(m)])
    V, rho = S.mat('V', m), S.pos('rho')
    for i in range(m):
        S.assume(S.norm2(V[i]) > 0)
    c = F.calc_pressure_coeff(p, rho, V)
    S.same('one value per panel', len(c), m)
    for i in range(m):
        S.eq('coefficient', c[i] * S.norm2(V[i]) * rho, 2 * p[i])


@scenario(P, [dict(nc=1, ns=1, sails=1), dict(nc=2, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=1, ns=1, sails=2),
              dict(nc=2, ns=2, sails=1), dict(nc=3, ns=1, sails=1), dict(nc=2, ns=1, sails=1, geo='heeled'), dict(nc=1, ns=2, sails=1, geo='flat'), dict(nc=1, ns=1, sails=1, geo='free')],
          thorough=[dict(nc=3, ns=2, sails=1), dict(nc=2, ns=1, sails=2), dict(nc=2, ns=1, sails=1, geo='free'), dict(nc=1, ns=1, sails=2, geo='free')])
def of_a_solution(S, nc, ns, sails, geo='plain'):
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns, sails, geo=geo)
    rho = S.pos('rho')
    m = solution(S, panels, nc, ns, rho, wind(S), te, le, free=geo == 'free')
    V = m.inlet_conditions.V_app_infs
    for i in range(len(panels)):
        S.eq('pressure', m.pressure[i] * m.areas[i], S.dot(m.force[i], m.normals[i]))
        S.eq('coefficient', m.p_coeffs[i] * S.norm2(V[i]) * rho, 2 * m.pressure[i])


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=1), dict(nc=1, ns=2), dict(nc=2, ns=2)], thorough=[dict(nc=3, ns=2)])
def of_a_wing(S, nc, ns):
    S.abstract_filaments()
    A = S.mod('runner.aircraft')
    V = S.arr([S.real('vx', 2, 9, wide=(-40, 40)), S.real('vy', -1, 1, wide=(-40, 40)), S.real('vz', -1, 1, wide=(-40, 40))])
    c, b = S.num(1), S.num(2)
    w, e = S.call(A.Aircraft, c, b, S.num(0), ns, nc, V, S.pos('rho'))
    if e is not None:
        if S.symbolic:
            return S.fail('accepted', repr(e))
        return S.assume(False)
    area = c * 2 * b / (nc * ns)
    for i in range(nc * ns):
        # flat wing in the x-z plane: the only normal is y
        S.eq('pressure size', (w.pressure[i] * area) ** 2, w.force[i][1] ** 2)
    for i in range(1, nc * ns):
        S.eq('same side', w.pressure[i] * w.force[0][1], w.pressure[0] * w.force[i][1])
