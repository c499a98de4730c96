"""C05 no flow through panels; rejection of anything else."""
from symv.harness import scenario
from .lattice import profile, regular, sail_set, wind

P = 'C05'
NAN = float('nan')


@scenario(P, [dict(nc=1, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=2, ns=1, sails=1), dict(nc=2, ns=2, sails=1), dict(nc=3, ns=1, sails=1), dict(nc=1, ns=1, sails=3),
              dict(nc=2, ns=1, sails=1, geo='heeled'), dict(nc=1, ns=2, sails=1, geo='flat'), dict(nc=2, ns=1, sails=1, geo='free')],
          thorough=[dict(nc=3, ns=2, sails=1), dict(nc=1, ns=3, sails=2), dict(nc=2, ns=2, sails=2), dict(nc=1, ns=1, sails=2, geo='free'), dict(nc=2, ns=2, sails=1, geo='free')])
def accepted_solution_is_tangential(S, nc, ns, sails, geo='plain'):
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns, sails, geo=geo)
    m, e = S.call(S.mod('solver.vlm').Vlm, panels, nc, ns, S.pos('rho'), wind(S), te, le)
    if e is not None:
        if isinstance(e, ValueError) and geo == 'free':
            return S.assume(False)
        return S.fail('accepted', 'a regular sail set is refused: %r' % (e,))
    regular(S, m, geo == 'free')
    size = 0.0 if S.symbolic else 1000 * max(abs(m.V_induced_at_ctrl).max(), 1)
    for i in range(len(panels)):
        S.eq('tangential', S.dot(m.V_app_fs_at_ctrl_p[i], m.normals[i]), 0, scale=size)
        S.eq('tangential sum', S.dot(m.inlet_conditions.V_app_infs[i] + m.V_induced_at_ctrl[i], m.normals[i]), 0, scale=size)


@scenario(P, [dict(nc=1, ns=1), dict(nc=1, ns=2), dict(nc=2, ns=1)], thorough=[dict(nc=2, ns=2), dict(nc=3, ns=1)])
def accepted_wing_is_tangential(S, nc, ns):
    """The wing helper: the equations it solves are those of its own control points and normals."""
    S.abstract_filaments()
    A = S.mod('runner.aircraft')
    rec = []
    old = A.is_no_flux_BC_satisfied

    def spy(V, panels, areas, normals):
        rec.append((V, normals))
        return old(V, panels, areas, normals)
    A.is_no_flux_BC_satisfied = spy
    try:
        V = S.arr([S.real('vx', 2, 9, wide=(-40, 40)), S.real('vy', -1, 1, wide=(-40, 40)), S.real('vz', -1, 1, wide=(-40, 40))])
        w, e = S.call(A.Aircraft, S.num(1), S.num(2), S.num(0), ns, nc, V, S.pos('rho'))
    finally:
        A.is_no_flux_BC_satisfied = old
    if e is not None:
        return S.fail('accepted', 'a regular wing is refused: %r' % (e,))
    S.true('boundary condition checked', len(rec) >= 1)
    for V, n in rec:
        for i in range(nc * ns):
            S.eq('tangential', S.dot(V[i], n[i]), 0)


def setup(S, m):
    n = S.mat('n', m, lo=-1, hi=1)
    a = S.arr([S.real('area%d' % i, 1e-13, 5, wide=(1e-13, 1000)) for i in range(m)])
    p = S.mat('q', 4 * m)
    panels = S.arr([[[p[4 * i + k][j] for j in range(3)] for k in range(4)] for i in range(m)])
    return n, a, panels


@scenario(P, [{'m': 1}, {'m': 3}, {'m': 20}])
def accepts_tangential_flow(S, m):
    F = S.mod('solver.forces')
    n, a, panels = setup(S, m)
    w = S.mat('w', m, lo=-1, hi=1)
    V = S.arr([S.cross(n[i], w[i]) for i in range(m)])
    r, e = S.call(F.is_no_flux_BC_satisfied, V, panels, a, n)
    if e is not None:
        return S.fail('accepted', repr(e))
    S.true('true', bool(r))


@scenario(P, [{'m': 2}])
def accepts_flow_within_tolerance(S, m):
    F = S.mod('solver.forces')
    n, a, panels = setup(S, m)
    n = S.arr([[0, 0, 1]] * m)
    V = S.arr([[S.real('v%d' % i), S.real('u%d' % i), S.real('t%d' % i, -9.99e-13, 9.99e-13)] for i in range(m)])
    r, e = S.call(F.is_no_flux_BC_satisfied, V, panels, a, n)
    if e is not None:
        return S.fail('accepted', repr(e))
    S.true('true', bool(r))


@scenario(P, [dict(m=m, k=k, sign=s) for m, k in ((1, 0), (3, 0), (3, 1), (3, 2), (20, 0), (20, 19), (20, 9)) for s in (1, -1)])
def rejects_flow_through_a_panel(S, m, k, sign):
    F = S.mod('solver.forces')
    n, a, panels = setup(S, m)
    w = S.mat('w', m, lo=-1, hi=1)
    V = S.arr([S.cross(n[i], w[i]) for i in range(m)])
    V[k] = S.vec('leak', lo=-1, hi=1)
    S.assume(S.dot(V[k], n[k]) * sign > S.num(1.001e-12))
    r, e = S.call(F.is_no_flux_BC_satisfied, V, panels, a, n)
    S.true('rejected', isinstance(e, ValueError))


@scenario(P, [dict(m=3, k=k, axis=ax) for k in (0, 1, 2) for ax in (0, 2)])
def rejects_undefined_flow(S, m, k, axis):
    F = S.mod('solver.forces')
    n, a, panels = setup(S, m)
    w = S.mat('w', m, lo=-1, hi=1)
    V = S.arr([S.cross(n[i], w[i]) for i in range(m)])
    V[k, axis] = NAN
    r, e = S.call(F.is_no_flux_BC_satisfied, V, panels, a, n)
    S.true('rejected', isinstance(e, ValueError))


@scenario(P, [dict(m=m, k=k, bad=b) for m, k in ((1, 0), (3, 0), (3, 2), (3, 1), (20, 19), (20, 10)) for b in ('tiny', 'nan', 'negative')])
def rejects_suspicious_area(S, m, k, bad):
    F = S.mod('solver.forces')
    n, a, panels = setup(S, m)
    w = S.mat('w', m, lo=-1, hi=1)
    V = S.arr([S.cross(n[i], w[i]) for i in range(m)])
    a[k] = {'tiny': lambda: S.real('bad', 0, 9.99e-15), 'nan': lambda: NAN, 'negative': lambda: S.real('bad', -3, 0, wide=(-1000, 0))}[bad]()
    r, e = S.call(F.is_no_flux_BC_satisfied, V, panels, a, n)
    S.true('rejected', isinstance(e, ValueError))


@scenario(P, [dict(which='area', k=0, sign=1)] + [dict(which='flux', k=k, sign=s) for k in (0, 3) for s in (1, -1)])
def solver_applies_the_test(S, which, k, sign):
    """A solution that does not satisfy the condition never leaves the solver: a wrong linear solution, a degenerate panel."""
    panels, te, le = sail_set(S, 2, 1, 1)
    w = profile(S, S.deg('twa', 20, 160), S.real('tws', 1, 10), S.real('sog', 0.5, 5))
    rho = S.pos('rho')
    V = S.mod('solver.vlm')
    if which == 'area':
        q = panels.copy()
        q[1] = q[1] * 0 + q[1, 0] + S.arr([[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0]]) * S.real('size', 0.1, 1)
        r, e = S.call(V.Vlm, q, 2, 1, rho, w, te, le)
        return S.true('rejected', e is not None)
    # a linear solver that returns no circulation at all: the wind blows through the panels
    S.abstract_filaments()
    V.coefs.solve_eq, old = (lambda A, b: b * 0), V.coefs.solve_eq
    try:
        m = S.mod('solver.coefs')
        n, _, cp = m.calculate_vlm_variables(panels, te, -1.0, 2, 1)[:3]
        h = S.np.array([w.get_app_infs_at_h(w.get_true_wind_speed_at_h(abs(x[2]))) for x in cp])
        S.assume(S.dot(h[k], n[k]) * sign > S.num(1e-6))
        r, e = S.call(V.Vlm, panels, 2, 1, rho, w, te, le)
    finally:
        V.coefs.solve_eq = old
    S.true('rejected', isinstance(e, ValueError))
