"""C24 reported forces and moments."""
from symv.harness import scenario
from .flow import arm, csys, results, stub, table, total
from .lattice import sail_set, solution, wind

P = 'C24'
SHAPES = [dict(sails=1, n=1), dict(sails=1, n=3), dict(sails=2, n=2), dict(sails=3, n=1), dict(sails=2, n=4), dict(sails=3, n=3), dict(sails=1, n=9)]


@scenario(P, SHAPES, thorough=[dict(sails=5, n=2), dict(sails=2, n=20)])
def totals(S, sails, n):
    cs = csys(S)
    st, m = stub(S, sails, n, cs)
    ref = S.arr(cs.v_from_original_xyz_2_reference_csys_xyz)
    r = results(S, st, cs, m)
    k = sails * n
    F = [m.force[i] for i in range(2 * k)]
    M = [S.cross(arm(S, m.cp[i], ref), F[i]) for i in range(2 * k)]
    S.same('panels', len(r.F_xyz), 2 * k)
    S.same('panels above the water', len(r.F_xyz_above_water), k)
    for i in range(2 * k):
        S.eq('panel load', r.F_xyz[i], F[i])
        S.eq('panel moment', r.M_xyz[i], M[i])
    for i in range(k):
        S.eq('load above the water', r.F_xyz_above_water[i], F[i])
    S.eq('total force', r.F_xyz_total, total(S, F[:k]))
    S.eq('total moment', r.M_total_above_water_in_xyz_csys, total(S, M[:k]))
    for q in range(sails):
        nm = st.sails[q].name
        f, mm = total(S, F[q * n:(q + 1) * n]), total(S, M[q * n:(q + 1) * n])
        S.eq('force of the sail', [r.dyn_dict['F_%s_total_COG.%s' % (nm, a)] for a in 'xyz'], f)
        S.eq('moment of the sail', [r.dyn_dict['M_%s_total_COG.%s' % (nm, a)] for a in 'xyz'], mm)
    S.same('entries per sail', len(r.dyn_dict), 6 * sails)


@scenario(P, [dict(sails=1, n=2), dict(sails=2, n=2), dict(sails=3, n=2), dict(sails=1, n=6)])
def reported_values_add_up(S, sails, n):
    cs = csys(S)
    st, m = stub(S, sails, n, cs)
    r = results(S, st, cs, m)
    q, t = table(r.to_df_integral())
    for w, tot in (('F', r.F_xyz_total), ('M', r.M_total_above_water_in_xyz_csys)):
        for c, a in enumerate('xyz'):
            S.eq('total', t['%s_sails_total_COG.%s' % (w, a)], tot[c])
            S.eq('sails add up', sum(t['%s_%s_total_COG.%s' % (w, s.name, a)] for s in st.sails), tot[c])


@scenario(P, [dict(sails=1, n=2), dict(sails=2, n=1), dict(sails=2, n=3), dict(sails=3, n=2)])
def reference_point(S, sails, n):
    """moving the reference point by s changes the total moment by -s x F and nothing else"""
    h, l = S.deg('heel', -60, 60, wide=(-180, 180)), S.deg('leeway', -60, 60, wide=(-180, 180))
    c0, s = S.vec('ref'), S.vec('shift')
    a = csys(S, h, l, c0)
    b = csys(S, h, l, c0 + s)
    st, m = stub(S, sails, n, a)
    r, q = results(S, st, a, m), results(S, st, b, m)
    F = r.F_xyz_total
    S.eq('force', q.F_xyz_total, F)
    S.eq('moment', q.M_total_above_water_in_xyz_csys, r.M_total_above_water_in_xyz_csys - S.cross(s, F))
    for i in range(2 * sails * n):
        S.eq('load', q.F_xyz[i], r.F_xyz[i])
    for i, sl in enumerate(st.sails):
        f = S.arr([r.dyn_dict['F_%s_total_COG.%s' % (sl.name, c)] for c in 'xyz'])
        m0 = S.arr([r.dyn_dict['M_%s_total_COG.%s' % (sl.name, c)] for c in 'xyz'])
        S.eq('moment of the sail', [q.dyn_dict['M_%s_total_COG.%s' % (sl.name, c)] for c in 'xyz'], m0 - S.cross(s, f))


@scenario(P, [dict(n=1), dict(n=3), dict(n=8)])
def arms(S, n):
    cs_ref = S.vec('ref')
    p = S.arr([[S.real('p%d%s' % (i, a)) for a in 'xyz'] for i in range(n)])
    f = S.mod('solver.forces')
    r = f.calc_moment_arm_in_shifted_csys(p, cs_ref)
    S.same('count', len(r), n)
    for i in range(n):
        if p[i][2] > 0:
            S.eq('arm', r[i], p[i] - cs_ref)
        else:
            S.eq('arm of the image', r[i], arm(S, p[i], cs_ref))
    F = S.mat('f', n)
    m = f.calc_moments(r, F)
    for i in range(n):
        S.eq('moment', m[i], S.cross(r[i], F[i]))


@scenario(P, [dict(n=1), dict(n=2), dict(n=3), dict(n=8)])
def above_water_half(S, n):
    q = S.mat('q', 2 * n)
    a, t = S.mod('solver.additional_functions').extract_above_water_quantities(q)
    S.same('count', len(a), n)
    for i in range(n):
        S.eq('half', a[i], q[i])
    S.eq('total', t, total(S, [q[i] for i in range(n)]))


@scenario(P, [dict(sails=1, n=2), dict(sails=2, n=1), dict(sails=2, n=3), dict(sails=3, n=2)])
def centreline_values(S, sails, n):
    """the same vectors in axes turned about the vertical: vertical part and horizontal length kept, all turned by one and the same angle of the size of the leeway"""
    cs = csys(S)
    l = cs.leeway_deg
    st, m = stub(S, sails, n, cs)
    r = results(S, st, cs, m)
    k = sails * n
    pairs = [('load', r.F_centerline[i], r.F_xyz[i]) for i in range(2 * k)] + [('moment', r.M_centerline_csys[i], r.M_xyz[i]) for i in range(2 * k)]
    pairs += [('total force', r.F_centerline_total, r.F_xyz_total), ('total moment', r.M_total_above_water_in_centerline_csys, r.M_total_above_water_in_xyz_csys)]
    c = S.cos(l)
    s = None
    for w, a, b in pairs:
        S.eq(w + ' vertical', a[2], b[2])
        h2 = b[0] * b[0] + b[1] * b[1]
        S.eq(w + ' size', a[0] * a[0] + a[1] * a[1], h2)
        S.eq(w + ' turned by the leeway', a[0] * b[0] + a[1] * b[1], c * h2)
        t = (b[0] * a[1] - b[1] * a[0], h2)
        if s is not None:
            S.eq(w + ' turned the same way', t[0] * s[1], s[0] * t[1])
        else:
            s = t
    S.eq('total force is the sum', r.F_centerline_total, total(S, [r.F_centerline[i] for i in range(k)]))
    S.eq('total moment is the sum', r.M_total_above_water_in_centerline_csys, total(S, [r.M_centerline_csys[i] for i in range(k)]))


@scenario(P)
def centreline_axes(S):
    """components along the centreline of the drifting yacht, across it and upwards"""
    cs = csys(S)
    l = cs.leeway_deg
    v = S.vec('v')
    along, across = S.arr([S.cos(l), S.sin(l), 0]), S.arr([-S.sin(l), S.cos(l), 0])
    S.eq('centreline vector', cs.from_xyz_to_centerline_csys([v])[0], [S.dot(v, along), S.dot(v, across), v[2]])


@scenario(P, [dict(n=1), dict(n=2), dict(n=5)])
def centreline_moments(S, n):
    cs = csys(S)
    m = S.mat('m', 2 * n)
    a, t = cs.calc_centerline_moments(m)
    b = cs.from_xyz_to_centerline_csys(m)
    for i in range(2 * n):
        S.eq('moment', a[i], b[i])
    S.eq('total', t, total(S, [b[i] for i in range(n)]))


@scenario(P, [dict(nc=1, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=2, ns=1, sails=1), dict(nc=1, ns=1, sails=2), dict(nc=2, ns=2, sails=1), dict(nc=1, ns=2, sails=2)], thorough=[dict(nc=3, ns=2, sails=1), dict(nc=2, ns=2, sails=2)])
def loads_of_a_solution(S, nc, ns, sails):
    """the loads summed are those of the solver, about the reference point"""
    import types
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns, sails)
    m = solution(S, panels, nc, ns, S.pos('rho'), wind(S, 'flat'), te, le)
    cs = csys(S, S.num(0), S.num(0))
    ref = S.arr(cs.v_from_original_xyz_2_reference_csys_xyz)
    names = ['jib', 'main_sail'][-sails:]
    st = types.SimpleNamespace(sails=[types.SimpleNamespace(name=x) for x in names])
    r = results(S, st, cs, m)
    k = sails * nc * ns
    lev = [((panels[i][1] + panels[i][2]) * 3 + panels[i][0] + panels[i][3]) / 8 for i in range(k)]
    S.eq('total force', r.F_xyz_total, total(S, [m.force[i] for i in range(k)]))
    S.eq('total moment', r.M_total_above_water_in_xyz_csys, total(S, [S.cross(lev[i] - ref, m.force[i]) for i in range(k)]))
    for q, nm in enumerate(names):
        S.eq('force of the sail', [r.dyn_dict['F_%s_total_COG.%s' % (nm, a)] for a in 'xyz'], total(S, [m.force[i] for i in range(q * nc * ns, (q + 1) * nc * ns)]))
