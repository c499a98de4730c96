"""C23 apparent wind."""
from symv.harness import scenario
from .c22 import K, Wind
from .lattice import sail_set, solution

P = 'C23'


def inlet(S, w, pts, rho=1.225):
    return S.mod('inlet.inlet_conditions').InletConditions(w.w, rho, pts)


def points(S, w, n):
    """load points above and below the water, at heights where the profile is defined"""
    rows = []
    for i in range(n):
        z = S.real('z%d' % i, -30, 30, wide=(-500, 500))
        S.assume(abs(z) > w.lo)
        rows.append([S.real('x%d' % i), S.real('y%d' % i), z])
    return S.arr(rows)


def apparent(S, w, z):
    return w.law(abs(z)) * w.dir() + S.arr([w.sog, 0, 0])


def same_direction(S, label, angle_deg, v, ln):
    S.eq(label, [S.cos(angle_deg) * ln, S.sin(angle_deg) * ln], [v[0], v[1]])


@scenario(P, [dict(kind=k['kind'], n=n) for k in K for n in (1, 2, 3, 6)], thorough=[dict(kind=k['kind'], n=12) for k in K])
def every_load_point(S, kind, n):
    w = Wind(S, kind)
    p = points(S, w, n)
    c = inlet(S, w, p)
    for q in (c.tws_at_cp, c.V_app_infs, c.V_app_infs_length, c.tws_length_at_ctr_points, c.AWA_infs_deg):
        S.same('one per panel', len(q), n)
    for i in range(n):
        v = apparent(S, w, p[i][2])
        S.assume(S.norm2(v) > S.num('0.0001'))
        S.eq('true wind', c.tws_at_cp[i], w.law(abs(p[i][2])) * w.dir())
        S.eq('true wind speed', c.tws_length_at_ctr_points[i] ** 2, w.law(abs(p[i][2])) ** 2)
        S.eq('apparent wind', c.V_app_infs[i], v)
        S.eq('apparent wind speed', c.V_app_infs_length[i], S.norm(v))
        same_direction(S, 'apparent wind angle', c.AWA_infs_deg[i], v, c.V_app_infs_length[i])
        S.eq('load point', c.cp_points[i], p[i])


@scenario(P, K)
def image_sees_the_same_wind(S, kind):
    w = Wind(S, kind)
    z = S.real('z', 0.01, 30, wide=(0.001, 500))
    S.assume(z > w.lo)
    x, y, x2, y2 = S.real('x'), S.real('y'), S.real('x2'), S.real('y2')
    c = inlet(S, w, S.arr([[x, y, z], [x, y, -z], [x2, y2, z]]))
    for k in (1, 2):
        S.eq('true wind', c.tws_at_cp[k], c.tws_at_cp[0])
        S.eq('apparent wind', c.V_app_infs[k], c.V_app_infs[0])
        S.eq('speed', c.V_app_infs_length[k], c.V_app_infs_length[0])
        S.eq('angle', c.AWA_infs_deg[k], c.AWA_infs_deg[0])


@scenario(P, K)
def listed_values(S, kind):
    w = Wind(S, kind)
    p = points(S, w, 2)
    c = inlet(S, w, p)
    cs = S.mod('rotations.csys_transformations').CSYS_transformations(S.num(0), S.deg('lee', -20, 20, wide=(-180, 180)), S.arr([0, 0, 0]))
    df = c.to_df_full(cs)
    col = lambda k: list(df[k])
    for i in range(2):
        for k, a in enumerate('xyz'):
            S.eq('load point', col('cp_points_COG.' + a)[i], p[i][k])
            S.eq('true wind', col('TWS_COG.' + a)[i], c.tws_at_cp[i][k])
            S.eq('apparent wind', col('V_app_infs_COG.' + a)[i], c.V_app_infs[i][k])
        S.eq('true wind speed', col('TWS_length')[i], c.tws_length_at_ctr_points[i])
        S.eq('apparent wind speed', col('V_app_infs_length')[i], c.V_app_infs_length[i])
        S.eq('angle to the course', col('AWA_infs_COG_deg')[i], c.AWA_infs_deg[i])
        S.eq('angle to the centreline', col('AWA_infs_COW_deg')[i], c.AWA_infs_deg[i] - cs.leeway_deg)


@scenario(P)
def vector_sum(S):
    """boat speed is added along the course only"""
    w = Wind(S, 'flat')
    v = S.vec('v')
    S.eq('apparent wind', w.w.get_app_infs_at_h(v), v + S.arr([w.sog, 0, 0]))
    s = S.real('s', 0, 20, wide=(0, 200))
    S.eq('speed along the wind', w.w.length_to_xyz_vector(s), s * w.dir())


@scenario(P, [{'side': 1}, {'side': -1}])
def angle_from_speeds_agrees(S, side):
    """wind from either side of the course: the angle computed from the speeds is the direction of the vector"""
    w = S.mod('inlet.winds')
    a, s = S.deg('twa', min(0, 180 * side), max(0, 180 * side)), S.real('sog', 0, 10, wide=(0, 100))
    x = w.FlatWindProfile(a, S.num(5), s)
    t = S.real('t', 0.5, 30, wide=(0.01, 200))
    v = t * S.arr([S.cos(a), S.sin(a), 0])
    ap = x.get_app_infs_at_h(v)
    S.assume(S.norm2(ap) > S.num('0.01'))
    g = x.get_app_alfa_infs_at_h(v)
    ln = S.norm(ap)
    S.eq('direction', [S.np.cos(g) * ln, S.np.sin(g) * ln], [ap[0], ap[1]], atol=1e-5)


@scenario(P, [dict(kind=k, nc=nc, ns=ns) for k in ('exp', 'flat') for nc, ns in ((1, 1), (1, 2), (2, 1), (2, 2))], thorough=[dict(kind='exp', nc=3, ns=2)])
def solver_uses_the_load_points(S, kind, nc, ns):
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns)
    w = S.mod('inlet.winds')
    a, t, s = S.deg('twa', 20, 160), S.real('tws', 1, 10), S.real('sog', 0.5, 5)
    if kind == 'exp':
        pr = w.ExpWindProfile(a, t, s, exp_coeff=1.0, reference_measurment_height=10.0, reference_water_level_for_wind_profile=-1.0)
    else:
        pr = w.FlatWindProfile(a, t, s)
    rho = S.pos('rho')
    m = solution(S, panels, nc, ns, rho, pr, te, le)
    ic = m.inlet_conditions
    S.eq('density', ic.rho, rho)
    for i in range(len(panels)):
        p = panels[i]
        cp = ((p[1] + p[2]) * 3 + p[0] + p[3]) / 8
        S.eq('load point', ic.cp_points[i], cp)
        sp = t * (abs(cp[2]) + 1) / 10 if kind == 'exp' else t
        S.eq('apparent wind', ic.V_app_infs[i], sp * S.arr([S.cos(a), S.sin(a), 0]) + S.arr([s, 0, 0]))
