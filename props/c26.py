"""C26 keel estimate."""
from symv.harness import scenario
from .c17 import above
from .flow import csys, results, stub, table, total

P = 'C26'
COW = ['x (heel)', 'y (pitch)', 'z (yaw)']
JG = 'z (yaw - JG sign)'
SAILS = ['F_sails_total_COG.' + a for a in 'xyz'] + ['F_sails_total_COW.' + a for a in 'xyz'] + ['M_sails_total_COG.' + a for a in 'xyz'] \
    + ['M_sails_total_COW.' + a for a in COW + [JG]]


def keel_entries(q):
    return [k for k in q if k.startswith('M_keel') or k.startswith('M_total') or k.startswith('F_keel') or k.startswith('F_total')]


def vec(t, pre, names):
    return [t['%s.%s' % (pre, a)] for a in names]


def check(S, cs, r, clr):
    """table after an estimate at clr"""
    F = S.arr(r.F_xyz_total)
    K = S.cross(S.arr(clr), -F)
    q, t = table(r.to_df_integral())
    S.eq('keel moment', r.M_xyz_underwater_estimate_total, K)
    S.eq('keel', vec(t, 'M_keel_total_COG', 'xyz'), K)
    Kc = S.arr(cs.from_xyz_to_centerline_csys([K])[0])
    S.eq('keel in centreline axes', r.M_centerline_csys_underwater_estimate_total, Kc)
    S.eq('keel in centreline axes listed', vec(t, 'M_keel_total_COW', COW), Kc)
    M, Mc = S.arr(r.M_total_above_water_in_xyz_csys), S.arr(r.M_total_above_water_in_centerline_csys)
    S.eq('sails', vec(t, 'M_sails_total_COG', 'xyz'), M)
    S.eq('sails in centreline axes', vec(t, 'M_sails_total_COW', COW), Mc)
    S.eq('sails and keel', vec(t, 'M_total_COG', 'xyz'), M + K)
    S.eq('sails and keel in centreline axes', vec(t, 'M_total_COW', COW), Mc + Kc)
    for pre, v in (('M_sails_total_COW', Mc), ('M_keel_total_COW', Kc), ('M_total_COW', Mc + Kc)):
        S.eq('opposite yaw', t['%s.%s' % (pre, JG)], -v[2])
    S.same('keel entries', sorted(keel_entries(q)), sorted(['%s.%s' % (p, a) for p in ('M_keel_total_COG', 'M_total_COG') for a in 'xyz']
                                                          + ['%s.%s' % (p, a) for p in ('M_keel_total_COW', 'M_total_COW') for a in COW + [JG]]))


def before(S, r):
    q, t = table(r.to_df_integral())
    S.same('no keel entries', keel_entries(q), [])
    S.true('sail entries', all(k in q for k in SAILS))
    return q, t


@scenario(P, [dict(sails=1, n=1), dict(sails=1, n=2), dict(sails=2, n=1), dict(sails=2, n=2), dict(sails=3, n=1), dict(sails=3, n=3)])
def history(S, sails, n):
    """no estimate, one estimate, a second one replacing the first"""
    cs = csys(S)
    st, m = stub(S, sails, n, cs)
    r = results(S, st, cs, m)
    before(S, r)
    a, b = S.vec('a'), S.vec('b')
    r.estimate_heeling_moment_from_keel(a)
    check(S, cs, r, a)
    r.estimate_heeling_moment_from_keel(b)
    check(S, cs, r, b)


@scenario(P)
def balance(S):
    """the keel force is the reversed sail force: moments about the lateral-resistance centre itself are the sails' own"""
    cs = csys(S)
    st, m = stub(S, 1, 2, cs)
    r = results(S, st, cs, m)
    c = S.vec('c')
    before_M = S.arr(r.M_total_above_water_in_xyz_csys)
    F = S.arr(r.F_xyz_total)
    r.estimate_heeling_moment_from_keel(c)
    q, t = table(r.to_df_integral())
    Mt = S.arr(vec(t, 'M_total_COG', 'xyz'))
    S.eq('sails about the centre', Mt, before_M - S.cross(c, F))
    S.eq('sail force untouched', vec(t, 'F_sails_total_COG', 'xyz'), F)
    S.eq('sail moment untouched', vec(t, 'M_sails_total_COG', 'xyz'), before_M)


@scenario(P)
def two_results(S):
    """an estimate on one result says nothing about another"""
    cs = csys(S)
    st, m = stub(S, 1, 1, cs)
    st2, m2 = stub(S, 1, 1, cs, tag='o')
    r, r2 = results(S, st, cs, m), results(S, st2, cs, m2)
    c = S.vec('c')
    r.estimate_heeling_moment_from_keel(c)
    before(S, r2)
    check(S, cs, r, c)
    r3 = results(S, st, cs, m)
    before(S, r3)


@scenario(P)
def at_the_heeled_and_drifted_centre(S):
    """with the hull's own centre of lateral resistance"""
    h, l = S.deg('heel', -60, 60, wide=(-180, 180)), S.deg('leeway', -60, 60, wide=(-180, 180))
    cs = csys(S, h, l)
    clr = S.arr([S.real('kx', -10, 10), S.real('ky', -2, 2, wide=(-100, 100)), S.real('kz', -5, 5, wide=(-100, 100))])
    hull = S.mod('yacht_geometry.hull_geometry').HullGeometry(S.pos('sheer'), S.pos('base'), cs, clr)
    st, m = stub(S, 1, 1, cs)
    r = results(S, st, cs, m)
    c = hull.center_of_lateral_resistance
    S.eq('heeled and drifted', c, above(S, clr, h, l))
    r.estimate_heeling_moment_from_keel(c)
    S.eq('keel moment', r.M_xyz_underwater_estimate_total, S.cross(above(S, clr, h, l), -S.arr(r.F_xyz_total)))
    check(S, cs, r, c)
