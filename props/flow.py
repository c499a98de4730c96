"""Free panel solutions handed to the results stage."""
import types

NAMES = ['jib', 'main_sail', 'staysail']


def csys(S, heel=None, leeway=None, ref=None):
    h = S.deg('heel', -60, 60, wide=(-180, 180)) if heel is None else heel
    l = S.deg('leeway', -60, 60, wide=(-180, 180)) if leeway is None else leeway
    v = S.vec('ref') if ref is None else ref
    return S.mod('rotations.csys_transformations').CSYS_transformations(h, l, v)


def sail_stub(S, name, cs, tag):
    return types.SimpleNamespace(name=name, csys_transformations=cs, tack_mounting=S.arr([S.real('tk%sx' % tag), S.real('tk%sy' % tag), S.real('tk%sz' % tag, 0.1, 3, wide=(0.01, 50))]))


def stub(S, sails, n, cs=None, names=NAMES, tag=''):
    """(sail set, solution) with `sails` sails of n panels: any loads, velocities and load points (above, then images below)"""
    k = sails * n
    rows = lambda q, m=2 * k: S.arr([[S.real('%s%s%d%s' % (tag, q, i, a)) for a in 'xyz'] for i in range(m)])
    cp = S.arr([[S.real('%scp%dx' % (tag, i)), S.real('%scp%dy' % (tag, i)),
                 S.real('%scp%dz' % (tag, i), 0.01, 30, wide=(0.001, 500)) if i < k else S.real('%scp%dz' % (tag, i), -30, -0.01, wide=(-500, -0.001))] for i in range(2 * k)])
    col = lambda q: S.arr([S.real('%s%s%d' % (tag, q, i)) for i in range(2 * k)])
    m = types.SimpleNamespace(gamma_magnitude=col('gam'), pressure=col('pr'), V_induced_at_cp=rows('vi'), V_app_fs_at_cp=rows('va'),
                              force=rows('f'), cp=cp)
    st = types.SimpleNamespace(sails=[sail_stub(S, names[i], cs, '%s%d' % (tag, i)) for i in range(sails)])
    return st, m


def results(S, st, cs, m):
    return S.mod('results.inviscid_flow').InviscidFlowResults(st, cs, m)


def arm(S, cp, ref):
    """from the reference point; from its mirror image for a panel below the water"""
    return S.arr([cp[0] - ref[0], cp[1] - ref[1], cp[2] - ref[2] if cp[2] > 0 else cp[2] + ref[2]])


def total(S, xs):
    return sum(xs, S.arr([0, 0, 0]))


def table(df):
    """integral table as a dictionary"""
    q, v = list(df['Quantity']), list(df['Value'])
    return q, dict(zip(q, v))
