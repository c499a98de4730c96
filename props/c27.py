"""C27 result tables."""
import contextlib
import os
import tempfile
import types

from symv.harness import scenario
from .c17 import above, flip
from .c22 import Wind
from .flow import NAMES, csys, results, stub, table, total

P = 'C27'


def turned(S, label, deg, v, off=0):
    """deg (+ off) is the direction of v in the horizontal plane, in the right quadrant"""
    h = S.np.sqrt(v[0] * v[0] + v[1] * v[1])
    S.eq(label, [S.cos(deg + off) * h, S.sin(deg + off) * h], [v[0], v[1]])


@scenario(P, [dict(sails=1, n=1), dict(sails=1, n=2), dict(sails=2, n=1), dict(sails=2, n=2), dict(sails=3, n=1), dict(sails=1, n=5)], thorough=[dict(sails=2, n=6), dict(sails=3, n=3)])
def flow_table(S, sails, n):
    cs = csys(S)
    st, m = stub(S, sails, n, cs)
    k = 2 * sails * n
    for i in range(k):
        S.assume(m.V_app_fs_at_cp[i][0] ** 2 + m.V_app_fs_at_cp[i][1] ** 2 > S.num('0.0001'))
    r = results(S, st, cs, m)
    df = r.to_df_full()
    c = lambda q: list(df[q])
    S.same('rows', len(df), k)
    check_flow(S, df, range(k), m, r, cs)
    S.same('columns', len(df.columns), 21)


def check_flow(S, df, rows, m, r, cs):
    c = lambda q: list(df[q])
    F3 = [('V_induced_COG', m.V_induced_at_cp), ('V_app_fs_COG', m.V_app_fs_at_cp), ('F_sails_COG', m.force), ('M_sails_COG', r.M_xyz), ('F_sails_COW', r.F_centerline)]
    for j, i in enumerate(rows):
        for nm, v in F3:
            S.eq(nm, [c(nm + '.' + a)[j] for a in 'xyz'], v[i])
        S.eq('circulation', c('Circulation_magnitude')[j], m.gamma_magnitude[i])
        S.eq('pressure', c('Pressure')[j], m.pressure[i])
        S.eq('induced speed', c('V_induced_length')[j], S.norm(m.V_induced_at_cp[i]))
        S.eq('apparent speed', c('V_app_fs_length')[j], S.norm(m.V_app_fs_at_cp[i]))
        turned(S, 'angle to the course', c('AWA_fs_COG_deg')[j], m.V_app_fs_at_cp[i])
        S.eq('angle to the centreline', c('AWA_fs_COW_deg')[j], c('AWA_fs_COG_deg')[j] - cs.leeway_deg)


@scenario(P)
def angle_range(S):
    """the angle to the course is given between -180 and 180 degrees (to a tenth of a degree)"""
    cs = csys(S, S.num(0))
    st, m = stub(S, 1, 1, cs)
    a = list(results(S, st, cs, m).to_df_full()['AWA_fs_COG_deg'])
    for x in a:
        S.le('from', S.num('-180.1'), x)
        S.le('to', x, S.num('180.1'))


class Writer:
    """stand-in for the spreadsheet writer: records the tables it is given, writes nothing"""
    log = None

    def __init__(self, path, *a, **k):
        self.there = os.path.isdir(os.path.dirname(str(path)) or '.')
        self.path, self.sheets, self.book = path, {}, types.SimpleNamespace(add_format=lambda *a, **k: None)
        Writer.log.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def scratch(*folders):
    """run in an empty directory that holds these folders, and remove it"""
    was = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            for f in folders:
                os.mkdir(f)
            yield
        finally:
            os.chdir(was)


@contextlib.contextmanager
def recorded(S, *folders):
    """save_results_to_file without a file, in a directory that holds these folders"""
    import pandas as pd
    su = S.mod('results.save_utils')
    Writer.log = []
    tables = {}

    def to_excel(self, writer, *a, sheet_name='Sheet1', **k):
        tables[sheet_name] = (self, k)
        nop = lambda *a, **k: None
        writer.sheets[sheet_name] = types.SimpleNamespace(set_column=nop, conditional_format=nop)
    keep = (pd.ExcelWriter, pd.DataFrame.to_excel)
    pd.ExcelWriter, pd.DataFrame.to_excel = Writer, to_excel
    try:
        with scratch(*folders):
            yield su, tables
    finally:
        pd.ExcelWriter, pd.DataFrame.to_excel = keep


def heeled(S, sails, n):
    """solution whose load points are upright points moved with the yacht, and their mirror images"""
    h, l = S.deg('heel', -60, 60, wide=(-180, 180)), S.deg('leeway', -60, 60, wide=(-180, 180))
    cs = csys(S, h, l)
    st, m = stub(S, sails, n, cs)
    k = sails * n
    up = [S.arr([S.real('ux%d' % i), S.real('uy%d' % i, -3, 3, wide=(-100, 100)), S.real('uz%d' % i, 0.2, 30, wide=(0.01, 200))]) for i in range(k)]
    cp = [above(S, p, h, l) for p in up]
    for p in cp:
        S.assume(p[2] > 0)
    m.cp = S.arr(cp + [flip(S, p) for p in cp])
    for q in range(sails):
        z = [p[2] for p in up[q * n:(q + 1) * n]]
        S.assume(S.np.max(S.arr(z)) > st.sails[q].tack_mounting[2] + S.num('0.01'))
    return cs, st, m, up


@scenario(P, [dict(sails=1, n=1), dict(sails=1, n=2), dict(sails=2, n=1), dict(sails=2, n=2), dict(sails=3, n=1), dict(sails=3, n=2), dict(sails=2, n=3), dict(sails=1, n=4)], thorough=[dict(sails=3, n=3), dict(sails=2, n=4)])
def heights_and_names(S, sails, n):
    cs, st, m, up = heeled(S, sails, n)
    af = S.mod('solver.additional_functions')
    g, straight = af.get_cp_z_as_girths_all(st, cs, m.cp)
    ga, names = af.get_cp_z_as_girths_all_above(g, st)
    S.same('count', (len(g), len(straight), len(ga), len(names)), (2 * sails * n, 2 * sails * n, sails * n, sails * n))
    for q in range(sails):
        zt = st.sails[q].tack_mounting[2]
        z = [up[q * n + j][2] for j in range(n)]
        top = S.np.max(S.arr(z))
        for j in range(n):
            i = q * n + j
            S.eq('fraction of the luff', ga[i], (z[j] - zt) / (top - zt))
            S.eq('straight yacht', straight[2 * q * n + j], up[i])
            S.eq('straight yacht, image', straight[(2 * q + 1) * n + j], flip(S, up[i]))
            S.same('sail', str(names[i]), st.sails[q].name)


@scenario(P, [dict(sails=1, n=1, wind='flat'), dict(sails=1, n=2, wind='flat', folder='new'), dict(sails=2, n=1, wind='exponential'), dict(sails=2, n=2, wind='flat'), dict(sails=3, n=1, wind='flat'), dict(sails=1, n=1, wind='logarithmic')],
          thorough=[dict(sails=2, n=2, wind='exponential'), dict(sails=3, n=2, wind='flat')])
def saved_tables(S, sails, n, wind, folder='there'):
    cs, st, m, up = heeled(S, sails, n)
    k = sails * n
    w = Wind(S, wind)
    for i in range(k):
        if wind != 'flat':
            S.assume(abs(m.cp[i][2]) > w.lo)
        S.assume(m.V_app_fs_at_cp[i][0] ** 2 + m.V_app_fs_at_cp[i][1] ** 2 > S.num('0.0001'))
    m.inlet_conditions = S.mod('inlet.inlet_conditions').InletConditions(w.w, S.pos('rho'), m.cp)
    r = results(S, st, cs, m)
    with recorded(S, *(['out'] if folder == 'there' else [])) as (su, tables):
        comp, integ, inlet = su.save_results_to_file(m, cs, r, st, 'out', 'case')
        S.same('one file', [os.path.normpath(str(x.path)) for x in Writer.log], ['out/case.xlsx'])
        S.true('the folder is there to save into', all(x.there for x in Writer.log))
    S.same('rows', len(comp), k)
    S.same('column names differ', len(set(comp.columns)), len(comp.columns))
    check_flow(S, comp, range(k), m, r, cs)
    c = lambda q: list(comp[q])
    ic = m.inlet_conditions
    for i in range(k):
        S.eq('load point', [c('cp_points_COG.' + a)[i] for a in 'xyz'], m.cp[i])
        S.eq('true wind', [c('TWS_COG.' + a)[i] for a in 'xyz'], ic.tws_at_cp[i])
        S.eq('true wind speed', c('TWS_length')[i], ic.tws_length_at_ctr_points[i])
        S.eq('undisturbed apparent wind', [c('V_app_infs_COG.' + a)[i] for a in 'xyz'], ic.V_app_infs[i])
        S.eq('undisturbed apparent speed', c('V_app_infs_length')[i], ic.V_app_infs_length[i])
        S.eq('undisturbed angle', c('AWA_infs_COG_deg')[i], ic.AWA_infs_deg[i])
        S.eq('undisturbed angle to the centreline', c('AWA_infs_COW_deg')[i], ic.AWA_infs_deg[i] - cs.leeway_deg)
        S.eq('upright height', c('cp_points_upright.z')[i], up[i][2])
        q = i // n
        zt = st.sails[q].tack_mounting[2]
        top = S.np.max(S.arr([up[q * n + j][2] for j in range(n)]))
        S.eq('fraction of the luff', c('girths')[i], (up[i][2] - zt) / (top - zt))
        S.same('sail', str(c('sail_name')[i]), st.sails[q].name)
    S.true('components saved', tables['Components'][0] is comp or tables['Components'][0].equals(comp))
    S.true('integrals saved', tables['Integrals'][0] is integ)
    S.true('inlet saved', tables['IC_at_reference_height'][0] is inlet)
    q, t = table(integ)
    S.eq('total force listed', [t['F_sails_total_COG.' + a] for a in 'xyz'], total(S, [m.force[i] for i in range(k)]))


@scenario(P, [dict(sails=1), dict(sails=2), dict(sails=3)])
def integral_table(S, sails):
    cs = csys(S)
    st, m = stub(S, sails, 1, cs)
    r = results(S, st, cs, m)
    q, t = table(r.to_df_integral())
    S.same('headings differ', len(set(q)), len(q))
    S.same('headings', len(q), 13 + 6 * sails)
    vecs = [('F_sails_total_COG', 'xyz', r.F_xyz_total), ('F_sails_total_COW', 'xyz', r.F_centerline_total),
            ('M_sails_total_COG', 'xyz', r.M_total_above_water_in_xyz_csys),
            ('M_sails_total_COW', ['x (heel)', 'y (pitch)', 'z (yaw)'], r.M_total_above_water_in_centerline_csys)]
    for nm, sub, v in vecs:
        S.eq('total', [t['%s.%s' % (nm, a)] for a in sub], v)
    S.eq('opposite yaw', t['M_sails_total_COW.z (yaw - JG sign)'], -r.M_total_above_water_in_centerline_csys[2])
    for i, s in enumerate(st.sails):
        for w in 'FM':
            S.eq('per sail', [t['%s_%s_total_COG.%s' % (w, s.name, a)] for a in 'xyz'], [r.F_xyz, r.M_xyz][w == 'M'][i])
