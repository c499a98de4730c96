"""C34 command-line run."""
import contextlib
import io
import os
import sys
import types

from symv import loader
from symv.harness import scenario
from .c17 import above, flip
from .c27 import Writer, recorded

P = 'C34'
PLOTTER = 'pySailingVLM.solver.panels_plotter'


def fake_plotter(log):
    """stand-in for the plotting module: records what it is asked to draw"""
    m = types.ModuleType(PLOTTER)

    def display_panels_xyz_and_winds(vlm, inviscid_flow_results, inlet_condition, hull, show_plot=True, show_induced_wind=False, is_sailopt_mode=False):
        log.append(('view', vlm, inviscid_flow_results, inlet_condition, hull, is_sailopt_mode))

    def plot_cp(mesh, p_coeffs, path_to_save):
        log.append(('cp', mesh, p_coeffs, path_to_save))

    def plot_section_coeff(x_data, y_data, file_name, coeff_name, colors=None, *a, **k):
        log.append(('section', x_data, y_data, file_name, coeff_name))
    m.display_panels_xyz_and_winds, m.plot_cp, m.plot_section_coeff = display_panels_xyz_and_winds, plot_cp, plot_section_coeff
    return m


@contextlib.contextmanager
def swapped(d, key, value):
    had, old = key in d, d.get(key)
    if value is None:
        d.pop(key, None)
    else:
        d[key] = value
    try:
        yield
    finally:
        if had:
            d[key] = old
        else:
            d.pop(key, None)


def run(S, args, plots=False):
    """main() of the command line with `args` as its variables file; what it drew, saved, copied and printed"""
    import shutil
    log, copies, out = [], [], io.StringIO()
    cli = 'pySailingVLM.runner.cli'
    mods = loader._mods if S.symbolic else sys.modules
    vr = types.ModuleType('variables')
    for k, v in args.items():
        setattr(vr, k, v)
    with contextlib.ExitStack() as st:
        if not plots:  # else the plotting module itself draws
            st.enter_context(swapped(mods, PLOTTER, fake_plotter(log)))
        st.enter_context(swapped(mods, cli, None))
        st.enter_context(swapped(sys.modules, 'variables', vr))
        su, tables = st.enter_context(recorded(S))
        path0, argv0, copy0 = list(sys.path), sys.argv, (shutil.copy, shutil.copyfile, shutil.copy2)

        def rec(a, b, **k):
            S.true('the folder is there to copy into', os.path.isdir(os.path.dirname(str(b))))
            copies.append((a, b))
        sys.argv, shutil.copy, shutil.copyfile, shutil.copy2 = ['pySailingVLM', '--dvars', '/nonexistent'], rec, rec, rec
        try:
            m = S.mod('runner.cli')
            with contextlib.redirect_stdout(out):
                m.main()
        finally:
            sys.argv = argv0
            sys.path[:] = path0
            shutil.copy, shutil.copyfile, shutil.copy2 = copy0
        files = [w.path for w in Writer.log]
    return types.SimpleNamespace(log=log, copies=copies, text=out.getvalue(), tables=tables, files=files)


def case(S, what, nc, ns, wind='flat', heel=True):
    """every input of a run, with free numbers"""
    g = S.arr([0, 1])
    two = lambda k, lo, hi: S.arr([S.real(k + '0', lo, hi), S.real(k + '1', lo, hi)])
    z = S.num(0)
    sails = {}
    for k in ('m', 'j'):
        sails[k] = dict(girths=g, chords=two(k + 'c', 1, 4), camber=S.arr([0, 0]), camber_distance_from_luff=S.arr([0.5, 0.5]),
                        centerline_twist_deg=S.arr([0, 0]))
    return dict(
        output_args=dict(case_name='case.py', case_dir='/where', name='results', file_name='numbers'),
        solver_args=dict(n_spanwise=ns, n_chordwise=nc, interpolation_type='linear'),
        conditions_args=dict(leeway_deg=S.deg('leeway', -30, 30, wide=(-180, 180)) if heel else z, heel_deg=S.deg('heel', -30, 30, wide=(-180, 180)) if heel else z,
                             SOG_yacht=S.real('sog', 0.5, 5), tws_ref=S.real('tws', 1, 10),
                             alpha_true_wind_deg=S.deg('twa', 20, 160), reference_water_level_for_wind_profile=S.num(-1), wind_exp_coeff=S.num(1),
                             wind_reference_measurment_height=S.num(10), rho=S.pos('rho', 3), wind_profile=wind, roughness=S.num('0.01')),
        rig_args=dict(main_sail_luff=S.real('ml', 8, 12), jib_luff=S.real('jl', 8, 10), foretriangle_height=S.num(12), foretriangle_base=S.num(5),
                      sheer_above_waterline=S.real('sheer', 0.5, 2), boom_above_sheer=S.real('boom', 0.1, 2), rake_deg=S.num(90), mast_LOA=S.real('mast', 0, 0.5),
                      sails_def=what),
        main_sail_args=sails['m'], jib_sail_args=sails['j'],
        csys_args=dict(reference_level_for_moments=S.vec('ref')),
        keel_args=dict(center_of_lateral_resistance_upright=S.vec('clr')))


def reference(S, a):
    """the same run, put together from the public parts"""
    C, o = S.mod('runner.container'), types.SimpleNamespace()
    c = a['conditions_args']
    o.cs = S.mod('rotations.csys_transformations').CSYS_transformations(c['heel_deg'], c['leeway_deg'], a['csys_args']['reference_level_for_moments'])
    solver, rig = C.Solver(**a['solver_args']), C.Rig(**a['rig_args'])
    sl = S.mod('runner.sail')
    o.set = sl.Sail(solver, rig, C.MainSail(**a['main_sail_args']), C.JibSail(**a['jib_sail_args']), o.cs).sail_set
    w = sl.Wind(C.Conditions(**c)).profile
    o.vlm = S.mod('solver.vlm').Vlm(o.set.panels, a['solver_args']['n_chordwise'], a['solver_args']['n_spanwise'], c['rho'], w,
                                    o.set.trailing_edge_info, o.set.leading_edge_info)
    o.hull = S.mod('yacht_geometry.hull_geometry').HullGeometry(rig.sheer_above_waterline, rig.foretriangle_base, o.cs,
                                                                a['keel_args']['center_of_lateral_resistance_upright'])
    o.res = S.mod('results.inviscid_flow').InviscidFlowResults(o.set, o.cs, o.vlm)
    o.res.estimate_heeling_moment_from_keel(o.hull.center_of_lateral_resistance)
    o.plot = S.mod('solver.coefs').get_data_for_coeff_plot(o.vlm, solver)
    with recorded(S) as (su, tables):
        o.tables = su.save_results_to_file(o.vlm, o.cs, o.res, o.set, 'results', 'numbers')
    return o


def same_table(S, label, a, b):
    S.same(label + ' headings', list(a.columns), list(b.columns))
    S.same(label + ' rows', len(a), len(b))
    for k in b.columns:
        x, y = list(a[k]), list(b[k])
        if y and isinstance(y[0], str):
            S.same('%s: %s' % (label, k), [str(q) for q in x], [str(q) for q in y])
        else:
            S.eq('%s: %s' % (label, k), x, y)


def one(S, r, kind):
    c = [x for x in r.log if x[0] == kind]
    S.same('drawn once: ' + kind, len(c), 1)
    return c[0]


def check(S, r, o):
    _, vlm, res, inlet, hull, mode = one(S, r, 'view')
    S.eq('panels', vlm.panels, o.vlm.panels)
    S.eq('load points', vlm.cp, o.vlm.cp)
    S.eq('circulation', vlm.gamma_magnitude, o.vlm.gamma_magnitude)
    S.eq('wind', inlet.V_app_infs, o.vlm.inlet_conditions.V_app_infs)
    S.eq('pressure coefficients', vlm.p_coeffs, o.vlm.p_coeffs)
    S.eq('force', res.F_xyz_total, o.res.F_xyz_total)
    S.eq('moment', res.M_total_above_water_in_xyz_csys, o.res.M_total_above_water_in_xyz_csys)
    for k in ('deck_centerline', 'deck_port_line', 'deck_starboard_line_underwater'):
        S.eq('hull', getattr(hull, k), getattr(o.hull, k))
    S.eq('lateral resistance', hull.center_of_lateral_resistance, o.hull.center_of_lateral_resistance)
    S.eq('keel', res.M_xyz_underwater_estimate_total, o.res.M_xyz_underwater_estimate_total)
    _, mesh, pc, where = one(S, r, 'cp')
    S.eq('mesh drawn', mesh, o.set.zero_mesh)
    S.eq('pressure coefficients drawn', pc, o.vlm.p_coeffs)
    z, cl, cd = o.plot
    sec = {x[4]: x for x in r.log if x[0] == 'section'}
    S.same('section plots', sorted(sec), ['drag', 'lift'])
    for nm, d in (('lift', cl), ('drag', cd)):
        S.same('sails drawn', (len(sec[nm][1]), len(sec[nm][2])), (len(d), len(d)))
        for q in range(len(d)):
            S.eq(nm + ' drawn', sec[nm][1][q], d[q])
            S.eq(nm + ' heights drawn', sec[nm][2][q], z[q])
    S.same('one file', r.files, ['results/numbers.xlsx'])
    comp, integ, ic = o.tables
    same_table(S, 'components', r.tables['Components'][0], comp)
    same_table(S, 'integrals', r.tables['Integrals'][0], integ)
    same_table(S, 'inlet', r.tables['IC_at_reference_height'][0], ic)
    S.true('integrals printed', all(str(q) in r.text for q in integ['Quantity']))
    S.same('case file copied', [(a.replace('//', '/'), b.rstrip('/') in ('results', 'results/case.py')) for a, b in r.copies], [('/where/case.py', True)])
    S.same('output folder of the plots', sorted({where} | {x[3] for x in sec.values()}), ['results'])


class Recorder:
    """stand-in for the solver: records what it is given and answers with free loads at free load points (moved with the yacht)"""

    def __init__(self, S, up, h, l):
        self.S, self.up, self.h, self.l, self.calls = S, up, h, l, []

    def __call__(self, panels, n_chordwise, n_spanwise, rho, wind_profile, trailing_edge_info, leading_edge_info, gamma_orientation=-1.0):
        S, n = self.S, len(panels)
        self.calls.append((panels, n_chordwise, n_spanwise, rho, wind_profile, [bool(x) for x in trailing_edge_info],
                           [bool(x) for x in leading_edge_info], gamma_orientation))
        cp = [above(S, p, self.h, self.l) for p in self.up]
        m = types.SimpleNamespace(panels=panels, n_chordwise=n_chordwise, n_spanwise=n_spanwise, rho=rho)
        m.cp = S.arr(cp + [flip(S, p) for p in cp])
        m.inlet_conditions = S.mod('inlet.inlet_conditions').InletConditions(wind_profile, rho, m.cp)
        rows = lambda q: S.arr([[S.real('%s%d%s' % (q, i, a), 0.1, 5) for a in 'xyz'] for i in range(n)])
        col = lambda q: S.arr([S.real('%s%d' % (q, i), 0.1, 5) for i in range(n)])
        m.gamma_magnitude, m.pressure, m.p_coeffs, m.areas = (col(q) for q in ('gam', 'pr', 'pc', 'ar'))
        m.V_induced_at_cp, m.V_app_fs_at_cp, m.force, m.lift, m.drag = (rows(q) for q in ('vi', 'va', 'fo', 'li', 'dr'))
        return m


@scenario(P, [dict(what='main', nc=1, ns=1, wind='flat'), dict(what='jib', nc=1, ns=1, wind='exponential'), dict(what='jib', nc=1, ns=2, wind='logarithmic'),
              dict(what='jib_and_main', nc=2, ns=1, wind='flat')], thorough=[dict(what='jib_and_main', nc=1, ns=2, wind='exponential')], whole=[dict(what='jib', nc=1, ns=2, wind='logarithmic')], max_paths=400)
def every_stage(S, what, nc, ns, wind):
    """all of the configuration free; the solver is replaced by free loads"""
    a = case(S, what, nc, ns, wind)
    c = a['conditions_args']
    h, l = c['heel_deg'], c['leeway_deg']
    k = nc * ns * (2 if 'and' in what else 1)
    up = [S.arr([S.real('ux%d' % i), S.num(0), S.real('uz%d' % i, 5, 12)]) for i in range(k)]
    with contextlib.ExitStack() as st:
        rec = Recorder(S, up, h, l)
        st.enter_context(swapped(S.mod('solver.vlm').__dict__, 'Vlm', rec))
        r = run(S, a)
        S.same('solved once', len(rec.calls), 1)
        o = reference(S, a)
    got, want = rec.calls
    for i, nm in ((0, 'panels'), (1, 'panels along the chord'), (2, 'panels along the span'), (3, 'density'), (7, 'orientation')):
        S.eq(nm + ' solved', got[i], want[i])
    S.same('edges', got[5:7], want[5:7])
    w, v = got[4], want[4]
    S.same('profile', type(w).__name__, type(v).__name__)
    z = S.real('height', 0.1, 30)
    S.eq('wind solved', w.get_true_wind_speed_at_h(z), v.get_true_wind_speed_at_h(z))
    check(S, r, o)


@scenario(P, [dict(what='main', nc=1, ns=1, wind='flat')], thorough=[dict(what='jib', nc=1, ns=2, wind='flat')])
def whole_run(S, what, nc, ns, wind):
    """with the solver, for an upright flat sail; wind, density, reference point and keel free"""
    S.abstract_filaments()
    a = case(S, what, nc, ns, wind, heel=False)
    for k, v in (('main_sail_luff', 9), ('jib_luff', 9), ('sheer_above_waterline', 1), ('boom_above_sheer', 1), ('mast_LOA', 0.25)):
        a['rig_args'][k] = S.num(v)
    for k in ('main_sail_args', 'jib_sail_args'):
        a[k]['chords'] = S.arr([3, 2])
    r = run(S, a)
    check(S, r, reference(S, a))


@scenario(P)
def configuration_of_the_run(S):
    """a second run with another configuration uses nothing of the first"""
    a = case(S, 'main', 1, 1)
    b = case(S, 'jib', 1, 1)
    b['conditions_args'] = dict(b['conditions_args'], heel_deg=S.deg('heel2', -30, 30, wide=(-180, 180)), leeway_deg=S.deg('leeway2', -30, 30, wide=(-180, 180)), rho=S.pos('rho2', 3))
    b['csys_args'] = dict(reference_level_for_moments=S.vec('ref2'))
    b['keel_args'] = dict(center_of_lateral_resistance_upright=S.vec('clr2'))
    up = [S.arr([S.real('ux'), S.num(0), S.real('uz', 5, 12)])]
    for q in (a, b):
        c = q['conditions_args']
        with swapped(S.mod('solver.vlm').__dict__, 'Vlm', Recorder(S, up, c['heel_deg'], c['leeway_deg'])):
            r = run(S, q)
            o = reference(S, q)
    check(S, r, o)
