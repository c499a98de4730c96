"""C30 configurations."""
import itertools

from symv.harness import scenario
from .c18 import csys, twist_angles

P = 'C30'


def refused(S, fn, *a, **k):
    """the call raises or exits"""
    try:
        r, e = S.call(fn, *a, **k)
    except SystemExit:
        return True
    return e is not None


def wind_args(S, profile):
    return dict(leeway_deg=S.deg('lee', -20, 20, wide=(-180, 180)), heel_deg=S.deg('heel', -40, 40, wide=(-180, 180)), SOG_yacht=S.real('sog', 0, 10), tws_ref=S.real('tws', 1, 20),
                alpha_true_wind_deg=S.deg('twa', 0, 180), reference_water_level_for_wind_profile=S.real('lv', -2, 0), wind_exp_coeff=S.real('e', 0, 1),
                wind_reference_measurment_height=S.real('H', 2, 20), rho=S.pos('rho'), wind_profile=profile, roughness=S.real('r', 0.001, 1))


NEEDS = {'exponential': ['wind_exp_coeff', 'wind_reference_measurment_height'], 'logarithmic': ['roughness', 'wind_reference_measurment_height'], 'flat': []}


@scenario(P, [dict(profile=p) for p in NEEDS])
def complete_wind(S, profile):
    """accepted, and the profile uses exactly the configured parameters"""
    C, R = S.mod('runner.container'), S.mod('runner.sail')
    a = wind_args(S, profile)
    w, e = S.call(R.Wind, C.Conditions(**a))
    S.true('accepted', e is None)
    p = w.profile
    S.same('profile', type(p).__name__, {'exponential': 'ExpWindProfile', 'logarithmic': 'LogWindProfile', 'flat': 'FlatWindProfile'}[profile])
    h = S.real('h', 1, 40)
    v = p.get_true_wind_speed_at_h(h)
    H, r = a['wind_reference_measurment_height'], a['roughness']
    k = {'exponential': lambda: pow((h - a['reference_water_level_for_wind_profile']) / H, a['wind_exp_coeff']),
         'logarithmic': lambda: S.np.log(h / r) / S.np.log(H / r), 'flat': lambda: 1}[profile]()
    d = a['alpha_true_wind_deg']
    S.eq('true wind', v, a['tws_ref'] * k * S.arr([S.cos(d), S.sin(d), 0]))
    S.eq('boat speed', p.get_app_infs_at_h(v) - v, [a['SOG_yacht'], 0, 0])


@scenario(P, [dict(profile=p, missing=m) for p in NEEDS for m in NEEDS[p]])
def incomplete_wind(S, profile, missing):
    C, R = S.mod('runner.container'), S.mod('runner.sail')
    a = wind_args(S, profile)
    a[missing] = None
    S.true('refused', refused(S, R.Wind, C.Conditions(**a)))


@scenario(P, [dict(profile=p) for p in ('uniform', 'Exponential', 'log', 'power', '', None, 'exponential ')])
def unknown_wind(S, profile):
    C, R = S.mod('runner.container'), S.mod('runner.sail')
    S.true('refused', refused(S, R.Wind, C.Conditions(**wind_args(S, profile))))


@scenario(P, [dict(profile='exponential', unused='roughness'), dict(profile='logarithmic', unused='wind_exp_coeff')])
def unused_parameter_may_be_missing(S, profile, unused):
    C, R = S.mod('runner.container'), S.mod('runner.sail')
    a = wind_args(S, profile)
    a[unused] = None
    w, e = S.call(R.Wind, C.Conditions(**a))
    S.true('accepted', e is None)


# ---- sails
def stations(n):
    return [0.0, 1.0] if n == 2 else [i / (n - 1) for i in range(n)]


def sail_args(S, tag, n=2):
    A = lambda k, lo, hi: S.arr([S.real('%s%s%d' % (tag, k, i), lo, hi) for i in range(n)])
    return dict(girths=S.arr(stations(n)), chords=A('c', 1, 4), camber=S.arr([0] * n), camber_distance_from_luff=S.arr([0.5] * n), centerline_twist_deg=S.arr([0] * n))


def rig_args(S, what):
    return dict(main_sail_luff=S.real('ml', 8, 12), jib_luff=S.real('jl', 8, 10), foretriangle_height=S.num(12), foretriangle_base=S.num(5),
                sheer_above_waterline=S.real('sheer', 0.5, 2), boom_above_sheer=S.real('boom', 0.1, 2), rake_deg=S.num(90), mast_LOA=S.real('mast', 0, 0.5), sails_def=what)


def build(S, what, main, jib, rig=None, **solver):
    """sail set of a configuration, or a refusal at any stage of it"""
    C, R = S.mod('runner.container'), S.mod('runner.sail')
    cs = csys(S, S.num(0), S.num(0))
    sol = dict(n_spanwise=1, n_chordwise=1, interpolation_type='linear')
    sol.update(solver)

    def go():
        return R.Sail(C.Solver(**sol), C.Rig(**(rig or rig_args(S, what))), main, jib, cs).sail_set
    return attempt(S, go)


def attempt(S, go):
    try:
        return S.call(go)
    except SystemExit:
        return None, 'exit'


def define(S, what, main, jib, rig=None):
    """the sail definition alone, before any geometry"""
    C, R = S.mod('runner.container'), S.mod('runner.sail')
    cs = csys(S, S.num(0), S.num(0))
    return attempt(S, lambda: R.Sail(C.Solver(n_spanwise=1, n_chordwise=1, interpolation_type='linear'), C.Rig(**(rig or rig_args(S, what))), main, jib, cs))


def both(S, n=2):
    C = S.mod('runner.container')
    return C.MainSail(**sail_args(S, 'm', n)), C.JibSail(**sail_args(S, 'j', n))


@scenario(P, [dict(what=w, n=n) for w in ('main', 'jib', 'jib_and_main') for n in (2, 3, 5, 8)])
def complete_sails(S, what, n):
    main, jib = both(S, n)
    st, e = build(S, what, main, jib)
    S.true('accepted', e is None)
    names = {'jib': ['jib'], 'main': ['main_sail'], 'jib_and_main': ['jib', 'main_sail']}[what]
    S.same('sails', [s.name for s in st.sails], names)
    S.same('panels', len(st.panels), 2 * len(names))
    for k, nm in enumerate(names):
        src = jib if nm == 'jib' else main
        q = st.panels[k]
        S.eq('foot', q[0][0] - q[1][0], src.chords[0])
        S.eq('head', q[3][0] - q[2][0], src.chords[n - 1])


ARRAYS = ['girths', 'camber', 'camber_distance_from_luff', 'chords']


def missing_cases():
    out = []
    for what in ('main', 'jib', 'jib_and_main'):
        for s in ('main', 'jib'):
            if what in (s, 'jib_and_main'):
                out += [dict(what=what, sail=s, missing=m) for m in ARRAYS + ['centerline_twist_deg']]
    return out


@scenario(P, missing_cases())
def missing_station_array(S, what, sail, missing):
    main, jib = both(S)
    setattr(main if sail == 'main' else jib, missing, None)
    if missing != 'chords':
        S.true('refused at once', define(S, what, main, jib)[1] is not None)
    st, e = build(S, what, main, jib)
    S.true('refused', e is not None)


RIG = {'main': ['main_sail_luff'], 'jib': ['jib_luff', 'foretriangle_base', 'foretriangle_height']}


@scenario(P, [dict(what=w, missing=m) for w in ('main', 'jib', 'jib_and_main') for s in ('main', 'jib') if w in (s, 'jib_and_main') for m in RIG[s]])
def missing_rig_value(S, what, missing):
    main, jib = both(S)
    r = rig_args(S, what)
    r[missing] = None
    S.true('refused at once', define(S, what, main, jib, rig=r)[1] is not None)
    st, e = build(S, what, main, jib, rig=r)
    S.true('refused', e is not None)


@scenario(P, [dict(what=w, sail=s, odd=o, n=n) for w in ('main', 'jib', 'jib_and_main') for s in ('main', 'jib') if w in (s, 'jib_and_main')
              for o in ['girths', 'camber', 'camber_distance_from_luff', 'centerline_twist_deg', 'chords'] for n in (1, 2, 4, 6)])
def station_arrays_of_different_length(S, what, sail, odd, n):
    main, jib = both(S, 3)
    s = main if sail == 'main' else jib
    v = sail_args(S, 'odd%d' % n, n)[odd] if n > 1 else S.arr([0.5])
    setattr(s, odd, v)
    if odd != 'chords':
        S.true('refused at once', define(S, what, main, jib)[1] is not None)
    st, e = build(S, what, main, jib)
    S.true('refused', e is not None)


@scenario(P, [dict(what='main', other='jib'), dict(what='jib', other='main')])
def unused_sail_may_be_incomplete(S, what, other):
    main, jib = both(S)
    o = main if other == 'main' else jib
    o.camber = None
    r = rig_args(S, what)
    st, e = build(S, what, main, jib, rig=r)
    S.true('accepted', e is None)


@scenario(P, [dict(what='main'), dict(what='jib')])
def unused_sail_may_be_absent(S, what):
    main, jib = both(S)
    st, e = build(S, what, main if what == 'main' else None, jib if what == 'jib' else None)
    S.true('accepted', e is None)


@scenario(P, [dict(kind=k, n=n) for k in ('MainSail', 'JibSail') for n in (1, 2, 5)])
def default_twist_follows_girths(S, kind, n):
    C = S.mod('runner.container')
    g = S.arr([S.real('g%d' % i, 0, 1) for i in range(n)])
    x = getattr(C, kind)(girths=g)
    a, b = {'MainSail': (12, 5), 'JibSail': (15, 7)}[kind]
    S.eq('twist', x.centerline_twist_deg, [a * q + b for q in g])
    t = S.arr([S.real('t%d' % i, -5, 30) for i in range(n)])
    S.eq('given twist kept', getattr(C, kind)(girths=g, centerline_twist_deg=t).centerline_twist_deg, t)
    S.eq('given girths kept', x.girths, g)


@scenario(P, [dict(kind=k) for k in ('MainSail', 'JibSail', 'Csys', 'Keel', 'Rig', 'Conditions', 'Solver', 'Output')])
def defaults_are_not_shared(S, kind):
    import dataclasses
    K = getattr(S.mod('runner.container'), kind)
    v = S.real('v', 1, 9)
    a, b = K(), K()
    for f in dataclasses.fields(K):
        x = getattr(a, f.name)
        if hasattr(x, 'shape'):
            before = [q for q in getattr(b, f.name)]
            for i in range(len(x)):
                x[i] = v if x.dtype == object else 7
            S.eq('untouched', list(getattr(b, f.name)), before)
            S.eq('fresh', list(getattr(K(), f.name)), before)


@scenario(P, [dict(kind='MainSail'), dict(kind='JibSail')])
def default_sails_are_complete(S, kind):
    C = S.mod('runner.container')
    x = getattr(C, kind)()
    n = len(x.girths)
    for k in ('girths', 'chords', 'camber', 'camber_distance_from_luff', 'centerline_twist_deg'):
        S.same('stations of ' + k, len(getattr(x, k)), n)
    a, b = {'MainSail': (12, 5), 'JibSail': (15, 7)}[kind]
    S.eq('twist', x.centerline_twist_deg, [a * q + b for q in x.girths])
    S.eq('first station', x.girths[0], 0)
    S.eq('last station', x.girths[n - 1], 1)
    for i in range(n - 1):
        S.true('rising stations', x.girths[i] < x.girths[i + 1])


@scenario(P, [dict(kind=k) for k in ('MainSail', 'JibSail', 'Csys', 'Keel', 'Rig', 'Conditions', 'Solver', 'Output')])
def given_values_are_kept(S, kind):
    import dataclasses
    K = getattr(S.mod('runner.container'), kind)
    vals = {}
    for f in dataclasses.fields(K):
        vals[f.name] = S.arr([S.real('%s%d' % (f.name, i)) for i in range(3)]) if 'ndarray' in str(f.type) else S.real(f.name)
    x = K(**vals)
    for k, v in vals.items():
        S.eq(k, getattr(x, k), v)


@scenario(P, [dict(mode=m) for m in ('real_twist', 'sheeting_angle_const', 'average_const')])
def solver_settings_reach_the_sails(S, mode):
    """panels along chord and span and the twist mode of the solver settings"""
    C, R = S.mod('runner.container'), S.mod('runner.sail')
    main, jib = both(S)
    main.centerline_twist_deg = S.arr([S.deg('t0', 0, 20), S.deg('t1', 0, 20)])
    sol = C.Solver(n_spanwise=2, n_chordwise=1, interpolation_type='linear')
    sol.LLT_twist = mode
    cs = csys(S, S.num(0), S.num(0))
    st = R.Sail(sol, C.Rig(**rig_args(S, 'main')), main, jib, cs).sail_set
    S.same('panels', len(st.panels), 4)
    t0, t1 = main.centerline_twist_deg
    tw = twist_angles(S, [t0, (t0 + t1) / 2, t1], mode)
    c = [main.chords[0], (main.chords[0] + main.chords[1]) / 2, main.chords[1]]
    for j in range(2):
        for a, b, k in ((0, 1, j), (3, 2, j + 1)):
            d = st.panels[j][a] - st.panels[j][b]
            S.eq('chord turned by its twist', d, [c[k] * S.cos(tw[k]), c[k] * S.sin(tw[k]), 0])
