"""C33 calculations leave their inputs unchanged and repeat identically."""
import types

import numpy

from symv.core import Sym
from symv.harness import scenario
from .c15 import data as stations
from .c22 import Wind
from .c23 import points
from .c27 import recorded
from .c28 import blocks
from .flow import NAMES, results, stub
from .lattice import flags, sail_mesh, sail_set, wind

P = 'C33'


# ---- snapshots: everything an object holds, by value
ATOMS = (str, bytes, int, float, bool, type(None), Sym, numpy.generic)


def leaves(x, path='', seen=None, out=None):
    """[(where, value)] of everything reachable from x through arrays, lists, dictionaries, tables and object attributes"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, ATOMS):
        out.append((path, x))
    elif isinstance(x, numpy.ndarray):
        out.append((path + '.shape', str(x.shape)))
        for i, v in enumerate(x.flat):
            leaves(v, '%s[%d]' % (path, i), seen, out)
    elif hasattr(x, 'columns') and hasattr(x, 'index'):
        out.append((path + '.headings', str(list(x.columns))))
        for c in x.columns:
            leaves(list(x[c]), '%s[%s]' % (path, c), seen, out)
    elif isinstance(x, (list, tuple)):
        out.append((path + '.len', len(x)))
        for i, v in enumerate(x):
            leaves(v, '%s[%d]' % (path, i), seen, out)
    elif isinstance(x, dict):
        out.append((path + '.keys', str(sorted(map(str, x)))))
        for k, v in x.items():
            leaves(v, '%s[%s]' % (path, k), seen, out)
    elif isinstance(x, type) or callable(x) or isinstance(x, types.ModuleType):
        pass
    elif hasattr(x, '__dict__'):
        if id(x) in seen:
            return out
        seen.add(id(x))
        for k in sorted(vars(x)):
            if not k.startswith('_'):                 # what an object keeps to itself is its own business
                leaves(vars(x)[k], '%s.%s' % (path, k), seen, out)
        for c in type(x).__mro__:
            for k, v in vars(c).items():
                if isinstance(v, property) and not k.startswith('_'):
                    leaves(getattr(x, k), '%s.%s' % (path, k), seen, out)
    return out


def same(S, label, a, b):
    """a holds everything b holds, with the same values"""
    a = dict(a)
    S.same(label + ': structure', [p for p, _ in b if p not in a], [])
    num = lambda v: isinstance(v, (Sym, int, float, numpy.number)) and not isinstance(v, (bool, numpy.bool_))
    x, y = [], []
    for p, v in b:
        u = a[p]
        if num(u) and num(v):
            x.append(u)
            y.append(v)
        else:
            S.same('%s: %s' % (label, p), str(u), str(v))
    if x:
        S.eq(label, x, y)


def outcome(S, fn, args):
    """value of the call, or the refusal"""
    try:
        r, e = S.call(fn, *args)
    except SystemExit:
        return 'exit'
    return r if e is None else 'refused: ' + type(e).__name__


def settled(S, fn, args, other=None):
    """inputs stay, result repeats, an earlier result is not overwritten; `other`: arguments of a call in between"""
    before = leaves(args)
    r1 = outcome(S, fn, args)
    s1 = leaves(r1)
    same(S, 'inputs unchanged', leaves(args), before)
    if other is not None:
        outcome(S, fn, other)
        same(S, 'inputs unchanged by another call', leaves(args), before)
    r2 = outcome(S, fn, args)
    same(S, 'inputs unchanged by repetition', leaves(args), before)
    same(S, 'repetition', leaves(r2), s1)
    same(S, 'earlier result kept', leaves(r1), s1)
    return r1


def blends(a, b):
    """argument lists between a and b: one argument changed, one element of one array changed"""
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        if x is y or isinstance(x, (int, str)) and not isinstance(x, Sym) and x == y:
            continue
        put = lambda v: out.append(tuple(a[:i]) + (v,) + tuple(a[i + 1:]))
        if len(a) > 1:
            put(y)
        if isinstance(x, numpy.ndarray) and x.dtype.kind in 'fO' and x.size > 1 and x.shape == y.shape:
            for k in (0, x.size - 1):
                v = x.copy()
                v.reshape(-1)[k] = y.reshape(-1)[k]
                put(v)
    return out


def overwritten(a, b):
    """the arrays of a, filled with the values of b; None where nothing can be filled"""
    done = False
    for x, y in zip(a, b):
        if isinstance(x, numpy.ndarray) and x.dtype.kind in 'fO' and x.size and x.shape == y.shape:
            x[...] = y
            done = True
    if not done:
        return None
    return tuple(x if isinstance(x, numpy.ndarray) else y for x, y in zip(a, b))


def independent(S, make, some=None):
    """a call gives what it gives in a new run of the program, whatever was calculated before with arguments that differ in all or in a
    part, or in the very same arrays; make(t) -> (function, arguments named by t)"""
    pick = lambda a, b: [v for k, v in enumerate([b] + blends(a, b)) if some is None or k in some]
    fn, a = make('a')
    got = []
    for v in pick(a, make('b')[1]):
        outcome(S, fn, a)
        got.append(leaves(outcome(S, fn, v)))
    fn, c = make('a')
    outcome(S, fn, c)
    c = overwritten(c, make('b')[1])
    if c is not None:
        got.append(leaves(outcome(S, fn, c)))
    with S.afresh():
        fn, a = make('a')
        vs = pick(a, make('b')[1])
        ref = [leaves(outcome(S, fn, v)) for v in vs]
        if c is not None:
            ref.append(leaves(outcome(S, fn, overwritten(make('a')[1], make('b')[1]))))
    for x, y in zip(got, ref):
        same(S, 'as in a new run', x, y)


# ---- functions: name -> (function, arguments) with free values named by `t`
def fns(S):
    v, c, f, p, g = (S.mod(q) for q in ('solver.velocity', 'solver.coefs', 'solver.forces', 'solver.panels', 'rotations.geometry_calc'))
    m, a, A = S.mod('solver.mesher'), S.mod('solver.additional_functions'), S.mod('thin_airfoil.vlm_airfoil')
    V = lambda t, n: [S.vec(t + q) for q in n]
    col = lambda t, n, lo=-10, hi=10: S.arr([S.real('%s%d' % (t, i), lo, hi) for i in range(n)])

    def corners(t, n=1):
        return S.arr([[[S.real('%sq%d%d%d' % (t, i, j, k)) for k in range(3)] for j in range(4)] for i in range(n)])

    def apart(x):
        """no vortex core, no degenerate element: those are decided elsewhere"""
        return x

    def load_args(t):
        n = 2
        return (S.mat(t + 'w', n), col(t + 'g', n), S.pos(t + 'rho'), S.mat(t + 'cp', n), corners(t, n), 1, S.mat(t + 'nn', n), S.mat(t + 'sp', n),
                flags([False, True]), flags([True, False]), 'lift', S.num(1))

    def free_wind(t):
        w = S.mat(t + 'w', 2)
        for i in range(2):
            S.assume(S.norm2(w[i]) > S.num('0.01'))
        return w

    def grid(t, r=3, n=3):
        return S.arr([[[S.real('%sm%d%d%d' % (t, i, j, k)) for k in range(3)] for j in range(n)] for i in range(r)])

    def axis(t):
        x = S.vec(t + 'ax')
        S.assume(S.norm2(x) > S.num('0.01'))
        return x
    T = lambda i: flags([False, True]) if i == 2 else flags([True])
    unit = lambda t: S.arr([[1, 0, 0], [0, S.real(t + 'u'), 0]])
    return {
        'segment': (m.discrete_segment, lambda t: (S.vec(t + 'a'), S.vec(t + 'b'), 3 if t == 'a' else 4)),
        'point mesh': (m.make_point_mesh, lambda t: (S.mat(t + 'a', 3), S.mat(t + 'b', 3), 2 if t == 'a' else 3)),
        'airfoil mesh': (m.make_airfoil_mesh, lambda t: (S.mat(t + 'le', 2), [2, 1], S.arr([[S.real(t + 'c0', 1, 3), 0, 0], [S.real(t + 'c1', 1, 3), 0, 0]]),
                                                         S.arr([S.num('0.5'), S.num('0.25')]), col(t + 'cam', 2, 0, 0.3))),
        'panels of a mesh': (p.make_panels_from_mesh_spanwise, lambda t: (grid(t),)),
        'panels of a wing': (p.make_panels_from_le_te_points, lambda t: (V(t, 'abcd'), [2, 1])),
        'areas': (p.get_panels_area, lambda t: (corners(t, 2),)),
        'rotation matrix': (g.rotation_matrix, lambda t: (axis(t), S.ang(t))),
        'rotation about the origin': (g.rotate_points_around_origin_axis, lambda t: (S.mat(t + 'p', 2), axis(t), S.ang(t))),
        'influence': (c.calc_velocity_coefs, lambda t: (S.mat(t + 'w', 2), S.mat(t + 'p', 2), corners(t, 2), S.mat(t + 'n', 2), flags([False, True]), S.num(1))),
        'right-hand side': (c.calculate_RHS, lambda t: (S.mat(t + 'w', 2), S.mat(t + 'n', 2))),
        'linear system': (c.solve_eq, lambda t: (S.arr([[S.real(t + 'a', 2, 5), S.real(t + 'b', -1, 1)], [S.real(t + 'c', -1, 1), S.real(t + 'd', 2, 5)]]), col(t + 'r', 2))),
        'induced velocity': (v.calc_induced_velocity, lambda t: (S.arr([[[S.real('%sv%d%d%d' % (t, i, j, k)) for k in range(3)] for j in range(2)] for i in range(2)]), col(t + 'g', 2))),
        'total velocity': (v.calculate_app_fs, lambda t: (S.mat(t + 'w', 2), S.arr([[[S.real('%sv%d%d%d' % (t, i, j, k)) for k in range(3)] for j in range(2)] for i in range(2)]), col(t + 'g', 2))),
        'loads': (f.calc_force_wrapper, load_args),
        'pressure': (f.calc_pressure, lambda t: (S.mat(t + 'f', 2), S.mat(t + 'n', 2), col(t + 'A', 2, 0.1, 9))),
        'pressure coefficients': (f.calc_pressure_coeff, lambda t: (col(t + 'p', 2), S.pos(t + 'rho'), free_wind(t))),
        'acceptance': (f.is_no_flux_BC_satisfied, lambda t: (S.arr([[0, S.real(t + 'y'), 0]]), corners(t), col(t + 'A', 1, 1, 9), S.arr([[1, 0, 0]]))),
        'moment arms': (f.calc_moment_arm_in_shifted_csys, lambda t: (S.arr([[S.real(t + 'x'), S.real(t + 'y'), S.real(t + 'z', 0.1, 9)], [S.real(t + 'X'), S.real(t + 'Y'), S.real(t + 'Z', -9, -0.1)]]), S.vec(t + 's'))),
        'moments': (f.calc_moments, lambda t: (S.mat(t + 'p', 2), S.mat(t + 'f', 2))),
        'recovered arm': (f.determine_vector_from_its_dot_and_cross_product, lambda t: (axis(t), S.real(t + 'd'), S.vec(t + 'c'))),
        'section coefficients': (c.get_C, lambda t: (S.np.zeros((2, 4, 3)), col(t + 'A', 2, 0.1, 9), S.mat(t + 'f', 2), free_wind(t), 1, 1, S.pos(t + 'rho'))),
        'wing coefficients': (c.get_vlm_CL_CD_free_wing, lambda t: (S.mat(t + 'f', 2), axis(t), S.pos(t + 'rho'), S.pos(t + 'S'))),
        'load coefficients': (c.get_vlm_Cxyz, lambda t: (S.mat(t + 'f', 2), axis(t), S.pos(t + 'rho'), S.pos(t + 'S'))),
        'above water': (a.extract_above_water_quantities, lambda t: (S.mat(t + 'q', 4),)),
        'airfoil': (A.VlmAirfoil, lambda t: (S.real(t + 'm', 0, 0.3), S.num('0.25'), S.real(t + 't', 0, 0.4), 3 if t == 'a' else 4)),
        'lattice of a wing': (c.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points, lambda t: (S.arr(flat_panels(S, t)), S.num(1))),
        'lattice of a sail': (c.calculate_vlm_variables, lambda t: (S.arr(flat_panels(S, t)), flags([False, True]), S.num(-1), 2, 1)),
    }


def flat_panels(S, t):
    """two panels in a strip, with free heights of the corners"""
    q = lambda i, j: [S.num(i), S.real('%sy%d%d' % (t, i, j), -1, 1), S.num(2 * j)]
    return [[q(i + 1, 0), q(i, 0), q(i, 1), q(i + 1, 1)] for i in range(2)]


KIND = ['segment', 'point mesh', 'airfoil mesh', 'panels of a mesh', 'panels of a wing', 'areas', 'rotation matrix', 'rotation about the origin',
        'right-hand side', 'linear system', 'induced velocity', 'total velocity', 'loads', 'pressure', 'pressure coefficients', 'acceptance', 'moment arms',
        'moments', 'recovered arm', 'section coefficients', 'wing coefficients', 'load coefficients', 'above water', 'airfoil', 'lattice of a wing',
        'lattice of a sail', 'influence']


@scenario(P, [dict(what=k) for k in KIND])
def functions(S, what):
    S.abstract_filaments()
    fn, args = fns(S)[what]
    settled(S, fn, args('a'), args('b'))


@scenario(P, [dict(what=k) for k in KIND])
def functions_in_a_new_run(S, what):
    S.abstract_filaments()

    def make(t):
        fn, args = fns(S)[what]
        return fn, args(t)
    independent(S, make)


def tables(S, r):
    """everything a result gives"""
    return [r, r.to_df_full(), r.to_df_integral()]


def parts(S, t):
    """name -> (calculation, arguments named by t), of objects"""
    z = S.num(0)
    C = S.mod('rotations.csys_transformations').CSYS_transformations
    hl = lambda: (S.deg(t + 'heel', -60, 60, wide=(-180, 180)), S.deg(t + 'leeway', -60, 60, wide=(-180, 180)))
    cs = lambda: C(*hl(), S.vec(t + 'ref'))
    up = lambda q: S.arr([S.real(t + q + 'x'), S.real(t + q + 'y'), S.real(t + q + 'z', 0.1, 9)])
    down = lambda q: S.arr([S.real(t + q + 'x'), S.real(t + q + 'y'), S.real(t + q + 'z', -9, -0.1)])
    two = lambda q, lo, hi: S.arr([S.real('%s%s%d' % (t, q, i), lo, hi) for i in range(2)])
    three = lambda q, lo, hi: S.arr([S.real('%s%s%d' % (t, q, i), lo, hi) for i in range(3)])
    W = S.mod('inlet.winds')

    def profile(kind):
        x = (S.deg(t + 'twa'), S.real(t + 'tws', 0, 40), S.real(t + 'sog', 0, 20))
        if kind == 'flat':
            return W.FlatWindProfile(*x)
        if kind == 'exponential':
            return W.ExpWindProfile(*x, exp_coeff=S.num(1), reference_measurment_height=S.real(t + 'H', 5, 20), reference_water_level_for_wind_profile=S.real(t + 'lv', -3, -1))
        return W.LogWindProfile(*x, roughness=S.real(t + 'rough', 0.001, 0.01), reference_measurment_height=S.real(t + 'H', 5, 20))

    def inlet(w, rho, cp):
        c = S.mod('inlet.inlet_conditions').InletConditions(w, rho, cp)
        return c

    def angles(w, rho, cp, cs):
        c = inlet(w, rho, cp)
        for q in c.V_app_infs:
            S.assume(S.norm2(q) > S.num('0.0001'))
        return c.to_df_full(cs)

    def interpolated(kind, x, y, n):
        return S.mod('solver.interpolator').Interpolator(kind).interpolate_girths(x, y, n)

    def station(n):
        return S.arr([0, S.num('0.25' if t == 'a' else '0.375'), S.num('0.5'), S.num('0.75'), 1][:n] if n == 5 else [0, S.num('0.5' if t == 'a' else '0.25'), 1])

    def sail(mode, kind, c, tw, m, d, luff, cs, rake, sheer, spans, chords):
        F = S.mod('yacht_geometry.sail_factory').SailFactory(cs, spans, chords, rake, sheer)
        k = dict(LLT_twist=mode, interpolated_camber=m, interpolated_distance_from_luff=d)
        return F.make_main_sail(luff, S.num(1), c, tw, **k) if kind == 'main' else F.make_jib(luff, S.num(5), S.num(12), c, tw, S.num('0.25'), **k)

    def made(*modes):
        return (modes[0] if t == 'a' else modes[1], 'main' if t == 'a' else 'jib', three('c', 1, 4), S.arr([S.real('%st%d' % (t, i), 7 * i + 1, 7 * i + 6) for i in range(3)]), three('m', 0, 0.2),
                S.arr([S.num('0.5' if t == 'a' else '0.25')] * 3), S.real(t + 'luff', 5, 9), C(z, z, S.vec(t + 'ref')), S.num(90), S.real(t + 'sheer', 0.5, 2), 2, 1)

    def solution(k, sails=1, n=1):
        st, m = stub(S, sails, n, cs(), tag=t)
        for v in m.V_app_fs_at_cp:
            S.assume(v[0] * v[0] + v[1] * v[1] > S.num('0.0001'))
        return st, m

    def result(st, cs, m, clr):
        r = results(S, st, cs, m)
        S.assume(S.norm2(r.F_xyz_total) > S.num('0.01'))
        r.estimate_heeling_moment_from_keel(clr)
        return tables(S, r)

    def flow_case():
        st, m = solution('', 2, 1)
        return st, cs(), m, S.vec(t + 'clr')

    def section(areas, lift, drag, cp, wd, rho):
        q = types.SimpleNamespace(panels=S.np.zeros((4, 4, 3)), areas=areas, lift=lift, drag=drag, cp=cp, n_spanwise=1, n_chordwise=2, rho=rho,
                                  inlet_conditions=types.SimpleNamespace(V_app_infs=wd))
        return S.mod('solver.coefs').get_data_for_coeff_plot(q, types.SimpleNamespace(n_spanwise=1, n_chordwise=2))

    def nonzero(m):
        for v in m:
            S.assume(S.norm2(v) > S.num('0.01'))
        return m

    def wing(*a):
        w = S.mod('runner.aircraft').Aircraft(*a)
        return [w, w.Cxyz, w.CL, w.CD, w.Cp, w.force, w.pressure, w.AR]

    def solve(*a):
        return S.mod('solver.vlm').Vlm(*a)

    def solver_case():
        panels, te, le = sail_set(S, 1, 1)
        if t == 'b':
            panels = S.arr(panels) * S.num('1.5')
        return panels, 1, 1, S.pos(t + 'rho'), profile('flat'), te, le
    H = S.mod('yacht_geometry.hull_geometry').HullGeometry
    cells = {
        'transformation': lambda: (C, hl() + (S.vec(t + 'ref'),)),
        'point above': lambda: (lambda c, p: c.rotate_point_with_mirror(p), (cs(), up('p'))),
        'point below': lambda: (lambda c, p: c.rotate_point_with_mirror(p), (cs(), down('p'))),
        'point back': lambda: (lambda c, p: c.reverse_rotations_with_mirror(p), (C(z, hl()[1]), up('p'))),
        'point without mirror': lambda: (lambda c, p: c.rotate_point_without_mirror(p), (cs(), up('p'))),
        'centreline': lambda: (lambda c, p: c.from_xyz_to_centerline_csys(p), (cs(), S.mat(t + 'q', 2))),
        'speed exponential': lambda: (lambda w, h: w.get_true_wind_speed_at_h(h), (profile('exponential'), S.real(t + 'h', 1, 60))),
        'speed logarithmic': lambda: (lambda w, h: w.get_true_wind_speed_at_h(h), (profile('logarithmic'), S.real(t + 'h', 1, 60))),
        'speed flat': lambda: (lambda w, h: w.get_true_wind_speed_at_h(h), (profile('flat'), S.real(t + 'h', 1, 60))),
        'inlet exponential': lambda: (inlet, (profile('exponential'), S.pos(t + 'rho'), S.arr([up('0'), up('1')]))),
        'inlet logarithmic': lambda: (inlet, (profile('logarithmic'), S.pos(t + 'rho'), S.arr([up('0'), down('1')]))),
        'inlet table': lambda: (angles, (profile('flat'), S.pos(t + 'rho'), S.arr([up('0'), down('1')]), cs())),
        'linear interpolation': lambda: (interpolated, ('linear', station(3), three('y', -5, 5), 4 if t == 'a' else 5)),
        'spline interpolation': lambda: (interpolated, ('spline', station(5), S.arr([S.real('%sy%d' % (t, i)) for i in range(5)]), 4 if t == 'a' else 5)),
        'linear and spline': lambda: (interpolated, ('linear' if t == 'a' else 'spline', station(5), S.arr([S.real('%sy%d' % (t, i)) for i in range(5)]), 4)),
        'sails with twist': lambda: (sail, made('real_twist', 'average_const')),
        'sails of one angle': lambda: (sail, made('sheeting_angle_const', 'average_const')),
        'flat sails': lambda: (sail, made(None, None)),
        'hull': lambda: (H, (S.real(t + 'sheer', 0.1, 3), S.real(t + 'base', 0.5, 10), cs(), S.vec(t + 'clr'))),
        'results': lambda: (result, flow_case()),
        'sections': lambda: (section, (S.arr([S.pos('%sA%d' % (t, i)) for i in range(4)]), nonzero(S.mat(t + 'l', 4)), nonzero(S.mat(t + 'd', 4)), S.mat(t + 'cp', 4),
                                       nonzero(S.mat(t + 'w', 4)), S.pos(t + 'rho'))),
        'solution': lambda: (solve, solver_case()),
        'wing': lambda: (wing, (1. if t == 'a' else 2., 4., 0., 1, 1, S.arr([S.real(t + 'vx', 2, 9), S.real(t + 'vy', 0.2, 1), S.real(t + 'vz', -1, 1)]),
                                S.pos(t + 'rho'), 1. if t == 'a' else -1.)),
    }
    return cells


@scenario(P, [dict(what=k) for k in ('transformation', 'point above', 'point below', 'point back', 'point without mirror', 'centreline', 'speed exponential', 'speed logarithmic',
                                     'speed flat', 'inlet exponential', 'inlet logarithmic', 'inlet table', 'linear interpolation', 'spline interpolation',
                                     'linear and spline', 'sails with twist', 'sails of one angle', 'flat sails', 'hull', 'results', 'sections', 'solution', 'wing')])
def calculations_in_a_new_run(S, what):
    S.abstract_filaments()
    independent(S, lambda t: parts(S, t)[what]())


@scenario(P, [dict(kind=k) for k in ('line', 'inf', 'ring', 'horseshoe', 'trailing')])
def filaments(S, kind):
    v = S.mod('solver.velocity')
    p, A, B, C, D = (S.vec(q) for q in 'pabcd')
    W, g = S.vec('w'), S.real('g')
    S.assume(S.norm(W) > 0)
    fn, args = {'line': (v.vortex_line, (p, A, B, g)), 'inf': (v.vortex_infinite_line, (p, A, W, g)), 'ring': (v.vortex_ring, (p, A, B, C, D, g)),
                'horseshoe': (v.vortex_horseshoe, (p, B, C, W, g)), 'trailing': (v.vortex_horseshoe_v2, (p, A, B, C, D, W, g))}[kind]
    if kind not in ('line', 'inf'):
        S.abstract_filaments()
    settled(S, fn, args)


@scenario(P, [dict(axis=a) for a in ('free', 'vertical')])
def rotation_about_two_points(S, axis):
    g = S.mod('rotations.geometry_calc')
    p1 = S.vec('a')
    d = S.arr([S.real('dx', 1, 2), S.real('dy', -1, 1), S.real('dz', 1, 3)]) if axis == 'free' else S.arr([0, 0, S.real('dz', 1, 3)])
    settled(S, g.rotate_points_around_arbitrary_axis, (S.mat('p', 2), p1, p1 + d, S.ang('t')))


@scenario(P, [dict(kind=k) for k in ('linear', 'spline')])
def interpolation(S, kind):
    t = S.mod('solver.interpolator').Interpolator(kind)
    x, y = stations(S, 'b')
    _, z = stations(S, 'b', 'z')
    g, j = stations(S, 'd', 'j')
    settled(S, t.interpolate_girths, (x, y, 4), (x, z, 3))
    settled(S, t.interpolate_and_mirror_girths, (x, y, 3))
    settled(S, t.interpolate_data_for_sections, ([y, z], [j, j], x, g, 2))


def cs_of(S, default=False, h=None, l=None):
    C = S.mod('rotations.csys_transformations').CSYS_transformations
    h, l = S.deg('heel', -60, 60, wide=(-180, 180)) if h is None else h, S.deg('leeway', -60, 60, wide=(-180, 180)) if l is None else l
    return C(h, l) if default else C(h, l, S.vec('ref'))


@scenario(P, [dict(m=m, n=n) for m in ('rotate_point_with_mirror', 'reverse_rotations_with_mirror', 'rotate_point_without_mirror') for n in ('above', 'below')]
          + [dict(m=m, n='rows') for m in ('from_xyz_to_centerline_csys', 'calc_centerline_moments')])
def transformations(S, m, n):
    cs = cs_of(S)
    if n == 'rows':
        x, y = (S.mat('p', 2), S.mat('q', 2)) if m == 'from_xyz_to_centerline_csys' else (S.vec('p'), S.vec('q'))
    else:
        z = S.real('z', 0.1, 9) if n == 'above' else S.real('z', -9, -0.1)
        x, y = S.arr([S.real('x'), S.real('y'), z]), S.arr([S.real('x2'), S.real('y2'), -z])
    fn = getattr(type(cs), m)
    settled(S, fn, (cs, x), (cs, y))


@scenario(P)
def default_reference_point(S):
    """a transformation made without a reference point keeps the origin, whatever was done with others"""
    a, b = cs_of(S, True), cs_of(S, True, S.num(0), S.num(0))
    before = leaves(b)
    st, m = stub(S, 1, 1, a)
    r = results(S, st, a, m)
    r.estimate_heeling_moment_from_keel(S.vec('clr'))
    r.to_df_full()
    r.to_df_integral()
    same(S, 'other transformation', leaves(b), before)
    same(S, 'new transformation', leaves(cs_of(S, True, S.num(0), S.num(0))), before)


@scenario(P, [dict(kind=k) for k in ('exponential', 'logarithmic', 'flat')])
def wind_and_inlet(S, kind):
    w = Wind(S, kind)
    p = points(S, w, 2)
    I = S.mod('inlet.inlet_conditions').InletConditions
    c = settled(S, I, (w.w, S.pos('rho'), p))
    for q in c.V_app_infs:
        S.assume(S.norm2(q) > S.num('0.0001'))
    cs = cs_of(S)
    h = S.real('h', 40, 60)
    settled(S, type(w.w).get_true_wind_speed_at_h, (w.w, h))
    settled(S, type(c).to_df_full, (c, cs))
    settled(S, type(w.w).to_df_integral, (w.w, cs))


def sails_case(S, what):
    C = S.mod('runner.container')
    two = lambda k, lo, hi: S.arr([S.real(k + '0', lo, hi), S.real(k + '1', lo, hi)])
    g = lambda: S.arr([0, 1])
    sol = C.Solver(n_spanwise=2, n_chordwise=1, interpolation_type='linear')
    rig = C.Rig(main_sail_luff=S.real('ml', 8, 12), jib_luff=S.real('jl', 8, 10), foretriangle_height=S.num(12), foretriangle_base=S.num(5),
                sheer_above_waterline=S.real('sheer', 0.5, 2), boom_above_sheer=S.real('boom', 0.1, 2), rake_deg=S.num(90), mast_LOA=S.real('mast', 0, 0.5), sails_def=what)
    mk = lambda K, t: K(girths=g(), chords=two(t + 'c', 1, 4), camber=two(t + 'm', 0, 0.2), camber_distance_from_luff=S.arr([S.num('0.5')] * 2),
                        centerline_twist_deg=two(t + 't', 0, 20))
    return sol, rig, mk(C.MainSail, 'm'), mk(C.JibSail, 'j')


@scenario(P, [dict(what=w, mode=m) for w in ('main', 'jib', 'jib_and_main') for m in ('real_twist', 'sheeting_angle_const', 'average_const')])
def sail_sets(S, what, mode):
    """the configuration stays as given, and meshing repeats, also after another configuration was meshed"""
    R = S.mod('runner.sail')
    sol, rig, main, jib = sails_case(S, what)
    sol.LLT_twist = mode
    cs = S.mod('rotations.csys_transformations').CSYS_transformations(S.num(0), S.num(0), S.vec('ref'))
    args = (sol, rig, main, jib, cs)

    def build(*a):
        return R.Sail(*a).sail_set
    C = S.mod('runner.container')
    o = S.real('o', 2, 3)
    other = C.MainSail(girths=S.arr([0, S.num('0.5'), 1]), chords=S.arr([o] * 3), camber=S.arr([0] * 3), camber_distance_from_luff=S.arr([S.num('0.25')] * 3),
                       centerline_twist_deg=S.arr([o] * 3))
    sol2 = C.Solver(n_spanwise=1, n_chordwise=1, interpolation_type='linear')
    sol2.LLT_twist = 'average_const' if mode == 'real_twist' else 'real_twist'
    import dataclasses
    rig2 = dataclasses.replace(rig, sails_def='main', main_sail_luff=o)
    settled(S, build, args, (sol2, rig2, other, jib, cs))


@scenario(P, [dict(kind=k, mode=m) for k in ('main', 'jib', 'geometry') for m in ('real_twist', 'sheeting_angle_const', 'average_const', None)])
def meshed_sails(S, kind, mode):
    """the arrays a sail is meshed from belong to the caller: chords, twist, camber and mountings stay as they were"""
    cs = S.mod('rotations.csys_transformations').CSYS_transformations(S.num(0), S.num(0), S.vec('ref'))
    F = S.mod('yacht_geometry.sail_factory').SailFactory(cs, 2, 1, S.num(90), S.real('sheer', 0.5, 2))
    G = S.mod('yacht_geometry.sail_geometry').SailGeometry

    def arrays(t):
        col = lambda q, lo, hi: S.arr([S.real('%s%s%d' % (t, q, i), lo, hi) for i in range(3)])
        return (col('c', 1, 4), None if mode is None else col('t', 0, 20), col('m', 0, 0.2), S.arr([S.num('0.5')] * 3), S.real(t + 'luff', 5, 9))

    def make(c, tw, m, d, luff, *mount):
        k = dict(LLT_twist=mode, interpolated_camber=m, interpolated_distance_from_luff=d)
        if kind == 'main':
            return F.make_main_sail(luff, S.num(1), c, tw, **k)
        if kind == 'jib':
            return F.make_jib(luff, S.num(5), S.num(12), c, tw, S.num('0.25'), **k)
        return G(*mount, cs, 2, 1, c, tw, 'a sail', **k)

    def mountings(t):
        return () if kind != 'geometry' else (S.arr([S.real(t + 'hx', -1, 1), 0, S.num(9)]), S.arr([0, 0, S.num(2)]))
    settled(S, make, arrays('a') + mountings('a'), arrays('b') + mountings('b'))


@scenario(P)
def hull(S):
    H = S.mod('yacht_geometry.hull_geometry').HullGeometry
    settled(S, H, (S.real('sheer', 0.1, 3), S.real('base', 0.5, 10), cs_of(S), S.vec('clr')))


SETS = [dict(nc=1, ns=1, sails=1), dict(nc=2, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=1, ns=1, sails=2)]


@scenario(P, SETS[:3], thorough=SETS[3:] + [dict(nc=2, ns=2, sails=1)])
def solver(S, nc, ns, sails):
    """a solution leaves panels, wind and flags alone and repeats, also after one in another wind"""
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns, sails)
    rho, w = S.pos('rho'), wind(S)
    W = S.mod('inlet.winds').FlatWindProfile(S.num(60), S.real('t2', 1, 9), S.num(1))
    args = (panels, nc, ns, rho, w, te, le)
    before = leaves(args)
    Vlm = S.mod('solver.vlm').Vlm

    def solve(*a):
        m, e = S.call(Vlm, *a)
        if e is not None:
            if isinstance(e, ValueError) and not S.symbolic:
                S.assume(False)
            raise e
        return m
    x = solve(*args)
    s = leaves(x)
    same(S, 'inputs unchanged', leaves(args), before)
    solve(panels, nc, ns, S.pos('rho2'), W, te, le)
    y = solve(*args)
    same(S, 'inputs unchanged by repetition', leaves(args), before)
    same(S, 'repetition', leaves(y), s)
    same(S, 'earlier solution kept', leaves(x), s)
    # working on a solution leaves it alone
    st = types.SimpleNamespace(sails=[types.SimpleNamespace(name=NAMES[k], csys_transformations=None, tack_mounting=S.arr([0, 0, S.num('0.5')])) for k in range(sails)])
    cs = cs_of(S, l=S.num(0))
    r = results(S, st, cs, x)
    r.estimate_heeling_moment_from_keel(S.vec('clr'))
    same(S, 'solution unchanged by the results', leaves(x), s)


@scenario(P, [dict(nc=1, ns=1), dict(nc=1, ns=2)], thorough=[dict(nc=2, ns=2)])
def wing(S, nc, ns):
    S.abstract_filaments()
    A = S.mod('runner.aircraft').Aircraft
    V = S.arr([S.real('vx', 2, 9), S.real('vy', 0.2, 1), S.real('vz', -1, 1)])
    args = (S.num(1), S.num(2), S.num(0), ns, nc, V, S.pos('rho'), S.num(1))
    before = leaves(args)

    def make(*a):
        w, e = S.call(A, *a)
        if e is not None:
            if isinstance(e, ValueError) and not S.symbolic:
                S.assume(False)
            raise e
        return w
    x = make(*args)
    s = leaves(x)
    c = leaves([x.Cxyz, x.CL, x.CD, x.Cp, x.force, x.pressure, x.AR])
    S.call(x.get_info)
    make(S.num(2), S.num(2), S.num(0), ns, nc, V, S.pos('rho2'), S.num(-1))
    y = make(*args)
    same(S, 'inputs unchanged', leaves(args), before)
    same(S, 'repetition', leaves(y), s)
    same(S, 'earlier wing kept', leaves(x), s)
    same(S, 'coefficients repeat', leaves([x.Cxyz, x.CL, x.CD, x.Cp, x.force, x.pressure, x.AR]), c)


STEPS = ['full', 'integral', 'save', 'keel', 'other']


@scenario(P, [dict(order=o) for o in (('full', 'integral', 'save'), ('save', 'integral', 'full'), ('keel', 'full', 'other'), ('other', 'save', 'keel'))])
def results_and_tables(S, order):
    """tables neither change the solution nor each other, whatever is asked for first"""
    cs = cs_of(S, h=S.num(0))
    st, m = stub(S, 2, 1, cs)
    k = 4
    for i in range(k):
        S.assume(m.V_app_fs_at_cp[i][0] ** 2 + m.V_app_fs_at_cp[i][1] ** 2 > S.num('0.0001'))
    w = Wind(S, 'flat')
    m.inlet_conditions = S.mod('inlet.inlet_conditions').InletConditions(w.w, S.num(1), m.cp)
    for q in m.inlet_conditions.V_app_infs:
        S.assume(S.norm2(q) > S.num('0.0001'))
    clr = S.vec('clr')
    given = leaves([st, m, cs, clr])
    r = results(S, st, cs, m)
    S.assume(S.norm2(r.F_xyz_total) > S.num('0.01'))
    r.estimate_heeling_moment_from_keel(clr)

    def tables():
        with recorded(S) as (su, _):
            return leaves([r.to_df_full(), r.to_df_integral(), su.save_results_to_file(m, cs, r, st, 'd', 'f')])
    ref = tables()
    for o in order:
        if o == 'full':
            r.to_df_full()
        elif o == 'integral':
            r.to_df_integral()
        elif o == 'save':
            with recorded(S) as (su, _):
                su.save_results_to_file(m, cs, r, st, 'd', 'f')
        elif o == 'keel':
            r.estimate_heeling_moment_from_keel(clr)
        else:
            st2, m2 = stub(S, 1, 1, cs, tag='o')
            q = results(S, st2, cs, m2)
            q.estimate_heeling_moment_from_keel(S.vec('clr2'))
            q.to_df_integral()
    same(S, 'inputs unchanged', leaves([st, m, cs, clr]), given)
    same(S, 'tables repeat', tables(), ref)


@scenario(P, [dict(k=1, nc=2, ns=1), dict(k=2, nc=1, ns=2)])
def section_plots(S, k, nc, ns):
    areas, wd, v = blocks(S, k, nc, ns)
    lift, drag, cp = v('l'), v('d'), v('p')
    for x in lift + drag:
        S.assume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] > S.num('0.01'))
    n = len(areas)
    m = types.SimpleNamespace(panels=S.np.zeros((n, 4, 3)), areas=S.arr(areas), lift=S.arr(lift), drag=S.arr(drag), cp=S.arr(cp), n_spanwise=ns, n_chordwise=nc,
                              rho=S.pos('rho'), inlet_conditions=types.SimpleNamespace(V_app_infs=S.arr(wd)))
    settled(S, S.mod('solver.coefs').get_data_for_coeff_plot, (m, types.SimpleNamespace(n_spanwise=ns, n_chordwise=nc)))
