"""C35 plots show the quantities they are labelled with."""
import types

from symv import core
from symv.harness import scenario
from . import backends as B
from .c34 import Recorder, case, reference, run

P = 'C35'


def alike(a, b):
    """the same numbers, entry by entry (without asking the solver)"""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = core.sym(x) if isinstance(x, core.Sym) or isinstance(y, core.Sym) else x, core.sym(y) if isinstance(x, core.Sym) or isinstance(y, core.Sym) else y
        if isinstance(x, core.Sym):
            if not core.is_zero(x - y):
                return False
        elif not abs(float(x) - float(y)) <= 1e-9 * (1 + abs(float(x))):
            return False
    return True


def flatten(x):
    out = []
    for v in x:
        if hasattr(v, '__len__'):
            out += flatten(v)
        else:
            out.append(v)
    return out


def cover(S, label, drawn, wanted):
    """every wanted list of numbers is drawn exactly once, and nothing else is; the order is free"""
    S.same('number of ' + label, len(drawn), len(wanted))
    left = [flatten(d) for d in drawn]
    rest = []
    for w in map(flatten, wanted):
        k = next((i for i, d in enumerate(left) if alike(d, w)), None)
        if k is None:
            rest.append(w)
        else:
            S.eq(label, left.pop(k), w)
    for d, w in zip(left, rest):
        S.eq(label, d, w)


# ---- a solved case with free numbers
def scene(S, sails, nc, ns, dull=True):
    n = 2 * sails * nc * ns
    o = types.SimpleNamespace(n=n, sails=sails, nc=nc, ns=ns)
    row = lambda q, lo=-10, hi=10: S.arr([[S.real('%s%d%s' % (q, i, a), lo, hi) for a in 'xyz'] for i in range(n)])
    col = lambda q, lo=-10, hi=10: S.arr([S.real('%s%d' % (q, i), lo, hi) for i in range(n)])
    z = lambda i: S.real('cp%dz' % i, 1, 9, wide=(0.01, 1000)) if i < n // 2 else S.real('cp%dz' % i, -9, -1, wide=(-1000, -0.01))
    cp = S.arr([[S.real('cp%dx' % i), S.real('cp%dy' % i), z(i)] for i in range(n)])
    mid = S.arr([[0.5 * i, 1.0, (4.25 if i < n // 2 else -4.25)] for i in range(n)])
    aw = S.deg('awa', -170, 170, wide=(-180, 180))
    inl = types.SimpleNamespace(cp_points=cp, tws_at_cp=row('t'), V_app_infs=row('v'), AWA_infs_deg=S.arr([aw] * n), awa=aw)
    o.vlm = types.SimpleNamespace(panels=S.arr([[[S.real('p%d_%d%s' % (i, j, a)) for a in 'xyz'] for j in range(4)] for i in range(n)]), cp=cp, leading_mid_points=mid,
                                  trailing_mid_points=mid, pressure=col('pr'), p_coeffs=col('pc'), gamma_magnitude=col('gm'), n_chordwise=nc, n_spanwise=ns, inlet_conditions=inl)
    if dull:  # colours are another scenario's subject
        for k in ('pressure', 'p_coeffs', 'gamma_magnitude'):
            setattr(o.vlm, k, S.arr([1.0 + i for i in range(n)]))
    F = S.vec('F', 3)
    S.assume(F[0] * F[0] + F[1] * F[1] + F[2] * F[2] > S.num('0.01'))
    o.F = F
    o.res = types.SimpleNamespace(V_app_fs_length=S.arr([S.pos('vf%d' % i) for i in range(n)]), above_water_centre_of_effort_estimate_xyz=S.vec('ce'), F_xyz_total=F,
                                  V_induced_at_cp=row('vi'))
    line = lambda q: S.arr([[S.real('%s%d%s' % (q, i, a)) for a in 'xyz'] for i in range(3)])
    o.hull = types.SimpleNamespace(center_of_lateral_resistance=S.vec('clr'), **{k: line(k[-8:]) for k in HULL})
    return o


HULL = ['deck_centerline', 'deck_port_line', 'deck_starboard_line', 'deck_port_line_underwater', 'deck_starboard_line_underwater']
SHAPES = [dict(sails=1, nc=1, ns=1), dict(sails=1, nc=2, ns=1), dict(sails=1, nc=1, ns=2), dict(sails=1, nc=2, ns=2), dict(sails=2, nc=1, ns=1), dict(sails=2, nc=2, ns=1), dict(sails=2, nc=1, ns=2),
          dict(sails=2, nc=2, ns=2), dict(sails=1, nc=3, ns=2), dict(sails=2, nc=2, ns=3), dict(sails=1, nc=2, ns=5)]
BIG = [dict(sails=2, nc=4, ns=3), dict(sails=2, nc=3, ns=6), dict(sails=1, nc=6, ns=6)]


def view(S, o, **k):
    with B.drawing(S) as log:
        m = S.mod('solver.panels_plotter')
        m.display_panels_xyz_and_winds(o.vlm, o.res, o.vlm.inlet_conditions, o.hull, **dict(dict(show_plot=False), **k))
    return log


def vector(a):
    (x, y, z) = a._verts3d
    return [x[0], y[0], z[0]], [x[1] - x[0], y[1] - y[0], z[1] - z[0]]


def check_panels(S, log, panels, data):
    drawn = B.polygons(log)
    S.same('panels drawn', len(drawn), len(panels))
    lo, hi = S.np.min(data), S.np.max(data)
    for c in [c for _, c in drawn]:
        S.true('coloured', isinstance(c, B.Colour))
    cover(S, 'panel with its value', [[v, c.value] for v, c in drawn], [[p, d] for p, d in zip(panels, data)])
    for _, c in drawn:
        S.eq('colour scale', [c.norm.vmin, c.norm.vmax], [lo, hi])


@scenario(P, SHAPES, thorough=BIG)
def winds_and_forces(S, sails, nc, ns):
    o = scene(S, sails, nc, ns)
    check_view(S, view(S, o), o)


@scenario(P, SHAPES, thorough=BIG)
def induced_winds(S, sails, nc, ns):
    o = scene(S, sails, nc, ns)
    log = view(S, o, show_induced_wind=True)
    check_view(S, log, o, True)
    S.true('named in the title', 'nduced' in title(log))


def title(log):
    t = B.texts(log, 'set_title', 'title', 'suptitle')
    return ' '.join(str(x) for x in t)


def first_strips(o):
    """indices of the load points next to the luff, of every sail and image"""
    m = o.nc * o.ns
    return [b * m + j for b in range(2 * o.sails) for j in range(o.ns)]


def check_view(S, log, o, induced=False):
    inl, cp, idx = o.vlm.inlet_conditions, o.vlm.cp, first_strips(o)
    A = B.arrows(log)
    by = {}
    for a in A:
        by.setdefault(a.kwargs.get('color'), []).append(a)
    S.same('true winds', len(by.get('green', [])), len(idx))
    S.same('apparent winds', len(by.get('blue', [])), len(idx))
    rest = [a for c in by if c not in ('green', 'blue', 'black') for a in by[c]]
    S.same('induced winds', len(rest), len(idx) if induced else 0)
    for c, v in (('green', inl.tws_at_cp), ('blue', inl.V_app_infs)):
        got = [vector(a) for a in by[c]]
        cover(S, c + ' arrow', [[p[2], d] for p, d in got], [[cp[i][2], v[i][0], v[i][1], 0] for i in idx])
        for p, d in got:
            x, y = p[0], p[1]
            S.eq('on the line of the mean apparent wind', x * S.sin(inl.awa), y * S.cos(inl.awa))
            S.lt('on the side it comes from', x * S.cos(inl.awa) + y * S.sin(inl.awa), 0)
    if induced:
        cover(S, 'induced arrow', [list(vector(a)) for a in rest], [[cp[i], o.res.V_induced_at_cp[i][0], o.res.V_induced_at_cp[i][1], 0] for i in idx])
    for c in by:
        for a in by[c]:
            if c != 'black':
                lit = a.kwargs.get('alpha')
                S.true('images are fainter', (vector(a)[0][2] > 0) == (lit > 0.4))
    check_forces(S, log, by.get('black', []), o)
    cover(S, 'deck line', [B_ for B_, st in B.lines(log)], [[getattr(o.hull, k)[:, j] for j in range(3)] for k in HULL])


def check_forces(S, log, black, o):
    S.same('force arrows', len(black), 2)
    ce, clr, F = o.res.above_water_centre_of_effort_estimate_xyz, o.hull.center_of_lateral_resistance, o.res.F_xyz_total
    v = [vector(a) for a in black]
    if not alike(v[0][0], ce):
        v = v[::-1]
    S.eq('force starts at the centre of effort', v[0][0], ce)
    S.eq('reaction starts at the lateral resistance', v[1][0], clr)
    S.eq('reaction is opposite', v[1][1], [-q for q in v[0][1]])
    S.across('force along the total force', v[0][1], S.cross(F, S.arr([1, 0, 0])))
    S.across('force along the total force', v[0][1], S.cross(F, S.arr([0, 1, 0])))
    S.lt('same sense', 0, S.dot(S.arr(v[0][1]), F))
    cover(S, 'centre marks', [list(a[:3]) for a, k in B.marks(log)], [ce, clr])


@scenario(P, [dict(sails=1, nc=1, ns=1, mode=m) for m in (False, True)] + [dict(sails=1, nc=1, ns=2, mode=m) for m in (False, True)], thorough=[dict(sails=1, nc=1, ns=3, mode=False)], max_paths=600)
def panel_colours(S, sails, nc, ns, mode):
    o = scene(S, sails, nc, ns, dull=False)
    log = view(S, o, is_sailopt_mode=mode)
    check_panels(S, log, o.vlm.panels, o.vlm.gamma_magnitude if mode else o.vlm.p_coeffs)
    S.true('title names the colours', ('circulation' if mode else 'pressure') in title(log))


@scenario(P, [dict(sails=2, nc=2, ns=2), dict(sails=1, nc=2, ns=3), dict(sails=1, nc=1, ns=1)], thorough=BIG[:1])
def all_panels(S, sails, nc, ns):
    """with colour values in a fixed order"""
    o = scene(S, sails, nc, ns)
    n = o.n
    o.vlm.p_coeffs = S.arr([(7 * i) % n + 0.5 for i in range(n)])
    check_panels(S, view(S, o), o.vlm.panels, o.vlm.p_coeffs)


@scenario(P, [dict(n=1), dict(n=3), dict(n=8)])
def panels_or_rings(S, n):
    things = S.arr([[[S.real('p%d_%d%s' % (i, j, a)) for a in 'xyz'] for j in range(4)] for i in range(n)])
    mid = S.arr([[0, 1, 3.5], [1, 1, -3.5]])
    with B.drawing(S) as log:
        S.mod('solver.panels_plotter').display_panels_or_rings(things, S.arr([S.real('q%d' % i) for i in range(n)]), mid, mid)
    cover(S, 'outline', [v for v, c in B.polygons(log)], list(things))


@scenario(P)
def arrow_projection(S):
    """an arrow is drawn between the projections of its two ends"""
    a, b, m = S.vec('a'), S.vec('b'), S.real('m')
    with B.drawing(S):
        for how in ('draw', 'do_3d_projection'):
            ar = S.mod('solver.panels_plotter').Arrow3D(S.arr([a[0], b[0]]), S.arr([a[1], b[1]]), S.arr([a[2], b[2]]), mutation_scale=1)
            ar.axes = types.SimpleNamespace(M=m)
            z = getattr(ar, how)(None)
            pos = [q for q in ar.calls if q[0] == 'set_positions']
            S.same('placed once', len(pos), 1)
            S.eq('ends', flatten(pos[0][1]), [2 * a[0] + m, 3 * a[1] - m, 2 * b[0] + m, 3 * b[1] - m])
            if how == 'draw':
                S.same('drawn', [q[0] for q in ar.calls][-1], 'draw')
            else:
                S.le('depth', z, [5 * a[2] + m])
                S.le('depth', z, [5 * b[2] + m])
                S.eq('depth', (z - 5 * a[2] - m) * (z - 5 * b[2] - m), 0)


@scenario(P, [dict(n=1), dict(n=2), dict(n=5), dict(n=12)])
def pressure_map(S, n):
    mesh = S.arr([[[S.real('p%d_%d%s' % (i, j, a)) for a in 'xyz'] for j in range(4)] for i in range(n)])
    pc = S.arr([S.real('c%d' % i) for i in range(n)])
    with B.drawing(S) as log:
        S.mod('solver.panels_plotter').plot_cp(mesh, pc, 'out')
    check_map(S, log, mesh, pc, 'out')


def check_map(S, log, mesh, pc, where):
    saved = [(a, k) for n, a, k in log if n == 'save']
    S.same('saved once', [str(a[1]).replace('//', '/') for a, k in saved], [where + '/cp_plot.html'])
    pic = saved[0][0][0]
    S.true('polygons', isinstance(pic, B.Polygons))
    d = pic.args[0].data
    named = [k for k in d if k == 'p_coeffs']
    S.same('value column', named, ['p_coeffs'])
    S.same('colours', [k.get('color') for n, a, k in pic.calls if n == 'opts'][-1:], ['p_coeffs'])
    shape = next(v for k, v in d.items() if k != 'p_coeffs')
    shape = shape.data if isinstance(shape, B.Frame) else shape
    S.same('one value per panel', (len(shape), len(d['p_coeffs'])), (len(mesh), len(mesh)))
    ring = lambda p: [q for v in (0, 1, 2, 3, 0) for q in (p[v][0], p[v][2])]
    cover(S, 'panel with its coefficient', [[flatten(s), v] for s, v in zip(shape, d['p_coeffs'])], [[ring(p), v] for p, v in zip(mesh, pc)])


def section_plots(log):
    """[(saved as, calls)]"""
    out, cur = [], []
    for e in log:
        if e[0] in ('figure', 'subplots', 'clf'):
            cur = []
        if e[0] == 'savefig':
            out.append((str(e[1][0]).replace('//', '/'), cur))
            cur = []
        else:
            cur.append(e)
    return out


def check_section(S, calls, name, sails, x, y):
    pts = B.marks(calls)
    S.same('one set of points per sail', len(pts), len(sails))
    left = dict(zip(sails, zip(x, y)))
    for a, k in pts:
        s = 'jib' if 'jib' in str(k.get('label')) else 'main'
        S.true('labelled by sail', s in str(k.get('label')) and s in left)
        gx, gy = left.pop(s)
        S.eq('coefficient of the ' + s, list(a[0]), list(gx))
        S.eq('height of the ' + s, list(a[1]), list(gy))
    S.true('horizontal axis', any('c_' + name[0] in str(t) for t in B.texts(calls, 'xlabel', 'set_xlabel')))
    S.true('vertical axis', any('eight' in str(t) for t in B.texts(calls, 'ylabel', 'set_ylabel')))
    S.same('axes named once', (len(B.texts(calls, 'xlabel', 'set_xlabel')), len(B.texts(calls, 'ylabel', 'set_ylabel'))), (1, 1))


@scenario(P, [dict(name=c, n=n) for c in ('lift', 'drag') for n in (1, 2, 5)])
def section_coefficients(S, name, n):
    x = [S.arr([S.real('x%d_%d' % (q, i)) for i in range(n)]) for q in range(2)]
    y = [S.arr([S.real('y%d_%d' % (q, i)) for i in range(n)]) for q in range(2)]
    with B.drawing(S) as log:
        S.mod('solver.panels_plotter').plot_section_coeff(x, y, 'out', name, ['blue', 'green'])
    pl = section_plots(log)
    S.same('file', [f for f, c in pl], ['out/section_' + {'lift': 'cl', 'drag': 'cd'}[name]])
    check_section(S, pl[0][1], name, ['jib', 'main'], x, y)


@scenario(P, [dict(name=c) for c in ('cl', 'Lift', '', 'moment')])
def unknown_coefficient(S, name):
    with B.drawing(S) as log:
        try:
            r, e = S.call(S.mod('solver.panels_plotter').plot_section_coeff, [], [], 'out', name, [])
        except SystemExit:
            e = 'exit'
    S.true('refused', e is not None)
    S.same('nothing saved', section_plots(log), [])


@scenario(P, [dict(dims=d, two=t) for d in ([0, 1, 2], [0, 2], [2, 1]) for t in (False, True)])
def mesh_plot(S, dims, two):
    mk = lambda q: S.arr([[[S.real('%s%d_%d%s' % (q, i, j, a)) for a in 'xyz'] for j in range(3)] for i in range(4)])
    a, b = mk('a'), mk('b')
    with B.drawing(S) as log:
        S.mod('solver.additional_functions').plot_mesh(a, b if two else None, dimentions=list(dims), color1='green', color2='red')
    got = B.lines(log)
    for q, c in ((a, 'green'),) + (((b, 'red'),) if two else ()):
        cover(S, c + ' line', [p for p, st in got if c in st], [[q[i][:, d] for d in dims] for i in range(4)])
    S.same('lines', len(got), 8 if two else 4)
    names = ['XYZ'[d] for d in dims]
    S.same('axes', [B.texts(log, 'set_%slabel' % k, k + 'label') for k in 'xyz'[:len(dims)]], [[n] for n in names])


@scenario(P, [dict(what='main', nc=1, ns=1), dict(what='jib', nc=2, ns=1), dict(what='jib_and_main', nc=1, ns=1)], thorough=[dict(what='jib_and_main', nc=2, ns=2)], max_paths=600)
def command_line(S, what, nc, ns):
    """the plots of a whole run, upright; loads, winds and sails free"""
    from .c34 import swapped
    a = case(S, what, nc, ns, heel=False)
    for k, v in (('main_sail_luff', 9), ('jib_luff', 9), ('sheer_above_waterline', 1), ('boom_above_sheer', 1), ('mast_LOA', 0.25)):
        a['rig_args'][k] = S.num(v)
    k = nc * ns * (2 if 'and' in what else 1)
    up = [S.arr([S.real('ux%d' % i), S.num(0), S.real('uz%d' % i, 5, 12)]) for i in range(k)]
    rec = Recorder(S, up, S.num(0), S.num(0))

    def solver(*x, **y):
        m = rec(*x, **y)
        m.leading_mid_points = m.trailing_mid_points = S.arr([[0, 0, 7.5]] * (2 * k))
        m.p_coeffs, m.gamma_magnitude = S.arr([(5 * i) % (2 * k) + 0.5 for i in range(2 * k)]), S.arr([1.0] * (2 * k))
        return m
    with swapped(S.mod('solver.vlm').__dict__, 'Vlm', solver):
        with B.drawing(S) as log:
            r = run(S, a, plots=True)
        o = reference(S, a)
    pl = section_plots(log)
    z, cl, cd = o.plot
    sails = {'main': ['main'], 'jib': ['jib'], 'jib_and_main': ['jib', 'main']}[what]
    S.same('files', sorted(f for f, c in pl), ['results/section_cd', 'results/section_cl'])
    for f, c in pl:
        nm = 'lift' if f.endswith('cl') else 'drag'
        check_section(S, c, nm, sails, cl if nm == 'lift' else cd, z)
    check_map(S, [e for e in log if e[0] == 'save'], o.set.zero_mesh, o.vlm.p_coeffs, 'results')
    check_panels(S, log, o.vlm.panels, o.vlm.p_coeffs)
    cover(S, 'deck line', [q for q, st in B.lines(log)], [[getattr(o.hull, q)[:, j] for j in range(3)] for q in HULL])
