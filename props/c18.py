"""C18 sail meshes."""
from symv.harness import scenario
from .c16 import rodrigues
from .c17 import above, flip

P = 'C18'


def naca(S, m, p, x):
    """camber of the NACA four-digit line at x (branches on the side of the maximum)"""
    if p > 0 and x <= p:
        return m / (p * p) * (2 * p * x - x * x)
    return m / ((1 - p) * (1 - p)) * (1 - 2 * p + 2 * p * x - x * x)


def csys(S, h, l):
    return S.mod('rotations.csys_transformations').CSYS_transformations(h, l, S.arr([0, 0, 0]))


def luff(S, kind):
    """(tack, head) above the water"""
    if kind == 'free':
        t = S.arr([S.real('tx', -5, 5, wide=(-100, 100)), S.real('ty', -2, 2, wide=(-100, 100)), S.real('tz', 0.5, 3, wide=(0.01, 50))])
        h = S.arr([S.real('hx', -5, 5, wide=(-100, 100)), S.real('hy', -2, 2, wide=(-100, 100)), S.real('hz', 4, 20, wide=(0.02, 100))])
    elif kind == 'rig':
        t = S.arr([S.real('tx', -5, 5, wide=(-100, 100)), 0, S.real('tz', 0.5, 3, wide=(0.01, 50))])
        h = S.arr([S.real('hx', -5, 5, wide=(-100, 100)), 0, S.real('hz', 4, 20, wide=(0.02, 100))])
    elif kind == 'upright':
        t = S.arr([S.real('tx', -5, 5, wide=(-100, 100)), 0, S.real('tz', 0.5, 3, wide=(0.01, 50))])
        h = S.arr([t[0], 0, S.real('hz', 4, 20, wide=(0.02, 100))])
    else:
        t, h = S.arr([S.num(-1), S.num(0), S.num(2)]), S.arr([S.num(2), S.num(0), S.num(6)])
    if kind != 'fixed':
        S.assume(h[2] > t[2] + S.num('0.01'))
    return t, h


def data(S, n, camber=True, pos=None, chords=True):
    """chords, cambers and camber positions of n sections"""
    c = [S.real('c%d' % i, 0.2, 5, wide=(0.01, 100)) for i in range(n)] if chords else [S.num(2 - i * 0.5) for i in range(n)]
    m = [S.real('m%d' % i, 0, 0.3) if camber else S.num(0.125) for i in range(n)]
    p = [S.real('p%d' % i, 0, 0.9) for i in range(n)] if pos is None else [S.num(pos[i % len(pos)]) for i in range(n)]
    return S.arr(c), S.arr(m), S.arr(p)


def sail(S, t, h, cs, nc, ns, c, m, p, twist=None, mode=None, name='main_sail'):
    G = S.mod('yacht_geometry.sail_geometry').SailGeometry
    return G(h, t, cs, n_spanwise=ns, n_chordwise=nc, chords=c, initial_sail_twist_deg=twist, name=name, LLT_twist=mode,
             interpolated_camber=m, interpolated_distance_from_luff=p)


def ref_mesh(S, t, h, nc, ns, c, m, p):
    """[section][station] of the upright, untwisted sail"""
    out = []
    for j in range(ns + 1):
        le = t + (h - t) * S.num(j) / ns
        row = []
        for i in range(nc + 1):
            x = S.num(i) / nc
            row.append(S.arr([le[0] + c[j] * x, le[1] + c[j] * naca(S, m[j], p[j], x), le[2]]))
        out.append(row)
    return out


def ref_panels(S, mesh):
    nc, ns = len(mesh[0]) - 1, len(mesh) - 1
    return [[mesh[j][i + 1], mesh[j][i], mesh[j + 1][i], mesh[j + 1][i + 1]] for i in range(nc) for j in range(ns)]


def same_panels(S, label, got, ref):
    S.same(label + ' count', len(got), len(ref))
    for g, r in zip(got, ref):
        for k in range(4):
            S.eq(label, g[k], r[k])


POS = (0.5, 0.25, 0.75)


@scenario(P, [dict(nc=1, ns=1, free=1), dict(nc=2, ns=1, free=1), dict(nc=2, ns=2, free=0), dict(nc=3, ns=2, free=0), dict(nc=1, ns=3, free=0), dict(nc=4, ns=3, free=0), dict(nc=3, ns=1, free=1), dict(nc=6, ns=2, free=0),
              dict(nc=2, ns=7, free=0), dict(nc=11, ns=1, free=0)],
          thorough=[dict(nc=2, ns=2, free=1), dict(nc=11, ns=12, free=0), dict(nc=20, ns=2, free=0)], max_paths=600)
def upright_mesh(S, nc, ns, free):
    t, h = luff(S, 'free')
    c, m, p = data(S, ns + 1, pos=None if free else (0.5, 0.25, 0.75, 0.0))
    g = sail(S, t, h, csys(S, S.num(0), S.num(0)), nc, ns, c, m, p)
    ref = ref_panels(S, ref_mesh(S, t, h, nc, ns, c, m, p))
    same_panels(S, 'panel corner', g.panels_above, ref)
    same_panels(S, 'flat reference corner', g.panels_above_zero, ref)
    S.same('sizes', (g.n_chordwise, g.n_spanwise, g.name), (nc, ns, 'main_sail'))
    S.same('trailing edge', [bool(b) for b in g.trailing_edge_info], [False] * (ns * (nc - 1)) + [True] * ns)
    S.same('leading edge', [bool(b) for b in g.leading_edge_info], [nc > 1] * ns + [False] * (ns * (nc - 1)))


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=1), dict(nc=1, ns=2), dict(nc=2, ns=2), dict(nc=3, ns=3), dict(nc=1, ns=6), dict(nc=5, ns=1)], thorough=[dict(nc=5, ns=6)])
def moves_with_the_yacht(S, nc, ns):
    t, h = luff(S, 'free')
    c, m, p = data(S, ns + 1, pos=POS + (0.0,))
    he, le = S.deg('heel', -80, 80, wide=(-180, 180)), S.deg('leeway', -80, 80, wide=(-180, 180))
    g = sail(S, t, h, csys(S, he, le), nc, ns, c, m, p)
    up = ref_mesh(S, t, h, nc, ns, c, m, p)
    same_panels(S, 'panel corner', g.panels_above, ref_panels(S, [[above(S, q, he, le) for q in r] for r in up]))
    same_panels(S, 'flat reference corner', g.panels_above_zero, ref_panels(S, up))


MODES = ('real_twist', 'sheeting_angle_const', 'average_const')


def twist_angles(S, tw, mode):
    if mode == 'real_twist':
        return tw
    if mode == 'average_const':
        return [sum(tw[1:], tw[0]) / len(tw)] * len(tw)
    lo = tw[0]
    for x in tw[1:]:
        if x < lo:
            lo = x
    return [lo] * len(tw)


def twisted(S, up, tw, mode, move):
    """every section turned about the moved luff by its sheeting angle"""
    an = twist_angles(S, tw, mode)
    mv = [[move(q) for q in r] for r in up]
    base, axis = mv[0][0], mv[-1][0] - mv[0][0]
    return [[base + rodrigues(S, q - base, axis, an[j] * S.pi / 180) for q in r] for j, r in enumerate(mv)]


@scenario(P, [dict(nc=nc, ns=ns, mode=md, lf=lf) for md in MODES for nc, ns, lf in ((1, 1, 'rig'), (2, 1, 'upright'), (1, 2, 'upright'), (2, 2, 'fixed'), (3, 1, 'fixed'), (1, 4, 'fixed'))],
          thorough=[dict(nc=nc, ns=ns, mode=md, lf=lf) for md in MODES for nc, ns, lf in ((1, 1, 'free'), (2, 3, 'fixed'), (3, 4, 'fixed'))],
          whole=[dict(nc=2, ns=1, mode=md, lf=lf) for md, lf in zip(MODES, ('rig', 'upright', 'fixed'))])
def twist_about_the_luff(S, nc, ns, mode, lf):
    t, h = luff(S, lf)
    c, m, p = data(S, ns + 1, pos=POS)
    tw = [S.deg('w%d' % j, -10, 60) for j in range(ns + 1)]
    g = sail(S, t, h, csys(S, S.num(0), S.num(0)), nc, ns, c, m, p, S.arr(tw), mode)
    up = ref_mesh(S, t, h, nc, ns, c, m, p)
    ref = twisted(S, up, tw, mode, lambda q: q)
    same_panels(S, 'panel corner', g.panels_above, ref_panels(S, ref))
    for k, q in enumerate(g.panels_above[:ns]):
        S.eq('luff stays', [q[1], q[2]], [up[k][0], up[k + 1][0]])
    same_panels(S, 'flat reference corner', g.panels_above_zero, ref_panels(S, up))


@scenario(P, [dict(nc=nc, ns=ns, mode=md) for md in MODES for nc, ns in ((1, 1), (2, 1), (1, 2), (2, 2))], thorough=[dict(nc=a, ns=b, mode=md) for md in MODES for a, b in ((3, 2), (1, 4))],
          whole=[dict(nc=1, ns=2, mode=md) for md in MODES])
def twist_of_a_heeled_sail(S, nc, ns, mode):
    """twist after heel and leeway"""
    t, h = luff(S, 'fixed')
    c, m, p = data(S, ns + 1, pos=POS)
    he, le = S.deg('heel', -60, 60), S.deg('leeway', -60, 60)
    tw = [S.deg('w%d' % j, -10, 60) for j in range(ns + 1)]
    g = sail(S, t, h, csys(S, he, le), nc, ns, c, m, p, S.arr(tw), mode)
    up = ref_mesh(S, t, h, nc, ns, c, m, p)
    same_panels(S, 'panel corner', g.panels_above, ref_panels(S, twisted(S, up, tw, mode, lambda q: above(S, q, he, le))))


@scenario(P, [dict(tw=a, mode=b) for a, b in ((0, 'real_twist'), (1, None))])
def twist_needs_angles_and_mode(S, tw, mode):
    t, h = luff(S, 'free')
    c, m, p = data(S, 2, pos=POS)
    w = S.arr([S.deg('w0', -10, 60), S.deg('w1', -10, 60)]) if tw else None
    g = sail(S, t, h, csys(S, S.num(0), S.num(0)), 2, 1, c, m, p, w, mode)
    same_panels(S, 'untwisted corner', g.panels_above, ref_panels(S, ref_mesh(S, t, h, 2, 1, c, m, p)))


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=2), dict(nc=3, ns=1), dict(nc=4, ns=5), dict(nc=1, ns=9), dict(nc=12, ns=1)])
def airfoil_mesh(S, nc, ns):
    """the mesh function itself, with chord vectors along the centreline"""
    f = S.mod('solver.mesher').make_airfoil_mesh
    t, h = S.vec('t'), S.vec('h')
    c, m, p = data(S, ns + 1, pos=POS + (0.0,))
    got = f([t, h], [nc, ns], S.arr([[x, 0, 0] for x in c]), p, m)
    ref = ref_mesh(S, t, h, nc, ns, c, m, p)
    S.same('sections', len(got), ns + 1)
    for a, b in zip(got, ref):
        S.same('stations', len(a), nc + 1)
        for x, y in zip(a, b):
            S.eq('point', x, y)
