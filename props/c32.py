"""C32 hull lines."""
from symv.harness import scenario
from .c17 import above, flip

P = 'C32'
LINES = ['deck_centerline', 'deck_port_line', 'deck_starboard_line']


def hull(S, sheer, base, h, l, *clr):
    cs = S.mod('rotations.csys_transformations').CSYS_transformations(h, l, S.arr([0, 0, 0]))
    return S.mod('yacht_geometry.hull_geometry').HullGeometry(sheer, base, cs, *clr)


def sizes(S):
    return S.real('sheer', 0.1, 3, wide=(0.001, 50)), S.real('base', 0.5, 10, wide=(0.01, 200))


@scenario(P)
def upright_lines(S):
    s, b = sizes(S)
    z = S.num(0)
    h = hull(S, s, b, z, z, S.vec('clr'))
    c = h.deck_centerline
    n = len(c)
    S.true('several stations', n > 10)
    x0, ln = -b * S.num('1.1'), 3 * b
    for i in range(n):
        S.eq('centreline', c[i], [x0 + ln * i / (n - 1), 0, s])
    f = S.mod('thin_airfoil.vlm_airfoil').VlmAirfoil(0.01, 0.0, 0.28, n)
    for nm, x, y in (('deck_port_line', f.xu, f.yu), ('deck_starboard_line', f.xl, f.yl)):
        q, u = getattr(h, nm), getattr(h, nm + '_underwater')
        S.same('stations', (len(q), len(u)), (n, n))
        for i in range(n):
            S.eq('outline', q[i], [x0 + ln * x[i], ln * y[n - 1 - i], s])
            S.eq('image of the outline', u[i], [x0 + ln * x[i], ln * y[n - 1 - i], -s])


@scenario(P)
def outline_runs_along_the_centreline(S):
    """from end to end within the thickness of the section; port line not inside the starboard line"""
    s, b = sizes(S)
    z = S.num(0)
    h = hull(S, s, b, z, z, S.vec('clr'))
    p, q = h.deck_port_line, h.deck_starboard_line
    n = len(p)
    for k in (0, n - 1):
        S.le('ends', abs(p[k][0] - h.deck_centerline[k][0]), b * S.num('0.001'))
        S.le('ends', abs(q[k][0] - h.deck_centerline[k][0]), b * S.num('0.001'))
    for i in range(n):
        S.le('breadth', q[i][1], p[i][1] + b * S.num('0.001'))
        S.le('not wider than the section', p[i][1] - q[i][1], 3 * b * S.num('0.2801'))


@scenario(P)
def moved_with_the_yacht(S):
    s, b = sizes(S)
    h, l, z = S.deg('heel', -60, 60, wide=(-180, 180)), S.deg('leeway', -60, 60, wide=(-180, 180)), S.num(0)
    clr = S.vec('clr')
    up, mv = hull(S, s, b, z, z, clr), hull(S, s, b, h, l, clr)
    for nm in LINES:
        a, m = getattr(up, nm), getattr(mv, nm)
        S.same('stations', len(m), len(a))
        for i in range(len(a)):
            S.eq('moved', m[i], above(S, a[i], h, l))
    for nm in LINES[1:]:
        a, u = getattr(mv, nm), getattr(mv, nm + '_underwater')
        for i in range(len(a)):
            S.eq('mirror image', u[i], flip(S, a[i]))


@scenario(P)
def lateral_resistance(S):
    """anywhere, above or below the water: carried along with the hull, never as an image"""
    s, b = sizes(S)
    h, l = S.deg('heel', -60, 60, wide=(-180, 180)), S.deg('leeway', -60, 60, wide=(-180, 180))
    clr = S.vec('clr')
    S.eq('moved with the hull', hull(S, s, b, h, l, clr).center_of_lateral_resistance, above(S, clr, h, l))


@scenario(P)
def default_centre(S):
    s, b = sizes(S)
    h, l = S.deg('heel', -60, 60, wide=(-180, 180)), S.deg('leeway', -60, 60, wide=(-180, 180))
    S.eq('origin', hull(S, s, b, h, l).center_of_lateral_resistance, [0, 0, 0])


@scenario(P)
def length_scales(S):
    """the lines of a hull k times as large are k times as large"""
    s, b = sizes(S)
    k = S.real('k', 0.5, 2, wide=(0.01, 100))
    h, l = S.deg('heel', -60, 60, wide=(-180, 180)), S.deg('leeway', -60, 60, wide=(-180, 180))
    clr = S.vec('clr')
    x, y = hull(S, s, b, h, l, clr), hull(S, s * k, b * k, h, l, clr * k)
    for nm in LINES:
        S.eq('scaled', getattr(y, nm), getattr(x, nm) * k)
    S.eq('centre', y.center_of_lateral_resistance, x.center_of_lateral_resistance * k)
