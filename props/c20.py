"""C20 sails on the rig."""
from symv.harness import scenario
from .c17 import above
from .c18 import csys, data, ref_mesh, ref_panels, same_panels

P = 'C20'


def rig(S):
    r = S.deg('rake', 60, 120, wide=(10, 170))
    return r, S.real('sheer', 0.1, 4, wide=(0.01, 50))


def factory(S, cs, nc, ns, r, sheer):
    return S.mod('yacht_geometry.sail_factory').SailFactory(cs, n_spanwise=ns, n_chordwise=nc, rake_deg=r, sheer_above_waterline=sheer)


def mast(S, r):
    """unit vector up the mast"""
    return S.arr([-S.cos(r), 0, S.sin(r)])


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=2), dict(nc=1, ns=3), dict(nc=3, ns=1), dict(nc=3, ns=4)])
def main_sail(S, nc, ns):
    r, sheer = rig(S)
    lf, boom = S.real('luff', 0.01, 30, wide=(0.01, 300)), S.real('boom', 0, 3, wide=(0, 50))
    c, m, p = data(S, ns + 1, pos=(0.5, 0.25, 0.75))
    g = factory(S, csys(S, S.num(0), S.num(0)), nc, ns, r, sheer).make_main_sail(
        lf, boom, main_sail_chords=c, interpolated_camber=m, interpolated_distance_from_luff=p)
    tack = (sheer + boom) * mast(S, r)
    head = tack + lf * mast(S, r)
    S.eq('tack', g.tack_mounting, tack)
    S.eq('head', g.head_mounting, head)
    S.same('grid', (g.n_chordwise, g.n_spanwise, g.name), (nc, ns, 'main_sail'))
    same_panels(S, 'panel corner', g.panels_above, ref_panels(S, ref_mesh(S, tack, head, nc, ns, c, m, p)))


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=2), dict(nc=1, ns=3), dict(nc=3, ns=1), dict(nc=3, ns=4)])
def jib(S, nc, ns):
    """forestay from the foot of the foretriangle to the mast at the foretriangle height"""
    r, sheer = rig(S)
    lf, base, hgt, mst = S.real('luff', 0.01, 30, wide=(0.01, 300)), S.real('base', 1, 10, wide=(0.1, 100)), S.real('height', 1, 30, wide=(0.1, 300)), S.real('mast', 0, 1, wide=(0, 20))
    S.assume(base > hgt * S.cos(r))
    c, m, p = data(S, ns + 1, pos=(0.5, 0.25, 0.75))
    g = factory(S, csys(S, S.num(0), S.num(0)), nc, ns, r, sheer).make_jib(
        lf, base, hgt, jib_chords=c, mast_LOA=mst, interpolated_camber=m, interpolated_distance_from_luff=p)
    at_sheer = sheer * mast(S, r)
    tack = at_sheer - S.arr([base + mst / S.sin(r), 0, 0])
    stay = hgt * mast(S, r) + S.arr([base, 0, 0])
    head = tack + stay * (lf / S.norm(stay))
    S.eq('tack', g.tack_mounting, tack)
    S.eq('head', g.head_mounting, head)
    S.same('grid', (g.n_chordwise, g.n_spanwise, g.name), (nc, ns, 'jib'))
    same_panels(S, 'flat panel corner', g.panels_above_zero, ref_panels(S, ref_mesh(S, g.tack_mounting, g.head_mounting, nc, ns, c, m, p)))


@scenario(P)
def vertical_mast(S):
    """rake 90 degrees: the foretriangle is right-angled"""
    sheer, lf, boom = S.real('sheer', 0.1, 4, wide=(0.01, 50)), S.real('luff', 0.01, 30, wide=(0.01, 300)), S.real('boom', 0, 3, wide=(0, 50))
    base, hgt, mst = S.real('base', 1, 10, wide=(0.1, 100)), S.real('height', 1, 30, wide=(0.1, 300)), S.real('mast', 0, 1, wide=(0, 20))
    c, m, p = data(S, 2, pos=(0.5, 0.25))
    f = factory(S, csys(S, S.num(0), S.num(0)), 1, 1, S.num(90), sheer)
    k = dict(interpolated_camber=m, interpolated_distance_from_luff=p)
    a = f.make_main_sail(lf, boom, main_sail_chords=c, **k)
    S.eq('main tack', a.tack_mounting, [0, 0, sheer + boom])
    S.eq('main head', a.head_mounting, [0, 0, sheer + boom + lf])
    b = f.make_jib(lf, base, hgt, jib_chords=c, mast_LOA=mst, **k)
    w = S.np.sqrt(base * base + hgt * hgt)
    S.eq('jib tack', b.tack_mounting, [-base - mst, 0, sheer])
    S.eq('jib head', b.head_mounting, [-base - mst + lf * base / w, 0, sheer + lf * hgt / w])


@scenario(P, [dict(which='main'), dict(which='jib')])
def heel_twist_and_mode_reach_the_sail(S, which):
    sheer, lf = S.real('sheer', 0.1, 4, wide=(0.01, 50)), S.real('luff', 0.01, 30, wide=(0.01, 300))
    he, le = S.deg('heel', -60, 60, wide=(-180, 180)), S.deg('leeway', -60, 60, wide=(-180, 180))
    c, m, p = data(S, 2, pos=(0.5, 0.25))
    f = factory(S, csys(S, he, le), 2, 1, S.num(90), sheer)
    k = dict(interpolated_camber=m, interpolated_distance_from_luff=p)
    if which == 'main':
        g = f.make_main_sail(lf, S.num(1), main_sail_chords=c, **k)
    else:
        g = f.make_jib(lf, S.num(3), S.num(4), jib_chords=c, **k)
    up = ref_mesh(S, g.tack_mounting, g.head_mounting, 2, 1, c, m, p)
    same_panels(S, 'heeled corner', g.panels_above, ref_panels(S, [[above(S, q, he, le) for q in row] for row in up]))


@scenario(P, [dict(which=w, mode=md) for w in ('main', 'jib') for md in ('real_twist', 'sheeting_angle_const')])
def twist_reaches_the_sail(S, which, mode):
    """the sail made by the factory equals the sail geometry built from the same mounting points and data"""
    sheer = S.real('sheer', 0.1, 4, wide=(0.01, 50))
    c, m, p = data(S, 2, pos=(0.5, 0.25))
    w = S.arr([S.deg('w0', 0, 30), S.deg('w1', 31, 60)])
    cs = csys(S, S.num(0), S.num(0))
    f = factory(S, cs, 1, 1, S.num(90), sheer)
    k = dict(sail_twist_deg=w, LLT_twist=mode, interpolated_camber=m, interpolated_distance_from_luff=p)
    if which == 'main':
        g = f.make_main_sail(S.num(5), S.num(1), main_sail_chords=c, **k)
    else:
        g = f.make_jib(S.num(5), S.num(3), S.num(4), jib_chords=c, **k)
    from .c18 import twisted
    up = ref_mesh(S, g.tack_mounting, g.head_mounting, 1, 1, c, m, p)
    same_panels(S, 'twisted corner', g.panels_above, ref_panels(S, twisted(S, up, list(w), mode, lambda q: q)))
