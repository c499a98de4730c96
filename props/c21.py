"""C21 sail sets."""
import types

from symv.harness import scenario
from .c18 import csys, data, luff, sail
from .lattice import flags

P = 'C21'


def fake_sail(S, tag, nc, ns, te, le):
    n = nc * ns
    blk = lambda k: S.arr([[[S.real('%s%s%d%d%d' % (tag, k, i, j, d)) for d in range(3)] for j in range(4)] for i in range(n)])
    a, u, az, uz = (blk(k) for k in ('a', 'u', 'A', 'U'))
    return types.SimpleNamespace(name=tag, n_chordwise=nc, n_spanwise=ns, panels_above=a, panels_under=u, panels=S.np.concatenate([a, u]),
                                 panels_above_zero=az, panels_under_zero=uz, trailing_edge_info=flags(te), leading_edge_info=flags(le))


SETS = {'one': [(2, 1)], 'two': [(2, 2), (1, 2)], 'equal': [(1, 2), (1, 2)], 'three': [(2, 2), (3, 1), (1, 2)]}


@scenario(P, [dict(k=k) for k in SETS])
def order(S, k):
    """any panels, any flags: all sails above, then all sails below, everything in the same order"""
    sails = []
    for q, (nc, ns) in enumerate(SETS[k]):
        n = nc * ns
        te = [(i * 7 + q) % 3 == 0 for i in range(n)]
        le = [(i * 5 + q) % 2 == 0 for i in range(n)]
        sails.append(fake_sail(S, 'sail%d' % q, nc, ns, te, le))
    st = S.mod('yacht_geometry.sail_geometry').SailSet(sails)
    ref = [p for s in sails for p in s.panels_above] + [p for s in sails for p in s.panels_under]
    flat = [p for s in sails for p in s.panels_above_zero] + [p for s in sails for p in s.panels_under_zero]
    te = [bool(b) for s in sails for b in s.trailing_edge_info] * 2
    le = [bool(b) for s in sails for b in s.leading_edge_info] * 2
    S.same('panel count', len(st.panels), len(ref))
    S.same('flat mesh count', len(st.zero_mesh), len(ref))
    for i in range(len(ref)):
        S.eq('panel', st.panels[i], ref[i])
        S.eq('flat panel', st.zero_mesh[i], flat[i])
    S.same('trailing edges', [bool(b) for b in st.trailing_edge_info], te)
    S.same('leading edges', [bool(b) for b in st.leading_edge_info], le)
    S.true('sails in order', all(a is b for a, b in zip(st.sails, sails)) and len(st.sails) == len(sails))


@scenario(P, [dict(nc=1, ns=2), dict(nc=2, ns=1), dict(nc=2, ns=2), dict(nc=1, ns=1), dict(nc=3, ns=2), dict(nc=2, ns=3), dict(nc=4, ns=1), dict(nc=1, ns=5)], thorough=[dict(nc=6, ns=3), dict(nc=3, ns=7)])
def same_panel_everywhere(S, nc, ns):
    """upright untwisted sails: entry k of the flat mesh is entry k of the panels; edge flags sit on the sail edges"""
    cs = csys(S, S.num(0), S.num(0))
    gs = []
    for q in range(2):
        t, h = luff(S, 'fixed')
        sh = S.arr([S.real('s%d' % q, -4, 4, wide=(-100, 100)), 0, 0])
        c = S.arr([S.real('c%d%d' % (q, i), 0.2, 3, wide=(0.01, 100)) for i in range(ns + 1)])
        _, m, p = data(S, ns + 1, pos=(0.5, 0.25, 0.75, 0.5))
        gs.append(sail(S, t + sh, h + sh, cs, nc, ns, c, m, p))
    st = S.mod('yacht_geometry.sail_geometry').SailSet(gs)
    n = nc * ns
    S.same('count', len(st.panels), 4 * n)
    for i in range(4 * n):
        S.eq('same panel', st.panels[i], st.zero_mesh[i])
        S.true('side of the water', (st.panels[i][0][2] > 0) == (i < 2 * n))
    for i in range(4 * n):
        local, q = i % n, (i // n) % 2
        aft, fore = local // ns == nc - 1, local // ns == 0 and nc > 1
        S.same('aft row', bool(st.trailing_edge_info[i]), aft)
        S.same('fore row', bool(st.leading_edge_info[i]), fore)


def config(S, nc, ns, what):
    """real configuration objects with free numbers"""
    C = S.mod('runner.container')
    g = S.arr([0, S.num('0.5'), 1])
    A = lambda k, lo, hi: S.arr([S.real('%s%d' % (k, i), lo, hi) for i in range(3)])
    pos = S.arr([0.5, 0.5, 0.5])
    main = C.MainSail(centerline_twist_deg=S.arr([0, 0, 0]), girths=g, chords=A('mc', 1, 4), camber=A('mm', 0.01, 0.2), camber_distance_from_luff=pos)
    jib = C.JibSail(centerline_twist_deg=S.arr([0, 0, 0]), girths=g, chords=A('jc', 1, 4), camber=A('jm', 0.01, 0.2), camber_distance_from_luff=pos)
    rig = C.Rig(main_sail_luff=S.pos('ml', 20), jib_luff=S.pos('jl', 20), foretriangle_height=S.num(8), foretriangle_base=S.num(6),
                sheer_above_waterline=S.real('sheer', 0.1, 3), boom_above_sheer=S.real('boom', 0, 2), rake_deg=S.num(90), mast_LOA=S.real('mast', 0, 0.5), sails_def=what)
    sol = C.Solver(n_spanwise=ns, n_chordwise=nc, interpolation_type='linear')
    return sol, rig, main, jib


@scenario(P, [dict(what=w, nc=a, ns=b) for w in ('jib', 'main', 'jib_and_main') for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2))])
def definitions(S, what, nc, ns):
    sol, rig, main, jib = config(S, nc, ns, what)
    cs = csys(S, S.num(0), S.num(0))
    st = S.mod('runner.sail').Sail(sol, rig, main, jib, cs).sail_set
    names = {'jib': ['jib'], 'main': ['main_sail'], 'jib_and_main': ['jib', 'main_sail']}[what]
    S.same('sails', [s.name for s in st.sails], names)
    n = nc * ns
    S.same('panel count', len(st.panels), 2 * n * len(names))
    tack = {'jib': [-rig.foretriangle_base - rig.mast_LOA, 0, rig.sheer_above_waterline],
            'main_sail': [0, 0, rig.sheer_above_waterline + rig.boom_above_sheer]}
    foot = {'jib': jib, 'main_sail': main}
    for k, nm in enumerate(names):
        q = st.panels[k * n]
        S.eq('tack of the sail', q[1], tack[nm])
        last = st.panels[k * n + n - ns]
        S.eq('clew of the sail', last[0][0] - q[1][0], foot[nm].chords[0])
        i = (len(names) + k) * n + ns - 1
        S.eq('tack of the image', st.panels[i][2], [tack[nm][0], 0, -tack[nm][2]])
    for i in range(len(st.panels)):
        S.eq('flat mesh entry', st.panels[i], st.zero_mesh[i])
