"""C19 underwater image."""
from symv.harness import scenario
from .c17 import flip
from .c18 import MODES, POS, csys, data, luff, sail

P = 'C19'


def mirrored(S, label, over, under, nc, ns):
    """panel (i, j) below is panel (i, ns-1-j) above in the mirror, its upper corners being the lower ones there"""
    S.same(label + ' count', len(under), len(over))
    swap = (3, 2, 1, 0)
    for i in range(nc):
        for j in range(ns):
            u, o = under[i * ns + j], over[i * ns + ns - 1 - j]
            for k in range(4):
                S.eq(label, u[k], flip(S, o[swap[k]]))


def whole(S, g, nc, ns):
    n = nc * ns
    mirrored(S, 'image corner', g.panels_above, g.panels_under, nc, ns)
    mirrored(S, 'flat image corner', g.panels_above_zero, g.panels_under_zero, nc, ns)
    S.same('all panels', len(g.panels), 2 * n)
    for k in range(n):
        S.eq('above first', g.panels[k], g.panels_above[k])
        S.eq('then below', g.panels[n + k], g.panels_under[k])


SIZES = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 2), (2, 3), (4, 1), (1, 5)]


@scenario(P, [dict(nc=a, ns=b, free=0) for a, b in SIZES] + [dict(nc=2, ns=1, free=1)], thorough=[dict(nc=3, ns=3, free=0), dict(nc=5, ns=4, free=0), dict(nc=3, ns=1, free=1)])
def untwisted(S, nc, ns, free):
    t, h = luff(S, 'free')
    c, m, p = data(S, ns + 1, pos=None if free else POS + (0.0,))
    g = sail(S, t, h, csys(S, S.deg('heel', -80, 80, wide=(-180, 180)), S.deg('leeway', -80, 80, wide=(-180, 180))), nc, ns, c, m, p)
    whole(S, g, nc, ns)


@scenario(P, [dict(nc=a, ns=b, mode=md) for a, b in ((1, 1), (2, 1), (1, 2), (2, 2)) for md in MODES], thorough=[dict(nc=2, ns=3, mode=md) for md in MODES] + [dict(nc=3, ns=2, mode=md) for md in MODES])
def twisted_upright(S, nc, ns, mode):
    t, h = luff(S, 'rig' if (nc, ns) == (1, 1) else 'upright')
    c, m, p = data(S, ns + 1, pos=POS)
    tw = S.arr([S.deg('w%d' % j, -10, 60) for j in range(ns + 1)])
    g = sail(S, t, h, csys(S, S.num(0), S.num(0)), nc, ns, c, m, p, tw, mode)
    whole(S, g, nc, ns)


@scenario(P, [dict(nc=a, ns=b, mode=md) for a, b in ((1, 1), (2, 1), (1, 2), (2, 2)) for md in MODES], thorough=[dict(nc=a, ns=b, mode=md) for md in MODES for a, b in ((1, 3), (3, 1))])
def twisted_and_heeled(S, nc, ns, mode):
    t, h = luff(S, 'fixed')
    c, m, p = data(S, ns + 1, pos=POS)
    tw = S.arr([S.deg('w%d' % j, -10, 60) for j in range(ns + 1)])
    g = sail(S, t, h, csys(S, S.deg('heel', -60, 60), S.deg('leeway', -60, 60)), nc, ns, c, m, p, tw, mode)
    whole(S, g, nc, ns)
