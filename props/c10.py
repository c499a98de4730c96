"""C10 panels from a mesh and their edge flags."""
from symv.harness import scenario

P = 'C10'
SHAPES = [dict(r=r, c=c) for r, c in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (4, 3), (4, 4), (5, 2), (6, 3), (7, 2), (9, 4), (2, 9), (3, 9), (3, 12), (12, 3), (2, 14), (14, 2), (9, 9))]


@scenario(P, SHAPES, thorough=[dict(r=5, c=6), dict(r=8, c=3), dict(r=2, c=40), dict(r=17, c=21), dict(r=33, c=3)])
def tiles(S, r, c):
    p = S.mod('solver.panels')
    mesh = S.arr([[[S.real('m%d_%d%s' % (i, j, x)) for x in 'xyz'] for j in range(c)] for i in range(r)])
    panels, te, le = p.make_panels_from_mesh_spanwise(mesh)
    S.same('number of panels', [len(panels), len(te), len(le)], [(r - 1) * (c - 1)] * 3)
    k = 0
    for i in range(r - 1):
        for j in range(c - 1):
            S.eq('corners', panels[k], [mesh[i + 1][j], mesh[i][j], mesh[i][j + 1], mesh[i + 1][j + 1]])
            S.same('trailing edge flag', bool(te[k]), i == r - 2)
            S.same('leading edge flag', bool(le[k]), i == 0 and r > 2)
            k += 1


@scenario(P, [dict(nc=1, ns=1), dict(nc=1, ns=2), dict(nc=2, ns=1), dict(nc=2, ns=2), dict(nc=3, ns=2), dict(nc=6, ns=2), dict(nc=2, ns=7), dict(nc=9, ns=1),
              dict(nc=1, ns=9), dict(nc=5, ns=4)],
          thorough=[dict(nc=12, ns=9)])
def wing_flags(S, nc, ns):
    p = S.mod('solver.panels')
    pts = [S.vec(n) for n in 'abcd']
    panels, te, le = p.make_panels_from_le_te_points(pts, [nc, ns])
    S.same('number of panels', [len(panels), len(te), len(le)], [nc * ns] * 3)
    for k in range(nc * ns):
        S.same('trailing edge flag', bool(te[k]), k // ns == nc - 1)
        S.same('leading edge flag', bool(le[k]), k // ns == 0 and nc > 1)
