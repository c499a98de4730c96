"""C02 rings and horseshoes are sums of their filaments."""
from symv.harness import scenario
from .common import axis_free, core_free, ref_inf, ref_line

P = 'C02'


def corners(S, n, names='abcdef'):
    p = S.vec('p')
    off = [S.vec(names[i]) for i in range(n)]
    return p, off, [p - o for o in off]


@scenario(P)
def ring_is_sum_of_four_sides(S):
    v = S.mod('solver.velocity')
    p, o, (A, B, C, D) = corners(S, 4)
    g = S.real('g')
    for i in range(4):
        core_free(S, o[i], o[(i + 1) % 4])
    ref = ref_line(S, p, A, B, g) + ref_line(S, p, B, C, g) + ref_line(S, p, C, D, g) + ref_line(S, p, D, A, g)
    S.eq('ring', v.vortex_ring(p, A, B, C, D, g), ref)


@scenario(P)
def ring_default_circulation(S):
    v = S.mod('solver.velocity')
    p, o, (A, B, C, D) = corners(S, 4)
    W = S.vec('w')
    S.assume(S.norm(W) > 0)
    for i in range(4):
        core_free(S, o[i], o[(i + 1) % 4])
        axis_free(S, o[i], W)
    S.eq('ring', v.vortex_ring(p, A, B, C, D), v.vortex_ring(p, A, B, C, D, S.num(1)))
    S.eq('horseshoe', v.vortex_horseshoe(p, B, C, W), v.vortex_horseshoe(p, B, C, W, S.num(1)))
    S.eq('trailing', v.vortex_horseshoe_v2(p, A, B, C, D, W), v.vortex_horseshoe_v2(p, A, B, C, D, W, S.num(1)))


@scenario(P)
def horseshoe_is_bound_plus_legs(S):
    v = S.mod('solver.velocity')
    p, o, (B, C) = corners(S, 2)
    W, g = S.vec('w'), S.real('g')
    S.assume(S.norm(W) > 0)
    core_free(S, o[0], o[1])
    axis_free(S, o[0], W)
    axis_free(S, o[1], W)
    ref = ref_line(S, p, B, C, g) + ref_inf(S, p, C, W, g) + ref_inf(S, p, B, W, -g)
    S.eq('horseshoe', v.vortex_horseshoe(p, B, C, W, g), ref)


@scenario(P)
def trailing_vortex_is_three_sides_plus_legs(S):
    v = S.mod('solver.velocity')
    p, o, (A, B, C, D) = corners(S, 4)
    W, g = S.vec('w'), S.real('g')
    S.assume(S.norm(W) > 0)
    for i in range(3):
        core_free(S, o[i], o[i + 1])
    axis_free(S, o[0], W)
    axis_free(S, o[3], W)
    ref = (ref_line(S, p, A, B, g) + ref_line(S, p, B, C, g) + ref_line(S, p, C, D, g)
           + ref_inf(S, p, D, W, g) + ref_inf(S, p, A, W, -g))
    S.eq('trailing', v.vortex_horseshoe_v2(p, A, B, C, D, W, g), ref)


@scenario(P)
def linear_in_circulation(S):
    v = S.mod('solver.velocity')
    p, o, (A, B, C, D) = corners(S, 4)
    W, g, k = S.vec('w'), S.real('g'), S.real('k')
    S.assume(S.norm(W) > 0)
    for i in range(4):
        core_free(S, o[i], o[(i + 1) % 4])
        axis_free(S, o[i], W)
    S.eq('ring', v.vortex_ring(p, A, B, C, D, k * g), k * v.vortex_ring(p, A, B, C, D, g))
    S.eq('horseshoe', v.vortex_horseshoe(p, B, C, W, k * g), k * v.vortex_horseshoe(p, B, C, W, g))
    S.eq('trailing', v.vortex_horseshoe_v2(p, A, B, C, D, W, k * g), k * v.vortex_horseshoe_v2(p, A, B, C, D, W, g))


@scenario(P)
def reversed_ring_is_opposite(S):
    v = S.mod('solver.velocity')
    p, o, (A, B, C, D) = corners(S, 4)
    g = S.real('g')
    for i in range(4):
        core_free(S, o[i], o[(i + 1) % 4])
    r = v.vortex_ring(p, A, B, C, D, g)
    S.eq('reversed order', v.vortex_ring(p, D, C, B, A, g), -r)
    S.eq('any starting corner', v.vortex_ring(p, C, D, A, B, g), r)


@scenario(P)
def shared_side_cancels(S):
    """rings A B C D and D C E F: side C-D disappears"""
    v = S.mod('solver.velocity')
    p, o, (A, B, C, D, E, F) = corners(S, 6)
    g = S.real('g')
    for i, j in ((0, 1), (1, 2), (2, 3), (3, 0), (2, 4), (4, 5), (5, 3)):
        core_free(S, o[i], o[j])
    both = v.vortex_ring(p, A, B, C, D, g) + v.vortex_ring(p, D, C, E, F, g)
    ref = (ref_line(S, p, A, B, g) + ref_line(S, p, B, C, g) + ref_line(S, p, C, E, g) + ref_line(S, p, E, F, g)
           + ref_line(S, p, F, D, g) + ref_line(S, p, D, A, g))
    S.eq('outline', both, ref)


@scenario(P, [{'num': 1, 'den': 2}, {'num': 1, 'den': 3}, {'num': 4, 'den': 5}])
def splitting_a_filament(S, num, den):
    """the point A + (num/den)(B - A) splits A-B without changing the velocity"""
    v = S.mod('solver.velocity')
    p, o, (A, B) = corners(S, 2)
    g = S.real('g')
    m = A + (B - A) * num / den
    core_free(S, o[0], o[1])
    core_free(S, o[0], p - m)
    core_free(S, p - m, o[1])
    S.eq('parts', v.vortex_line(p, A, m, g) + v.vortex_line(p, m, B, g), v.vortex_line(p, A, B, g))


@scenario(P, [{'axis': i, 'sign': s} for i in range(3) for s in (1, -1)])
def aft_corners_along_the_wind(S, axis, sign):
    """aft corners downwind of the bound corners: the trailing vortex is the plain horseshoe (wind along an axis; see C03)"""
    v = S.mod('solver.velocity')
    p, o, (B, C) = corners(S, 2)
    g, k, l, m = S.real('g'), S.pos('k'), S.pos('l'), S.pos('m')
    W = S.arr([sign * m if i == axis else 0 for i in range(3)])
    e = S.arr([sign if i == axis else 0 for i in range(3)])
    A, D = B + k * e, C + l * e
    core_free(S, o[0], o[1])
    core_free(S, p - A, o[0])
    core_free(S, o[1], p - D)
    for q in (A, B, C, D):
        axis_free(S, p - q, W)
    S.eq('same', v.vortex_horseshoe_v2(p, A, B, C, D, W, g), v.vortex_horseshoe(p, B, C, W, g))


@scenario(P)
def far_ring_sides_coincide(S):
    """a ring folded onto itself induces nothing"""
    v = S.mod('solver.velocity')
    p, o, (A, B) = corners(S, 2)
    g = S.real('g')
    core_free(S, o[0], o[1])
    S.eq('folded', v.vortex_ring(p, A, B, B, A, g), S.arr([0, 0, 0]))
