"""C01 Biot-Savart: straight and semi-infinite vortex filaments."""
from symv.harness import scenario
from .common import EPS, axis_free, core_free

P = 'C01'


@scenario(P)
def segment_is_biot_savart(S):
    v = S.mod('solver.velocity')
    r1, r2, p, g = S.vec('r'), S.vec('s'), S.vec('p'), S.real('g')
    core_free(S, r1, r2)
    got = v.vortex_line(p, p - r1, p - r2, g)
    n1, n2 = S.norm(r1), S.norm(r2)
    S.eq('velocity', got * (4 * S.pi * n1 * n2 * (n1 * n2 + S.dot(r1, r2))), S.cross(r1, r2) * (g * (n1 + n2)))


@scenario(P)
def segment_is_biot_savart_everywhere_in_space(S):
    v = S.mod('solver.velocity')
    a, b, p, g = S.vec('a'), S.vec('b'), S.vec('p'), S.real('g')
    r1, r2 = p - a, p - b
    core_free(S, r1, r2)
    got = v.vortex_line(p, a, b, g)
    r0 = b - a
    k = S.dot(r0, r1) / S.norm(r1) - S.dot(r0, r2) / S.norm(r2)
    S.eq('velocity', got * (4 * S.pi * S.norm2(S.cross(r1, r2))), S.cross(r1, r2) * (g * k))


@scenario(P)
def segment_default_circulation_is_one(S):
    v = S.mod('solver.velocity')
    r1, r2, p = S.vec('r'), S.vec('s'), S.vec('p')
    core_free(S, r1, r2)
    d = S.vec('d')
    axis_free(S, r1, d)
    S.eq('finite', v.vortex_line(p, p - r1, p - r2), v.vortex_line(p, p - r1, p - r2, S.num(1)))
    S.eq('infinite', v.vortex_infinite_line(p, p - r1, d), v.vortex_infinite_line(p, p - r1, d, S.num(1)))


@scenario(P)
def segment_symmetries(S):
    v = S.mod('solver.velocity')
    r1, r2, p = S.vec('r'), S.vec('s'), S.vec('p')
    g, k = S.real('g'), S.real('k')
    got = v.vortex_line(p, p - r1, p - r2, g)
    S.finite('finite', got)
    S.eq('reversed', v.vortex_line(p, p - r2, p - r1, g), -got)
    S.across('orthogonal to first offset', got, r1)
    S.across('orthogonal to second offset', got, r2)
    S.eq('linear in circulation', v.vortex_line(p, p - r1, p - r2, k * g), k * got)


@scenario(P, [{'which': 0}, {'which': 1}, {'which': 2}])
def segment_core_is_zero(S, which):
    v = S.mod('solver.velocity')
    r1, r2, p, g = S.vec('r'), S.vec('s'), S.vec('p'), S.real('g')
    if which == 0:
        S.assume(S.norm(r1) < S.num(EPS))
    elif which == 1:
        S.assume(S.norm(r2) < S.num(EPS))
    else:
        S.assume(S.norm2(S.cross(r1, r2)) < S.num(EPS))
    S.eq('zero', v.vortex_line(p, p - r1, p - r2, g), S.arr([0, 0, 0]))


@scenario(P)
def segment_singular_positions(S):
    v = S.mod('solver.velocity')
    a, b, g = S.vec('a'), S.vec('b'), S.real('g')
    t = S.real('t', -3, 4)
    z = S.arr([0, 0, 0])
    S.eq('at first end', v.vortex_line(a, a, b, g), z)
    S.eq('at second end', v.vortex_line(b, a, b, g), z)
    S.eq('on the line', v.vortex_line(a + t * (b - a), a, b, g), z)
    S.eq('degenerate', v.vortex_line(b, a, a, g), z)


@scenario(P)
def segment_is_never_undefined(S):
    v = S.mod('solver.velocity')
    r1, r2, p, g = S.vec('r'), S.vec('s'), S.vec('p'), S.real('g')
    with S.defined('segment'):
        got = v.vortex_line(p, p - r1, p - r2, g)
    S.finite('finite', got)


@scenario(P)
def semi_infinite_is_biot_savart(S):
    v = S.mod('solver.velocity')
    ap, d, A, g = S.vec('r'), S.vec('d'), S.vec('a'), S.real('g')
    S.assume(S.norm(d) > 0)
    axis_free(S, ap, d)
    got = v.vortex_infinite_line(A + ap, A, d, g)
    n, m = S.norm(ap), S.norm(d)
    S.eq('velocity', got * (4 * S.pi * n * (n * m - S.dot(d, ap))), S.cross(d, ap) * g)
    S.across('orthogonal to axis', got, d)
    S.across('orthogonal to offset', got, ap)


@scenario(P)
def semi_infinite_ignores_direction_length(S):
    v = S.mod('solver.velocity')
    ap, d, A = S.vec('r'), S.vec('d'), S.vec('a')
    g, k, c = S.real('g'), S.pos('k'), S.real('c')
    S.assume(S.norm(d) > 0)
    axis_free(S, ap, d)
    got = v.vortex_infinite_line(A + ap, A, d, g)
    S.eq('scaled direction', v.vortex_infinite_line(A + ap, A, k * d, g), got)
    S.eq('linear in circulation', v.vortex_infinite_line(A + ap, A, d, c * g), c * got)


@scenario(P, [{'axis': i, 'sign': s} for i in range(3) for s in (1, -1)])
def semi_infinite_is_limit_of_segments(S, axis, sign):
    """segment A -> A+d followed by the semi-infinite filament from A+d equals the one from A (d along an axis; see C03)"""
    v = S.mod('solver.velocity')
    ap, A, g, m = S.vec('r'), S.vec('a'), S.real('g'), S.pos('m')
    d = S.arr([sign * m if i == axis else 0 for i in range(3)])
    axis_free(S, ap, d)
    axis_free(S, ap - d, d)
    core_free(S, ap, ap - d)
    whole = v.vortex_infinite_line(A + ap, A, d, g)
    rest = v.vortex_infinite_line(A + ap, A + d, d, g)
    first = v.vortex_line(A + ap, A, A + d, g)
    S.eq('sum', first + rest, whole)


@scenario(P)
def semi_infinite_on_its_axis(S):
    v = S.mod('solver.velocity')
    A, d, g, t = S.vec('a'), S.vec('d'), S.real('g'), S.real('t', -5, 5)
    S.assume(S.norm(d) >= S.num(1e-3))
    with S.defined('axis'):
        got = v.vortex_infinite_line(A + t * d, A, d, g)
        end = v.vortex_infinite_line(A, A, d, g)
    S.eq('on the axis', got, S.arr([0, 0, 0]))
    S.eq('at the start', end, S.arr([0, 0, 0]))
