"""C16 rotations."""
from symv.harness import scenario

P = 'C16'
FNS = [{'fn': f} for f in ('matrix', 'origin', 'arbitrary')]


def rot(S, fn, pts, axis, th, base=None):
    """rotate the points about the axis through the origin (through base for the arbitrary axis)"""
    g = S.mod('rotations.geometry_calc')
    if fn == 'matrix':
        R = g.rotation_matrix(axis, th)
        return [S.np.dot(R, p) for p in pts]
    if fn == 'origin':
        return list(g.rotate_points_around_origin_axis(S.arr([list(p) for p in pts]), axis, th))
    b = S.arr([0, 0, 0]) if base is None else base
    return list(g.rotate_points_around_arbitrary_axis(S.arr([list(p) for p in pts]), b, b + axis, th))


def rodrigues(S, p, axis, th):
    n2 = S.norm2(axis)
    n = S.norm(axis)
    c, s = S.np.cos(th), S.np.sin(th)
    return c * p + S.cross(axis, p) * (s / n) + axis * (S.dot(axis, p) * (1 - c) / n2)


@scenario(P, FNS)
def counter_clockwise_by_the_angle(S, fn):
    """any axis, any angle, any point: Rodrigues' formula"""
    a, p, th = S.vec('a'), S.vec('p'), S.ang('t', -7, 7)
    S.assume(S.norm(a) > 0)
    if fn == 'arbitrary':
        S.assume(a[1] * a[1] + a[2] * a[2] > 0)
    S.eq('turned point', rot(S, fn, [p], a, th)[0], rodrigues(S, p, a, th))


@scenario(P, [dict(fn=f, ax=x, sign=s) for f in ('matrix', 'origin', 'arbitrary') for x in (0, 1, 2) for s in (1, -1)])
def coordinate_axes(S, fn, ax, sign):
    """every coordinate axis, both ways and any length"""
    k, p, th = S.pos('k'), S.vec('p'), S.ang('t', -7, 7)
    a = S.arr([sign * k if i == ax else 0 for i in range(3)])
    with S.defined('defined'):
        got = rot(S, fn, [p], a, th)[0]
    u = S.arr([sign if i == ax else 0 for i in range(3)])
    c, s = S.np.cos(th), S.np.sin(th)
    S.eq('turned point', got, c * p + S.cross(u, p) * s + u * (S.dot(u, p) * (1 - c)))


@scenario(P, FNS)
def no_division_by_zero(S, fn):
    a, p, th = S.vec('a'), S.vec('p'), S.ang('t')
    S.assume(S.norm(a) >= S.num('0.001'))
    with S.defined('defined'):
        rot(S, fn, [p], a, th)


@scenario(P, [{'m': m} for m in (1, 2, 3, 7)])
def arbitrary_axis_through_two_points(S, m):
    g = S.mod('rotations.geometry_calc')
    b, th = S.vec('b'), S.ang('t')
    a = S.vec('a') if m == 1 else S.arr([S.num(1), S.num(2), S.num(2)])
    S.assume(a[1] * a[1] + a[2] * a[2] > 0)
    ps = S.mat('p', m)
    got = g.rotate_points_around_arbitrary_axis(ps, b, b + a, th)
    S.same('points', len(got), m)
    for i in range(m):
        S.eq('turned point', got[i] - b, rodrigues(S, ps[i] - b, a, th))


AX = {'oblique': (1, 2, 2), 'flat': (3, 4, 0), 'steep': (0, -3, 4), 'x': (1, 0, 0), 'z': (0, 0, 1), 'y': (0, -2, 0)}


@scenario(P, [dict(fn=f, ax=a) for f in ('matrix', 'origin', 'arbitrary') for a in ('oblique', 'x', 'steep')],
          thorough=[dict(fn=f, ax=a) for f in ('matrix', 'origin', 'arbitrary') for a in ('flat', 'z', 'y')])
def group_laws(S, fn, ax):
    a = S.arr([S.num(v) for v in AX[ax]])
    p, q = S.vec('p'), S.vec('q')
    t, u, k = S.ang('t'), S.ang('u'), S.real('k', -5, 5)
    R = lambda x, th: rot(S, fn, [x], a, th)[0]
    S.eq('axis point fixed', R(a * k, t), a * k)
    S.eq('undone by the opposite angle', R(R(p, t), -t), p)
    S.eq('angles add', R(R(p, t), u), R(p, t + u))
    S.eq('lengths kept', S.norm2(R(p, t)), S.norm2(p))
    S.eq('angles kept', S.dot(R(p, t), R(q, t)), S.dot(p, q))
    S.eq('handedness kept', R(S.cross(p, q), t), S.cross(R(p, t), R(q, t)))
    S.eq('zero angle', R(p, S.num(0)), p)
    S.eq('full turn', R(p, t + 2 * S.pi), R(p, t))
    S.eq('axis length', rot(S, fn, [p], a * 3, t)[0], R(p, t))


@scenario(P, [{'fn': f} for f in ('matrix', 'origin')])
def axis_length_is_irrelevant(S, fn):
    a, p, th, k = S.vec('a'), S.vec('p'), S.ang('t'), S.pos('k')
    S.assume(S.norm(a) > 0)
    S.eq('same point', rot(S, fn, [p], a * k, th)[0], rot(S, fn, [p], a, th)[0])
