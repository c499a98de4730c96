"""C03 frame independence of induced velocities and wing loads."""
from symv.harness import scenario
from .common import axis_free, core_free

P = 'C03'


def elements(S):
    p = S.vec('p')
    o = [S.vec(n) for n in 'abcd']
    W, g = S.vec('w'), S.real('g')
    S.assume(S.norm(W) > 0)
    for i in range(4):
        core_free(S, o[i], o[(i + 1) % 4])
        axis_free(S, o[i], W)
    return p, o, W, g


KINDS = [{'kind': k} for k in ('line', 'inf', 'ring', 'horseshoe', 'trailing')]


def induced(S, kind, p, c, W, g):
    v = S.mod('solver.velocity')
    A, B, C, D = c
    if kind == 'line':
        return v.vortex_line(p, A, B, g)
    if kind == 'inf':
        return v.vortex_infinite_line(p, A, W, g)
    if kind == 'ring':
        return v.vortex_ring(p, A, B, C, D, g)
    if kind == 'horseshoe':
        return v.vortex_horseshoe(p, B, C, W, g)
    return v.vortex_horseshoe_v2(p, A, B, C, D, W, g)


@scenario(P, KINDS)
def translation(S, kind):
    p, o, W, g = elements(S)
    t = S.vec('t')
    c = [p - x for x in o]
    S.eq('translated', induced(S, kind, p + t, [x + t for x in c], W, g), induced(S, kind, p, c, W, g))


@scenario(P, KINDS)
def mirror(S, kind):
    p, o, W, g = elements(S)
    c = [p - x for x in o]
    base = induced(S, kind, p, c, W, g)
    for ax in range(3):
        f = S.arr([-1 if i == ax else 1 for i in range(3)])
        S.eq('mirrored in axis %d' % ax, induced(S, kind, f * p, [f * x for x in c], f * W, g), -(f * base))


@scenario(P, KINDS)
def scale(S, kind):
    p, o, W, g = elements(S)
    k = S.pos('k', 5, 0.5)
    for i in range(4):
        core_free(S, k * o[i], k * o[(i + 1) % 4])
        axis_free(S, k * o[i], W)
    c = [p - x for x in o]
    S.eq('scaled', k * induced(S, kind, k * p, [k * x for x in c], W, g), induced(S, kind, p, c, W, g))


@scenario(P, KINDS)
def relabelled_axes(S, kind):
    p, o, W, g = elements(S)
    c = [p - x for x in o]
    base = induced(S, kind, p, c, W, g)
    r = lambda x: S.arr([x[1], x[2], x[0]])
    S.eq('cyclic', induced(S, kind, r(p), [r(x) for x in c], r(W), g), r(base))


def turn(S, ax, x, co, si):
    y = [x[0], x[1], x[2]]
    i, j = [(1, 2), (2, 0), (0, 1)][ax]
    y[i], y[j] = co * x[i] - si * x[j], si * x[i] + co * x[j]
    return S.arr(y)


@scenario(P, [dict(kind=k, ax=a) for k in ('line', 'inf', 'ring', 'horseshoe', 'trailing') for a in (0, 1, 2)])
def rotation(S, kind, ax):
    """rotation about a coordinate axis by any angle"""
    p, o, W, g = elements(S)
    th = S.ang('t')
    co, si = S.np.cos(th), S.np.sin(th)
    R = lambda x: turn(S, ax, x, co, si)
    # the observation point is the origin (translations are covered above)
    z = S.arr([0, 0, 0])
    c = [-x for x in o]
    base = induced(S, kind, z, c, W, g)
    S.eq('rotated', induced(S, kind, z, [R(x) for x in c], R(W), g), R(base))


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=1), dict(nc=1, ns=2)], thorough=[dict(nc=2, ns=2), dict(nc=3, ns=1)])
def wing_turned_with_the_wind(S, nc, ns):
    """a wing at incidence in a wind turned with it carries the loads of the wing in the unturned wind, turned by the same angle"""
    A = S.mod('runner.aircraft').Aircraft
    a = S.deg('aoa', -80, 80)
    co, si = S.cos(a), S.sin(a)
    S.abstract_filaments(rot=(co, si))
    V = S.arr([S.real('vx', 2, 9, wide=(-40, 40)), S.real('vy', 0.2, 1, wide=(-40, 40)), S.real('vz', -1, 1, wide=(-40, 40))])
    rho = S.pos('rho')
    c, b = S.num('1.5'), S.num(2)
    R = lambda x: S.arr([co * x[0] + si * x[1], co * x[1] - si * x[0], x[2]])

    def make(*q):
        w, e = S.call(A, *q)
        if e is not None:
            if isinstance(e, ValueError) and not S.symbolic:
                S.assume(False)
            raise e
        return w
    w = make(c, b, S.num(0), ns, nc, V, rho)
    S.hint(lambda sy, rows, rhs: list(sy[0].x) if sy else None)
    t = make(c, b, a, ns, nc, R(V), rho)
    S.eq('pressures', t.pressure, w.pressure)
    for i in range(nc * ns):
        S.eq('loads', t.force[i], R(w.force[i]))
