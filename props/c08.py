"""C08 scaling with wind speed and density; sign convention."""
from symv.harness import scenario
from .lattice import sail_set, profile, solution

P = 'C08'
SETS = [dict(nc=1, ns=1, sails=1), dict(nc=2, ns=1, sails=1), dict(nc=1, ns=2, sails=1), dict(nc=2, ns=2, sails=1), dict(nc=3, ns=1, sails=1), dict(nc=1, ns=1, sails=2),
        dict(nc=2, ns=1, sails=1, geo='heeled'), dict(nc=1, ns=2, sails=1, geo='flat'), dict(nc=1, ns=1, sails=1, geo='free')]
BIG = [dict(nc=3, ns=2, sails=1), dict(nc=2, ns=1, sails=2), dict(nc=2, ns=1, sails=1, geo='free')]


def base(S, nc, ns, sails, geo):
    S.abstract_filaments()
    panels, te, le = sail_set(S, nc, ns, sails, geo=geo)
    rho = S.pos('rho')
    a, t, s = S.deg('twa'), S.real('tws', 0, 40), S.real('sog', 0, 20)
    return panels, te, le, rho, a, t, s


def compare(S, x, y, kg, kv, kf, kp):
    """y has circulations kg, velocities kv, loads kf, pressures kp times those of x; same coefficients."""
    S.eq('loads', y.force, x.force * kf)
    S.eq('lift', y.lift, x.lift * kf)
    S.eq('drag', y.drag, x.drag * kf)
    S.eq('pressures', y.pressure, x.pressure * kp)
    S.eq('coefficients', y.p_coeffs, x.p_coeffs)
    S.eq('velocities', y.V_app_fs_at_cp, x.V_app_fs_at_cp * kv)
    S.eq('induced', y.V_induced_at_ctrl, x.V_induced_at_ctrl * kv)


@scenario(P, SETS, thorough=BIG)
def wind_speed(S, nc, ns, sails, geo='plain'):
    panels, te, le, rho, a, t, s = base(S, nc, ns, sails, geo)
    k = S.real('k', 0.25, 4)
    x = solution(S, panels, nc, ns, rho, profile(S, a, t, s), te, le, free=geo == 'free')
    S.hint(lambda sy, rows, rhs: [k * v for v in sy[-1].x] if sy else None)
    S.scaled_lemmas([k])
    y = solution(S, panels, nc, ns, rho, profile(S, a, k * t, k * s), te, le, free=geo == 'free')
    S.unique('circulations', y.gamma_magnitude, x.gamma_magnitude * k)
    compare(S, x, y, k, k, k * k, k * k)


@scenario(P, SETS, thorough=BIG)
def density(S, nc, ns, sails, geo='plain'):
    panels, te, le, rho, a, t, s = base(S, nc, ns, sails, geo)
    k = S.real('k', 0.25, 4)
    x = solution(S, panels, nc, ns, rho, profile(S, a, t, s), te, le, free=geo == 'free')
    y = solution(S, panels, nc, ns, k * rho, profile(S, a, t, s), te, le, free=geo == 'free')
    S.eq('circulations', y.gamma_magnitude, x.gamma_magnitude)
    compare(S, x, y, 1, 1, k, k)


@scenario(P, SETS, thorough=BIG)
def circulation_sign(S, nc, ns, sails, geo='plain'):
    panels, te, le, rho, a, t, s = base(S, nc, ns, sails, geo)
    x = solution(S, panels, nc, ns, rho, profile(S, a, t, s), te, le, free=geo == 'free', gamma_orientation=-1.0)
    S.hint(lambda sy, rows, rhs: [-v for v in sy[-1].x] if sy else None)
    y = solution(S, panels, nc, ns, rho, profile(S, a, t, s), te, le, free=geo == 'free', gamma_orientation=1.0)
    S.unique('circulations reversed', y.gamma_magnitude, -x.gamma_magnitude)
    compare(S, x, y, -1, 1, 1, 1)


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=1), dict(nc=1, ns=2)], thorough=[dict(nc=2, ns=2)])
def wing(S, nc, ns):
    S.abstract_filaments()
    A = S.mod('runner.aircraft')
    V = S.arr([S.real('vx', 2, 9, wide=(-40, 40)), S.real('vy', 0.1, 1, wide=(-40, 40)), S.real('vz', -1, 1, wide=(-40, 40))])
    c, b, rho = S.num(1), S.num(2), S.pos('rho')
    k, r = S.real('k', 0.25, 4), S.real('r', 0.25, 4)

    def make(v, d, o, h=None):
        if h is not None:
            S.hint(lambda sy, rows, rhs: [h * u for u in sy[0].x] if sy else None)
            S.scaled_lemmas([h])
        w, e = S.call(A.Aircraft, c, b, S.num(0), ns, nc, v, d, o)
        if e is not None:
            if isinstance(e, ValueError) and not S.symbolic:
                S.assume(False)
            raise e
        return w
    x = make(V, rho, S.num(1))
    for name, y, f in (('wind', make(V * k, rho, S.num(1), k), k * k), ('density', make(V, rho * r, S.num(1)), r),
                       ('sign', make(V, rho, S.num(-1), S.num(-1)), 1)):
        S.eq(name + ': loads', y.force, x.force * f)
        S.eq(name + ': pressures', y.pressure, x.pressure * f)
        S.eq(name + ': coefficients', S.arr(list(y.Cxyz) + [y.CL, y.CD, y.Cp]), S.arr(list(x.Cxyz) + [x.CL, x.CD, x.Cp]))
