"""C29 wing coefficients."""
import contextlib
import io
import re
from symv.harness import scenario
from .lattice import total

P = 'C29'


def load_case(S, n):
    F, V = S.mat('F', n), S.vec('V')
    S.assume(S.norm2(V) > S.num('0.01'))
    return F, V, S.pos('rho'), S.pos('area')


@scenario(P, [dict(n=1), dict(n=3), dict(n=8)])
def from_loads(S, n):
    C = S.mod('solver.coefs')
    F, V, rho, A = load_case(S, n)
    f = total(S, [F[i] for i in range(n)])
    q = rho * S.norm2(V) * A / 2
    cl, cd = C.get_vlm_CL_CD_free_wing(F, V, rho, A)
    S.eq('lift coefficient', cl, f[2] / q)
    S.eq('drag coefficient', cd, f[0] / q)
    S.eq('force coefficients', C.get_vlm_Cxyz(F, V, rho, A), f / q)


@scenario(P)
def lifting_line_theory(S):
    C = S.mod('solver.coefs')
    ar, a = S.real('AR', 0.1, 50, wide=(0.001, 1000)), S.deg('aoa', -30, 30, wide=(-180, 180))
    cl, cd = C.get_CL_CD_free_wing(ar, a)
    e = S.num('0.8')
    want = 2 * S.pi * (a * S.pi / 180) / (1 + 2 / (ar * e))
    S.eq('lift', cl, want)
    S.eq('drag', cd, want * want / (S.pi * ar * e))


def make(S, *a):
    S.abstract_filaments()
    w, e = S.call(S.mod('runner.aircraft').Aircraft, *a)
    if e is not None:
        if isinstance(e, ValueError) and not S.symbolic:
            S.assume(False)
        raise e
    return w


WING = [dict(nc=1, ns=1, aoa=0), dict(nc=2, ns=1, aoa=0), dict(nc=1, ns=2, aoa=0), dict(nc=1, ns=1, aoa=90), dict(nc=1, ns=1, aoa=30), dict(nc=2, ns=2, aoa=0), dict(nc=1, ns=2, aoa=30), dict(nc=1, ns=3, aoa=0)]


@scenario(P, WING, thorough=[dict(nc=3, ns=2, aoa=0), dict(nc=2, ns=3, aoa=0)])
def of_a_wing(S, nc, ns, aoa):
    """any chord, span, wind, density; coefficients of its own loads and theory of its own proportions"""
    V = S.arr([S.real('vx', 2, 9, wide=(-40, 40)), S.real('vy', 0.2, 1, wide=(-40, 40)), S.real('vz', -1, 1, wide=(-40, 40))])
    rho = S.pos('rho')
    c, b = (S.real('c', 0.5, 2), S.real('b', 1, 5)) if nc * ns == 1 and aoa == 0 else (S.num('1.5'), S.num(2))
    w = make(S, c, b, S.num(aoa), ns, nc, V, rho)
    f = total(S, [w.force[i] for i in range(nc * ns)])
    q = rho * S.norm2(V) * (2 * b * c) / 2
    S.eq('aspect ratio', w.AR, 2 * b / c)
    S.eq('force coefficients', w.Cxyz, f / q)
    S.eq('lift across the span and the chord line', w.CL, f[1] / q)
    S.eq('drag along x', w.CD, f[0] / q)
    S.eq('pressure coefficient', w.Cp, sum(w.pressure[i] for i in range(nc * ns)) / q)
    cl = 2 * S.pi * (S.num(aoa) * S.pi / 180) / (1 + 2 / (w.AR * S.num('0.8')))
    S.eq('theory', [w.CL_theoretical, w.CD_theoretical], [cl, cl * cl / (S.pi * w.AR * S.num('0.8'))])


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=1), dict(nc=1, ns=2), dict(nc=2, ns=2), dict(nc=3, ns=1)], thorough=[dict(nc=3, ns=3)])
def no_load_along_the_wing(S, nc, ns):
    """wind anywhere in the plane of the wing"""
    c, b, rho = S.num(1), S.num(2), S.pos('rho')
    V = S.arr([S.real('vx', 1, 9, wide=(-40, 40)), S.num(0), S.real('vz', -3, 3, wide=(-40, 40))])
    if S.symbolic:
        S.path.solve_hint = lambda rows, rhs: [S.num(0)] * len(rhs) if all(not r.t for r in rhs) else None
    w = make(S, c, b, S.num(0), ns, nc, V, rho)
    for i in range(nc * ns):
        S.eq('no load', w.force[i], [0, 0, 0])
        S.eq('no pressure', w.pressure[i], 0)
    S.eq('no coefficients', list(w.Cxyz) + [w.CL, w.CD, w.Cp], [0] * 6)


@scenario(P, [dict(aoa=a) for a in (0, 90)] + [dict(aoa='any')])
def no_load_at_any_attitude(S, aoa):
    """a wing turned by any angle in a wind turned with it"""
    a = S.deg('aoa', -40, 40, wide=(-180, 180)) if aoa == 'any' else S.num(aoa)
    u, s = S.real('u', 1, 9, wide=(-50, 50)), S.real('s', -3, 3, wide=(-50, 50))
    V = S.arr([u * S.cos(a), -u * S.sin(a), s])
    if S.symbolic:
        from symv import core
        S.path.solve_hint = lambda rows, rhs: [S.num(0)] * len(rhs) if all(core.is_zero(r) for r in rhs) else None
    w = make(S, S.num(1), S.num(2), a, 1, 1, V, S.pos('rho'))
    S.eq('no load', w.force[0], [0, 0, 0])


@scenario(P, [dict(nc=1, ns=1), dict(nc=1, ns=2), dict(nc=2, ns=1), dict(nc=2, ns=2)], thorough=[dict(nc=3, ns=2)])
def square_of_the_wind(S, nc, ns):
    V = S.arr([S.real('vx', 2, 9, wide=(-40, 40)), S.real('vy', 0.1, 1, wide=(-40, 40)), S.real('vz', -1, 1, wide=(-40, 40))])
    k, rho = S.real('k', 0.25, 4), S.pos('rho')
    a = (S.num(1), S.num(2), S.num(0), ns, nc)
    x = make(S, *a, V, rho)
    S.hint(lambda sy, rows, rhs: [k * u for u in sy[0].x] if sy else None)
    S.scaled_lemmas([k])
    y = make(S, *a, V * k, rho)
    S.eq('loads', y.force, x.force * (k * k))
    S.eq('coefficients', list(y.Cxyz) + [y.CL, y.CD, y.Cp], list(x.Cxyz) + [x.CL, x.CD, x.Cp])


@scenario(P, [dict(nc=1, ns=1), dict(nc=2, ns=2)])
def report(S, nc, ns):
    """what get_info prints is what the wing holds"""
    V = S.arr([S.real('vx', 2, 9, wide=(1, 40)), S.real('vy', 0.2, 1, wide=(0.01, 40)), S.num(0)])
    w = make(S, S.num('1.5'), S.num(2), S.num(0), ns, nc, V, S.pos('rho'))
    text, values = printed(S, w.get_info)

    def number(label, k=0):
        m = re.search(re.escape(label) + r'[\s\[=:]*(.*)', text)
        S.true('prints ' + label, m is not None)
        return values(m.group(1))[k] if m else S.num(0)
    def shows(label, at, value, k=0, digits=S.num('0.000002')):
        if S.symbolic:
            return S.eq(label, number(at, k), value)
        S.true(label, abs(number(at, k) - value) <= digits * (1 + abs(value)))
    shows('aspect ratio', 'Aspect Ratio', w.AR)
    shows('expected lift', 'CL_expected', w.CL_theoretical)
    shows('expected drag', 'CD_ind_expected', w.CD_theoretical)
    shows('computed lift', 'CL_vlm', w.CL)
    shows('computed drag', 'CD_vlm', w.CD)
    f = total(S, [w.force[i] for i in range(nc * ns)])
    for k in range(3):
        shows('total force', 'total_F', f[k], k, S.num('0.0001'))


def printed(S, f):
    """what f() prints, and a reader of the numbers in it"""
    from symv import core
    out = io.StringIO()
    seen = core.PRINTED = [] if S.symbolic else None
    try:
        with contextlib.redirect_stdout(out):
            f()
    finally:
        core.PRINTED = None
    if S.symbolic:
        return out.getvalue(), lambda t: [seen[int(k)] for k in re.findall(r'<(\d+)>', t)]
    return out.getvalue(), lambda t: [float(k) for k in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', t)]
