"""Panel sets and reference formulas for the vortex-lattice scenarios."""


def sail_mesh(S, nc, ns, off=0, sym=0, tag='', geo='plain'):
    """(nc+1) x (ns+1) points of a cambered, twisted, tapered sail above the water; sym: half-width of a box per coordinate.
    geo: 'heeled' is a tall sail leaning to one side, 'flat' lies nearly level, 'free' has any point at any coordinate"""
    rows = []
    if geo == 'free':
        return [[[S.real('%sm%d%d%s' % (tag, i, j, 'x'), -10, 10, wide=(-100, 100)), S.real('%sm%d%d%s' % (tag, i, j, 'y'), -10, 10, wide=(-100, 100)),
                  S.real('%sm%d%d%s' % (tag, i, j, 'z'), 0.05, 10, wide=(0.01, 100))] for j in range(ns + 1)] for i in range(nc + 1)]
    for i in range(nc + 1):
        row = []
        for j in range(ns + 1):
            t, h = i / nc, j / ns
            x = off + 0.25 * h + t * (2 - 0.75 * h)
            y = 0.25 * t * (1 - t) + 0.125 * t * h + 0.0625 * h
            z = 1 + 3 * h + 0.125 * t * h
            p = [x, y, z]
            if geo == 'heeled':
                p = [2 * x, 2 * y - 8 * z, 5 * z - 2 * y]
            elif geo == 'flat':
                p = [40 * x, 25 + 30 * h - 12 * t, 0.25 + 0.5 * z]
            if sym:
                p = [S.real('%sm%d%d%s' % (tag, i, j, 'xyz'[k]), p[k] - sym, p[k] + sym) for k in range(3)]
            else:
                p = [S.num(q) for q in p]
            row.append(p)
        rows.append(row)
    return rows


def mirrored(mesh):
    return [[[p[0], p[1], -p[2]] for p in reversed(row)] for row in mesh]


def panels_of(mesh):
    out = []
    for i in range(len(mesh) - 1):
        for j in range(len(mesh[0]) - 1):
            out.append([mesh[i + 1][j], mesh[i][j], mesh[i][j + 1], mesh[i + 1][j + 1]])
    return out


def sail_set(S, nc, ns, sails=1, image=True, sym=0, geo='plain'):
    """(panels, te flags, le flags) in the order of a sail set."""
    ms = [sail_mesh(S, nc, ns, off=-3 * k, sym=sym, tag='s%d' % k, geo=geo) for k in range(sails)]
    if image:
        ms = ms + [mirrored(m) for m in ms]
    p = [q for m in ms for q in panels_of(m)]
    te = ([False] * (ns * (nc - 1)) + [True] * ns) * len(ms)
    le = (([True] * ns + [False] * (ns * (nc - 1))) if nc > 1 else [False] * ns) * len(ms)
    return S.arr(p), flags(te), flags(le)


def flags(x):
    import numpy
    return numpy.array(x, dtype=bool)


def ring(S, p, c):
    """unit-circulation closed ring A-B-C-D"""
    v = S.mod('solver.velocity')
    one = S.num(1)
    return sum((v.vortex_line(p, c[k], c[(k + 1) % 4], one) for k in range(4)), S.arr([0, 0, 0]))


def wake(S, p, c, W):
    """unit-circulation trailing-edge vortex: A-B-C-D with legs leaving from D and arriving at A along W"""
    v = S.mod('solver.velocity')
    one = S.num(1)
    q = sum((v.vortex_line(p, c[k], c[k + 1], one) for k in range(3)), S.arr([0, 0, 0]))
    return q + v.vortex_infinite_line(p, c[3], W, one) - v.vortex_infinite_line(p, c[0], W, one)


def unit_velocity(S, p, c, W, te, orient=1):
    return (wake(S, p, c, W) if te else ring(S, p, c)) * S.num(orient)


def wind(S, kind='exp'):
    """A real wind profile; exponent 1 makes the shear linear in height (rational)."""
    w = S.mod('inlet.winds')
    a, t, s = S.deg('twa'), S.real('tws', 0, 40), S.real('sog', 0, 20)
    return profile(S, a, t, s, kind)


def profile(S, a, t, s, kind='exp'):
    w = S.mod('inlet.winds')
    if kind == 'exp':
        return w.ExpWindProfile(a, t, s, exp_coeff=1.0, reference_measurment_height=10.0,
                                reference_water_level_for_wind_profile=-1.0)
    if kind == 'log':
        return w.LogWindProfile(a, t, s, 0.005, 10.0)
    return w.FlatWindProfile(a, t, s)


def total(S, xs):
    return sum(xs, S.arr([0, 0, 0]))


def solution(S, panels, nc, ns, rho, w, te, le, free=False, **k):
    """Solve; a solution the solver turns down for rounding alone is outside the claim (C05 decides the rejection).
    free: the panels may be degenerate, and are then rightly turned down"""
    m, e = S.call(S.mod('solver.vlm').Vlm, panels, nc, ns, rho, w, te, le, **k)
    if e is not None:
        if isinstance(e, ValueError) and (free or not S.symbolic):
            S.assume(False)
        raise e
    regular(S, m, free)
    return m


def regular(S, m, free):
    """points used to exercise the real code with free panels: leave out those where rounding alone decides"""
    if free and not S.symbolic:
        import numpy
        S.assume(numpy.linalg.cond(m.coeff) < 1e4 and m.areas.min() > 1 and abs(m.v_ind_coeff).max() < 10)


def bound_gamma(g, i, nc, ns):
    """Circulation bound to panel i: its own in the foremost row of its sail, else the step from the panel ahead."""
    return g[i] if i % (nc * ns) < ns else g[i] - g[i - ns]
