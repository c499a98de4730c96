"""C15 interpolation of spanwise data."""
from symv.harness import scenario

P = 'C15'
ST = {'a': ('0', '1'), 'b': ('0', '0.25', '0.5', '0.75', '1'), 'c': ('0', '0.1', '0.55', '0.875', '1'),
      'd': ('0', '0.3', '0.6', '1'), 'e': ('0', '0.12', '0.24', '0.5', '0.6', '0.875', '1'), 'f': ('0', '0.5', '1'),
      'g': ('0', '0.45', '0.7', '1'), 'h': ('0', '0.5', '0.8'), 'i': ('0.1', '0.4', '0.9')}


def data(S, st, tag='y'):
    x = [S.num(v) for v in ST[st]]
    return S.arr(x), S.arr([S.real('%s%d' % (tag, i)) for i in range(len(x))])


def itp(S, kind):
    return S.mod('solver.interpolator').Interpolator(kind)


@scenario(P, [dict(st=s, n=n) for s, n in (('a', 2), ('a', 4), ('f', 3), ('b', 4), ('c', 5), ('e', 7), ('h', 6), ('i', 11), ('e', 41), ('b', 51))],
          thorough=[dict(st=s, n=n) for s in ST for n in (2, 3, 9, 21)])
def linear(S, st, n):
    x, y = data(S, st)
    got = itp(S, 'linear').interpolate_girths(x, y, n)
    S.same('stations', len(got), n)
    for i in range(n):
        u = i / (n - 1)
        for k in range(len(x) - 1):
            a, b = float(ST[st][k]), float(ST[st][k + 1])
            if a <= u <= b:
                S.eq('between neighbours', got[i] * (x[k + 1] - x[k]),
                     y[k] * (x[k + 1] - S.num(i) / (n - 1)) + y[k + 1] * (S.num(i) / (n - 1) - x[k]))


@scenario(P, [{'n': 3}, {'n': 5}], thorough=[{'n': 9}])
def linear_any_stations(S, n):
    """an intermediate station anywhere"""
    s = S.real('s', 0.05, 0.95)
    x, y = S.arr([0, s, 1]), S.arr([S.real('y%d' % i) for i in range(3)])
    got = itp(S, 'linear').interpolate_girths(x, y, n)
    for i in range(n):
        u = S.num(i) / (n - 1)
        if u <= s:
            S.eq('below', got[i] * s, y[0] * (s - u) + y[1] * u)
        else:
            S.eq('above', got[i] * (1 - s), y[1] * (1 - u) + y[2] * (u - s))


KINDS = [dict(kind=k, st=s, n=n) for k in ('linear', 'spline') for s, n in (('b', 5), ('d', 11), ('b', 9), ('g', 21), ('e', 51))]
MORE = [dict(kind=k, st=s, n=n) for k in ('linear', 'spline') for s, n in (('e', 201), ('c', 41))]


@scenario(P, KINDS, thorough=MORE)
def reproduces_the_data(S, kind, st, n):
    x, y = data(S, st)
    got = itp(S, kind).interpolate_girths(x, y, n)
    for k, v in enumerate(ST[st]):
        q = float(v) * (n - 1)
        if abs(q - round(q)) < 1e-9:
            S.close('given stations', got[round(q)], y[k], 1e-8)


@scenario(P, [dict(kind=k, st=s, n=n) for k in ('linear', 'spline') for s, n in (('b', 4), ('c', 5), ('e', 6))], thorough=MORE)
def reproduces_straight_lines(S, kind, st, n):
    a, b = S.real('a'), S.real('b')
    x = S.arr([S.num(v) for v in ST[st]])
    got = itp(S, kind).interpolate_girths(x, S.arr([a + b * v for v in x]), n)
    for i in range(n):
        S.close('straight line', got[i], a + b * S.num(i) / (n - 1), 1e-8)


@scenario(P, [dict(kind=k, st=s, n=n) for k in ('linear', 'spline') for s, n in (('b', 4), ('d', 5))], thorough=MORE)
def depends_linearly_on_the_data(S, kind, st, n):
    x, y = data(S, st)
    _, z = data(S, st, 'z')
    k = S.real('k', -2, 2)
    t = itp(S, kind)
    a, b, c = (t.interpolate_girths(x, v, n) for v in (y, z, S.arr(y + k * z)))
    for i in range(n):
        S.close('superposition', c[i], a[i] + k * b[i], 1e-7)


@scenario(P, [dict(st='b', n=4), dict(st='c', n=6)])
def spline_is_smooth_and_cubic(S, st, n):
    """cubic data are reproduced by a cubic interpolating spline"""
    c = [S.real('c%d' % i, -3, 3) for i in range(4)]
    f = lambda v: c[0] + c[1] * v + c[2] * v * v + c[3] * v * v * v
    x = S.arr([S.num(v) for v in ST[st]])
    got = itp(S, 'spline').interpolate_girths(x, S.arr([f(v) for v in x]), n)
    for i in range(n):
        S.close('cubic', got[i], f(S.num(i) / (n - 1)), 1e-7)


@scenario(P, [dict(kind='linear', st='c', n=4), dict(kind='spline', st='d', n=3)])
def mirrored(S, kind, st, n):
    x, y = data(S, st)
    t = itp(S, kind)
    a, b = t.interpolate_girths(x, y, n), t.interpolate_and_mirror_girths(x, y, n)
    S.same('length', len(b), 2 * n)
    S.eq('reverse order', b[:n], [a[n - 1 - i] for i in range(n)])
    S.eq('in order', b[n:], a)


@scenario(P, [dict(kind='linear', n=3, ms='b', js='d'), dict(kind='linear', n=4, ms='d', js='g'), dict(kind='linear', n=3, ms='d', js='d'),
              dict(kind='linear', n=4, ms='f', js='e'), dict(kind='linear', n=9, ms='a', js='g')],
          thorough=[dict(kind='spline', n=4, ms='b', js='d'), dict(kind='spline', n=5, ms='d', js='g')])
def jib_before_main(S, kind, n, ms, js):
    x, y1 = data(S, ms, 'm')
    _, y2 = data(S, ms, 'n')
    g, j1 = data(S, js, 'j')
    _, j2 = data(S, js, 'k')
    t = itp(S, kind)
    got = t.interpolate_data_for_sections([y1, y2], [j1, j2], x, g, n)
    S.same('data sets', len(got), 2)
    for r, m, j in zip(got, (y1, y2), (j1, j2)):
        S.eq('jib first', r[:2 * n], t.interpolate_and_mirror_girths(g, j, n))
        S.eq('main sail after', r[2 * n:], t.interpolate_and_mirror_girths(x, m, n))


@scenario(P, [{'kind': k} for k in ('cubic', '', 'Linear')])
def unknown_type(S, kind):
    x, y = data(S, 'd')

    def run():
        return itp(S, kind).interpolate_girths(x, y, 3)
    r, e = S.call(run)
    S.true('refused', e is not None)
