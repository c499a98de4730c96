"""C25 centre of effort."""
from symv.harness import scenario
from .flow import arm, csys, results, stub, total

P = 'C25'


def nonzero(S, F):
    S.assume(S.norm2(F) > S.num('0.000001'))


@scenario(P)
def recovers_the_arm(S):
    f = S.mod('solver.forces').determine_vector_from_its_dot_and_cross_product
    F, r = S.vec('F', lo=-100, hi=100), S.vec('r', lo=-100, hi=100)
    nonzero(S, F)
    S.eq('arm', f(F, S.dot(r, F), S.cross(r, F)), r)


@scenario(P)
def reproduces_its_data(S):
    """any dot product and any cross product at right angles to the force"""
    f = S.mod('solver.forces').determine_vector_from_its_dot_and_cross_product
    F, m0, d = S.vec('F'), S.vec('m'), S.real('d')
    nonzero(S, F)
    R = f(F, d, m0)
    FF = S.norm2(F)
    perp = m0 - F * (S.dot(m0, F) / FF)
    S.eq('dot', S.dot(R, F), d)
    S.eq('cross', S.cross(R, F), perp)


@scenario(P, [dict(k=k) for k in 'xyz'])
def force_along_an_axis(S, k):
    f = S.mod('solver.forces').determine_vector_from_its_dot_and_cross_product
    s = S.real('s', -10, 10)
    S.assume(s * s > S.num('0.000001'))
    F = S.arr([s if k == a else 0 for a in 'xyz'])
    r = S.vec('r')
    S.eq('arm', f(F, S.dot(r, F), S.cross(r, F)), r)


@scenario(P, [dict(sails=1, n=1), dict(sails=1, n=2), dict(sails=2, n=1), dict(sails=2, n=2), dict(sails=1, n=3), dict(sails=3, n=2)], thorough=[dict(sails=2, n=6), dict(sails=4, n=3)])
def of_the_sails(S, sails, n):
    cs = csys(S, S.num(0), S.deg('leeway', -60, 60, wide=(-180, 180)))
    st, m = stub(S, sails, n, cs)
    ref = S.arr(cs.v_from_original_xyz_2_reference_csys_xyz)
    k = sails * n
    F = total(S, [m.force[i] for i in range(k)])
    nonzero(S, F)
    r = results(S, st, cs, m)
    R = S.arr(r.above_water_centre_of_effort_estimate_xyz)
    lev = [arm(S, m.cp[i], ref) for i in range(k)]
    M = total(S, [S.cross(lev[i], m.force[i]) for i in range(k)])
    FF = S.norm2(F)
    S.eq('moment across the force', S.cross(R, F) * FF, M * FF - F * S.dot(M, F))
    S.eq('along the force', S.dot(R, F), sum(S.dot(lev[i], m.force[i]) for i in range(k)))


@scenario(P, [dict(n=2), dict(n=3), dict(n=7)])
def parallel_loads(S, n):
    """loads all along one direction: the load-weighted mean of the load points, less the reference point"""
    cs = csys(S, S.num(0), S.num(0))
    st, m = stub(S, 1, n, cs)
    d = S.vec('d')
    w = [S.pos('w%d' % i) for i in range(n)]
    nonzero(S, d)
    m.force = S.arr([[w[i % n] * d[a] for a in range(3)] for i in range(2 * n)])
    r = results(S, st, cs, m)
    ref = S.arr(cs.v_from_original_xyz_2_reference_csys_xyz)
    W = sum(w)
    mean = total(S, [m.cp[i] * w[i] for i in range(n)]) / W
    S.eq('load-weighted mean', r.above_water_centre_of_effort_estimate_xyz, mean - ref)


