"""C17 heel and leeway."""
from symv.harness import scenario

P = 'C17'


def csys(S, h, l):
    return S.mod('rotations.csys_transformations').CSYS_transformations(h, l, S.arr([0, 0, 0]))


def above(S, p, h, l):
    """heel to leeward (+y) about x, then leeway about z"""
    ch, sh, cl, sl = S.cos(h), S.sin(h), S.cos(l), S.sin(l)
    q = [p[0], ch * p[1] + sh * p[2], -sh * p[1] + ch * p[2]]
    return S.arr([cl * q[0] - sl * q[1], sl * q[0] + cl * q[1], q[2]])


def flip(S, p):
    return S.arr([p[0], p[1], -p[2]])


def angles(S):
    return S.deg('heel', -90, 90, wide=(-180, 180)), S.deg('leeway', -90, 90, wide=(-180, 180))


@scenario(P)
def above_the_water(S):
    h, l = angles(S)
    p = S.arr([S.real('px'), S.real('py'), S.real('pz', 1e-9, 10, wide=(1e-9, 1000))])
    S.eq('moved', csys(S, h, l).rotate_point_with_mirror(p), above(S, p, h, l))


@scenario(P)
def below_the_water(S):
    h, l = angles(S)
    p = S.arr([S.real('px'), S.real('py'), S.real('pz', -10, -1e-9, wide=(-1000, -1e-9))])
    c = csys(S, h, l)
    got = c.rotate_point_with_mirror(p)
    S.eq('mirror image of the moved mirror image', got, flip(S, above(S, flip(S, p), h, l)))
    S.eq('mirror of its partner', got, flip(S, c.rotate_point_with_mirror(flip(S, p))))


@scenario(P)
def without_mirror(S):
    h, l = angles(S)
    p = S.vec('p')
    S.eq('moved', csys(S, h, l).rotate_point_without_mirror(p), above(S, p, h, l))


@scenario(P)
def rigid(S):
    h, l = angles(S)
    c = csys(S, h, l)
    p, q = S.vec('p'), S.vec('q')
    for f in (c.rotate_point_with_mirror, c.rotate_point_without_mirror, c.reverse_rotations_with_mirror):
        S.eq('length kept', S.norm2(f(p)), S.norm2(p))
    S.assume(p[2] > 0)
    S.assume(q[2] > 0)
    a, b = c.rotate_point_with_mirror(p), c.rotate_point_with_mirror(q)
    S.eq('distance kept', S.norm2(a - b), S.norm2(p - q))


@scenario(P, [{'side': 1}, {'side': -1}])
def reverse_recovers(S, side):
    h, l = angles(S)
    c = csys(S, h, l)
    p = S.vec('p')
    S.assume(p[2] * side > 0)
    q = c.rotate_point_with_mirror(p)
    S.assume(q[2] * side > 0)
    S.eq('recovered', c.reverse_rotations_with_mirror(q), p)


@scenario(P, [{'side': 1}, {'side': -1}])
def reverse_then_forward(S, side):
    h, l = angles(S)
    c = csys(S, h, l)
    q = S.vec('q')
    S.assume(q[2] * side > 0)
    p = c.reverse_rotations_with_mirror(q)
    S.assume(p[2] * side > 0)
    S.eq('recovered', c.rotate_point_with_mirror(p), q)


@scenario(P)
def upright_and_on_course(S):
    c = csys(S, S.num(0), S.num(0))
    p = S.vec('p')
    for f in (c.rotate_point_with_mirror, c.rotate_point_without_mirror, c.reverse_rotations_with_mirror):
        S.eq('unchanged', f(p), p)


@scenario(P)
def remembers_its_angles(S):
    h, l = angles(S)
    v = S.vec('v')
    C = S.mod('rotations.csys_transformations').CSYS_transformations
    c = C(h, l, v)
    S.eq('angles', [c.heel_deg, c.leeway_deg], [h, l])
    S.eq('reference point', c.v_from_original_xyz_2_reference_csys_xyz, v)
    d = C()
    S.eq('defaults', [d.heel_deg, d.leeway_deg] + list(d.v_from_original_xyz_2_reference_csys_xyz), [0] * 5)
    p = S.vec('p')
    S.eq('default motion', d.rotate_point_without_mirror(p), p)


@scenario(P, [{'neg': n} for n in (1, -1)])
def heels_to_leeward(S, neg):
    """a mast-head goes to the lee side (+y) for positive heel"""
    h = S.real('deg_h', 1, 80)
    z = S.pos('z')
    q = csys(S, neg * h, S.num(0)).rotate_point_with_mirror(S.arr([0, 0, z]))
    S.true('leeward', q[1] * neg > 0)
    S.true('above the water', q[2] > 0)
