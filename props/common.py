"""Reference formulas shared by the scenarios (written from the statements, not from the code)."""

EPS = 1e-8


def core_free(S, r1, r2):
    """Assume the point lies outside the core of the filament with end offsets r1, r2."""
    S.assume(S.norm(r1) >= S.num(EPS))
    S.assume(S.norm(r2) >= S.num(EPS))
    S.assume(S.norm2(S.cross(r1, r2)) >= S.num(EPS))


def axis_free(S, ap, d):
    """Assume the point lies off the axis of a semi-infinite filament (offset ap, direction d)."""
    u = d / S.norm(d)
    S.assume(S.norm(ap) >= S.num(EPS))
    S.assume(S.norm(S.cross(u, ap)) >= S.num(EPS))


def ref_line(S, p, a, b, g):
    """Katz & Plotkin (10.115): straight segment a -> b."""
    r1, r2 = p - a, p - b
    c = S.cross(r1, r2)
    r0 = r1 - r2
    k = g / (4 * S.pi) * (S.dot(r0, r1) / S.norm(r1) - S.dot(r0, r2) / S.norm(r2)) / S.norm2(c)
    return c * k


def ref_inf(S, p, a, d, g):
    """Semi-infinite filament from a along d."""
    u = d / S.norm(d)
    ap = p - a
    n = S.norm(ap)
    return S.cross(u, ap) * (g / (4 * S.pi) / (n * (n - S.dot(u, ap))))


def unit(S, v):
    return v / S.norm(v)
