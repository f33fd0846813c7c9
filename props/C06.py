"""Point in contour."""
from props.geo import POLYS, fan_winding, general

PROPERTY = "C06"


def BOUNDS(tier):
    return "every triangle with integer vertices in [-3, 3] and every point of the half unit grid, seven reference contours (concave, spiral, self crossing, both orientations, closed or not) with every point of a quarter unit grid, a contour of 3 vertices in a contour, from any side of the dateline"


OUTSIDE = "points exactly on the contour (the code leaves them open); float rounding of the cross product"


def tri(S, closed):
    P = S.mod("poly")
    v = [(S.int("x%d" % i, -3, 3), S.int("y%d" % i, -3, 3)) for i in range(3)]
    if closed == "fixed":
        v[0] = (0, 0)
    p = (S.fx("px", -4, 4, 2), S.fx("py", -4, 4, 2))
    S.assume(general(S, v, p))
    vv = [(a * 1.0, b * 1.0) for a, b in v]
    w = P.winding_number_poly(p[0], p[1], S.arr(vv, "f8"))
    S.check(w == fan_winding(S, v, p), "winding number of the point")


def fixed(S, name, closed):
    P = S.mod("poly")
    v = POLYS[name]
    p = (S.fx("px", -3, 9, 4), S.fx("py", -3, 9, 4))
    S.assume(general(S, v, p))
    w = P.winding_number_poly(p[0], p[1], S.arr(v + v[:1] if closed else v, "f8"))
    S.out("w", w)
    S.check(w == fan_winding(S, v, p), "winding number of the point")


def contain(S, name, side, n):
    """inner contour of n vertices anywhere, possibly described on the other side of the dateline"""
    P = S.mod("poly")
    v = [(a + 178, b) for a, b in POLYS[name]]
    q = [(S.fx("px%d" % k, 176, 187, 2), S.fx("py%d" % k, -1, 7, 2)) for k in range(n)]
    for p in q:
        S.assume(general(S, v, p))
    r = P.poly_contain_poly(S.arr(v + v[:1], "f8"), S.arr([(a + side, b) for a, b in q], "f8"))
    S.check(S.iff(r, S.And([fan_winding(S, v, p) != 0 for p in q])), "contained exactly when every vertex is inside")


def cases(tier):
    r = [("triangle", tri, dict(closed="fixed")), ("triangle_any", tri, dict(closed=False))]
    for n in POLYS:
        r.append(("fixed_" + n, fixed, dict(name=n, closed=False)))
        r.append(("closed_" + n, fixed, dict(name=n, closed=True)))
    for side in (0, -360, 360):
        r.append(("contain_%d" % side, contain, dict(name="tri", side=side, n=2)))
    r.append(("contain_3", contain, dict(name="square_cw", side=-360, n=3)))
    return r
