"""Positions inside a set of contours."""
from props.geo import fan_winding, general

PROPERTY = "C08"


def BOUNDS(tier):
    return "sets of 1 to 2 contours (triangle, concave; across the Greenwich meridian, far from the positions or described in any of 3 longitude conventions) and up to 2 positions anywhere on a half degree grid around them, in any longitude convention"


OUTSIDE = "more contours, positions exactly on a contour"
SHAPES = {
    "tri": [(0.0, 0.0), (1.75, 0.25), (0.75, 1.5), (0.75, 1.5)],
    "small": [(0.0, 0.0), (0.75, 0.125), (0.5, 0.75), (0.5, 0.75)],
    "dart": [(0.0, 0.0), (2.25, 0.0), (0.5, 0.5), (0.0, 1.75)],
}


def inside(S, n, shapes, lon, turn, lat, den=2, near=True):
    """contours are stored padded with their last position repeated, as in the observation files"""
    P = S.mod("poly")
    cs = [[(lon[k] + a, lat + b) for a, b in SHAPES[s]] for k, s in enumerate(shapes)]
    w = 1.5 if den > 2 else 3
    pts = [(S.fx("px0", lon[0] - 1, lon[0] + w, den), S.fx("py0", lat - 1, lat + w - 0.5, den))]
    if n > 1:
        pts.append(tuple(S.choice("p1", [(lon[0] + a, lat + b) for a in (0.25, 0.75) for b in (0.25, 0.75)])) if near else
                   (S.fx("px1", lon[0] - 1, lon[0] + w, den), S.fx("py1", lat - 1, lat + w - 0.5, den)))
    opn = []
    for c in cs:
        o = c[:-1] if c[-1] == c[-2] else c
        opn.append(o)
    for p in pts:
        for o, k in zip(opn, range(len(cs))):
            d = 0 if abs(lon[k] - lon[0]) < 180 else (360 if lon[k] > lon[0] else -360)
            S.assume(general(S, o, (p[0] + d, p[1])))
    close = [o + [o[0]] * (6 - len(o)) for o in opn]
    r = P.poly_indexs(
        S.arr([p[0] + turn for p in pts], "f8"), S.arr([p[1] for p in pts], "f8"),
        S.arr([[a for a, _ in c] for c in close], "f8"), S.arr([[b for _, b in c] for c in close], "f8"))
    r2 = P.insidepoly(
        S.arr([p[0] + turn for p in pts], "f8"), S.arr([p[1] for p in pts], "f8"),
        S.arr([[a for a, _ in c] for c in close], "f8"), S.arr([[b for _, b in c] for c in close], "f8"))
    S.out("r", r)
    S.check(S.And(len(r) == n, len(r2) == n), "one answer per position")
    for q, p in enumerate(pts):
        e = -1
        for k in reversed(range(len(cs))):
            d = 0 if abs(lon[k] - lon[0]) < 180 else (360 if lon[k] > lon[0] else -360)
            e = S.If(fan_winding(S, opn[k], (p[0] + d, p[1])) != 0, k, e)
        S.check(r[q] == e, "index of the first contour holding the position, -1 when there is none")
        S.check(S.iff(r2[q], e != -1), "inside exactly when one contour holds the position")


def cases(tier):
    r = []
    for lon, turn, lat in ((10.25, 0, 0.5), (359.5, -360, 20.5), (-0.5, 0, -0.5)):
        r.append(("small_%d_%d" % (lon, turn), inside, dict(n=1, shapes=["small"], lon=[lon], turn=turn, lat=lat, den=4)))
    for s in ("tri", "dart"):
        for lon, turn in ((10.25, 0), (359.25, 0), (-0.75, 0), (-0.75, 360), (179.25, -360)):
            r.append(("one_%s_%d_%d" % (s, lon, turn), inside, dict(n=1, shapes=[s], lon=[lon], turn=turn, lat=20.25)))
    r.append(("pair", inside, dict(n=1, shapes=["tri", "dart"], lon=[359.25, -0.25], turn=0, lat=-10.75)))
    r.append(("pair_same", inside, dict(n=1, shapes=["dart", "tri"], lon=[100.25, 100.75], turn=0, lat=-0.75)))
    r.append(("two_points", inside, dict(n=2, shapes=["tri"], lon=[30.25], turn=0, lat=40.25, near=tier == "quick")))
    if tier != "quick":
        r.append(("two_points_pair", inside, dict(n=2, shapes=["tri", "dart"], lon=[30.25, 30.75], turn=0, lat=40.25)))
    return r
