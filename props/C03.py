"""Longitude wrapping."""
PROPERTY = "C03"


def BOUNDS(tier):
    return "lines of up to %d points, longitudes in [-720, 720] and reference in [-360, 360] on a quarter degree grid, consecutive points less than 180 degrees apart when the line is cut" % (3 if tier == "quick" else 5)


OUTSIDE = "more points; float rounding off the quarter degree grid"


def whole(S, v):
    return S.eqf(S.floor(v) * 1.0, v)


def wrap(S, n):
    x = S.fxs("x", n, -720, 720, 4)
    y = S.fxs("y", n, -90, 90, 1)
    ref = S.fx("ref", -360, 360, 4)
    G = S.mod("generic")
    ox, oy = G.wrap_longitude(S.arr(x, "f8"), S.arr(y, "f8"), ref)
    S.check(S.And(len(ox) == n, len(oy) == n), "same number of points")
    S.out("ox", ox)
    for i in range(n):
        S.check(S.And(ox[i] >= ref, ox[i] < ref + 360), "wrapped into the 360 degree range")
        S.check(whole(S, (ox[i] - x[i]) / 360), "same place on the globe")
        S.check(S.eqf(oy[i], y[i]), "latitude unchanged")


def cut(S, n, gap=None):
    """gap: rank of a point which is a gap of the line"""
    x = S.fxs("x", n, -720, 720, 4)
    for i in range(1, n):
        if gap in (i, i - 1):
            continue
        S.assume(S.And(x[i] - x[i - 1] < 180, x[i - 1] - x[i] < 180))
    y = S.fxs("y", n, -90, 90, 1)
    ref = S.fx("ref", -360, 360, 4)
    G = S.mod("generic")
    x_in = [float("nan") if i == gap else v for i, v in enumerate(x)]
    ox, oy = G.wrap_longitude(S.arr(x_in, "f8"), S.arr(y, "f8"), ref, cut=True)
    w = [(v - ref) % 360 + ref for v in x]
    q = [(v - u) / 360 for v, u in zip(x, w)]
    exp = [(w[0], y[0])]
    for i in range(1, n):
        if i == gap:
            exp.append(None)
            continue
        if i - 1 != gap and q[i] != q[i - 1]:
            s = 360.0 * (q[i] - q[i - 1])
            exp += [(w[i] + s, y[i]), None, (w[i - 1] - s, y[i - 1])]
        exp.append((w[i], y[i]))
    S.check(S.And(len(ox) == len(exp), len(oy) == len(exp)), "cut exactly where the line crosses the bounds")
    for k, e in enumerate(exp):
        if e is None:
            S.check(S.isnan(ox[k]), "pieces separated by a gap")
        else:
            S.check(S.And(S.eqf(ox[k], e[0]), S.eqf(oy[k], e[1])), "each piece follows the original line and stays continuous")


def cases(tier):
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    r = [("wrap_%d" % n, wrap, dict(n=n)) for n in (1, 2)]
    r += [("cut_%d" % n, cut, dict(n=n)) for n in ns if n > 1]
    r += [("cut_gap_%d_%d" % (n, g), cut, dict(n=n, gap=g)) for n, g in (((3, 1), (4, 1)) if tier == "quick" else ((3, 1), (4, 1), (4, 2), (5, 2)))]
    return r
