"""Smoothing and counting along tracks."""
from fractions import Fraction

PROPERTY = "C23"


def BOUNDS(tier):
    return "up to %d observations in tracks of any lengths, any values, steps of 1 to 3 days, half windows from 1 to 4 days" % (4 if tier == "quick" else 6)


OUTSIDE = "more observations; half windows which are not whole numbers"
ASSUMPTIONS = ["rows of a track follow each other, sorted by date; the numbers of the tracks may be in any order"]


def table(S, n, first=False):
    T = S.mod("observations.tracking")
    o = T.TrackEddiesObservations(size=n)
    ids, t = [S.choice("id0", [1, 4])], [S.choice("t0", [0, 10])]
    for k in range(1, n):
        ids.append(other(S, ids, k))
        t.append(t[-1] + S.choice("t%d" % k, [1, 2, 3]) if ids[k] == ids[k - 1] else S.choice("s%d" % k, [t[0], t[-1] + 1]))
    y = S.ints("y", n, -50, 50)
    for k in range(n):
        o.track[k], o.time[k], o.lon[k] = ids[k], t[k], y[k]
        o["n"][k] = k - ids.index(ids[k])
        o["speed_area"][k] = k + 1
    return o, ids, t, y


def other(S, ids, k):
    """the same track, one with a higher number or one with a lower number"""
    how = S.choice("id%d" % k, ["same", "up", "down"])
    return {"same": ids[-1], "up": max(ids) + 1 + (k == 2), "down": min(ids) - 1 if min(ids) > 0 else max(ids) + 3}[how]


def loess_of(S, ids, t, y, hw):
    r = []
    for k in range(len(ids)):
        s, w = 0, 0
        for q in range(len(ids)):
            d = abs(t[q] - t[k])
            if ids[q] == ids[k] and d < hw:
                c = (1 - Fraction(d, hw) ** 3) ** 3
                s, w = s + y[q] * float(c), w + float(c)
        r.append(s / w)
    return r


def ordered(S, l):
    r = []
    for u in l:
        q = 0
        while q < len(r) and bool(r[q] <= u):
            q += 1
        r.insert(q, u)
    return r


def median_of(S, ids, t, y, hw):
    r = []
    for k in range(len(ids)):
        v = ordered(S, [y[q] for q in range(len(ids)) if ids[q] == ids[k] and abs(t[q] - t[k]) <= hw])
        m = len(v) // 2
        r.append(v[m] if len(v) % 2 else (v[m - 1] + v[m]) / 2)
    return r


def smooth(S, n, kind, inplace):
    o, ids, t, y = table(S, n)
    hw = S.choice("hw", [1, 2, 3, 4])
    f = o.loess_filter if kind == "loess" else o.median_filter
    exp = (loess_of if kind == "loess" else median_of)(S, ids, t, y, hw)
    r = f(hw, "time", "lon", inplace=inplace)
    got = r.lon if inplace else r
    S.check(len(got) == n, "as many values")
    for k in range(n):
        S.check(S.close(got[k], exp[k], 1e-6), "weighted mean of the neighbours of the same track" if kind == "loess" else "median of the neighbours of the same track")
        S.check(S.And(o.lon[k] == got[k] if inplace else o.lon[k] == y[k], o.time[k] == t[k], o.track[k] == ids[k]), "nothing else changes")


def position(S, n):
    o, ids, t, y = table(S, n)
    z = S.ints("z", n, -50, 50)
    for k in range(n):
        o.lat[k] = z[k]
    a, b = S.choice("a", [1, 2]), S.choice("b", [1, 3])
    o.position_filter(a, b)
    for f, v in (("lon", y), ("lat", z)):
        exp = loess_of(S, ids, t, median_of(S, ids, t, v, a), b)
        for k in range(n):
            S.check(S.close(o[f][k], exp[k], 1e-6), "median then mean, for both coordinates")


def cumul(S, n):
    G = S.mod("generic")
    ids = [S.choice("id0", [0, 4])]
    for k in range(1, n):
        ids.append(other(S, ids, k))
    y = S.ints("y", n, -50, 50)
    r = G.cumsum_by_track(S.arr(y, "i8"), S.arr(ids, "u4"))
    for k in range(n):
        S.check(r[k] == S.sum([y[q] for q in range(k + 1) if ids[q] == ids[k]]), "sum from the start of the track")


def consecutive(S, n):
    G = S.mod("generic")
    m = S.bools("m", n)
    r = G.count_consecutive(S.arr(m, "?"))
    c = 0
    for k in range(n):
        c = S.If(m[k], c + 1, 0)
        S.check(r[k] == c, "number of true values since the last false one")


def cases(tier):
    top = 4 if tier == "quick" else 5
    out = []
    for n in range(1, top + 1):
        for kind in ("loess", "median"):
            if kind == "loess" or n < top:
                out.append(("%s-%d" % (kind, n), smooth, dict(n=n, kind=kind, inplace=n % 2 == 0)))
        out.append(("consecutive-%d" % (n + 1), consecutive, dict(n=n + 1)))
        out.append(("cumul-%d" % (n + 1), cumul, dict(n=n + 1)))
    for n in range(1, top - 1):
        out.append(("position-%d" % n, position, dict(n=n)))
    return out
