"""Numbers computed along tracks and around events."""
import math
import types

from props import net as N
from props.C43 import patch

PROPERTY = "C48"


def BOUNDS(tier):
    return (
        "tables of 1 to %d observations, any track and date, positions of 5 sets in several turns; contours of 2 to 4 observations; "
        "events followed along 3 or 4 observations with any origin, percentage, date, window of 1 to 5 days and 4 quantiles" % (5 if tier == "quick" else 6)
    )


OUTSIDE = "union of polygons by the library; other positions for azimuth (trigonometric functions are computed, not encoded)"
ASSUMPTIONS = ["tracks are stored one after the other, as the rest of the package asks"]


def numbers(S, n):
    """track of each observation, in order"""
    k = S.ints("k", n, 0, n)
    S.assume(S.And([S.Or(a == b, a < b) for a, b in zip(k, k[1:])]))
    return k


def table(S, n):
    T = S.mod("observations.tracking").TrackEddiesObservations
    o = T(size=n, track_array_variables=2, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    o.sign_type = 1
    return o


def age(S, n):
    """age from 0 to 100 along each track"""
    o = table(S, n)
    k = numbers(S, n)
    for i in range(n):
        o.track[i] = k[i]
    num = [0]
    for i in range(1, n):
        num.append(S.If(k[i] == k[i - 1], num[-1] + 1, 0))
    for i in range(n):
        o["n"][i] = num[i]
    life = [S.count([k[j] == k[i] for j in range(n)]) for i in range(n)]
    L, A = o.lifetime, o.age
    S.check(len(L) == len(A) == n, "one value by observation")
    for i in range(n):
        S.check(L[i] == life[i], "number of observations of the track")
        S.check(S.And(A[i] >= 0, A[i] <= 100 + 1e-4), "age is from 0 to 100")
        S.check(S.If(life[i] == 1, A[i] == 0, S.close(A[i] * (life[i] - 1), 100.0 * num[i], 1e-4)), "part of the life which is over")


PLACES = [
    [(10.0, 40.0), (8.0, 42.0), (9.0, 38.0), (12.0, 37.0), (13.0, 43.0), (4.0, 41.0)],
    [(359.0, -40.0), (1.0, -42.0), (-3.0, -38.0), (357.0, -43.0), (3.0, -36.0), (362.0, -44.0)],
    [(179.0, 1.0), (-179.0, 3.0), (181.0, -2.0), (177.0, 5.0), (175.0, 0.5), (-176.0, 2.0)],
    [(20.0, -30.0), (20.0, -35.0), (20.0, -31.0), (25.0, -39.0), (15.0, -39.0), (20.0, -25.0)],
    [(-60.0, 35.0), (-60.0, 33.0), (-58.0, 30.0), (-63.0, 36.0), (300.5, 31.0), (-57.0, 39.0)],
]


def bearing(a, b):
    """direction of b from a, clockwise from west"""
    v = []
    for x, y in (a, b):
        x, y = math.radians(x), math.radians(y)
        v.append((math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y)))
    x, y = math.radians(a[0]), math.radians(a[1])
    e = (-math.sin(x), math.cos(x), 0.0)
    n = (-math.sin(y) * math.cos(x), -math.sin(y) * math.sin(x), math.cos(y))
    dot = lambda p, q: sum(i * j for i, j in zip(p, q))
    return dot(v[1], n), dot(v[1], e)


def azimuth(S, n, places):
    """direction of each track"""
    o = table(S, n)
    k = [S.concrete(v) for v in numbers(S, n)]
    for i in range(n):
        o.track[i] = k[i]
        o.lon[i], o.lat[i] = PLACES[places][i]
    eq = S.choice("equatorward", [None, False, True])
    az = o.get_azimuth(**({} if eq is None else dict(equatorward=eq)))
    # tracks, from the first observation to the last
    first = [i for i in range(n) if i == 0 or bool(k[i] != k[i - 1])]
    S.check(len(az) == len(first), "one value by track")
    for q, i in enumerate(first):
        j = (first[q + 1] if q + 1 < len(first) else n) - 1
        a, b = PLACES[places][i], PLACES[places][j]
        if i == j:
            continue
        north, east = bearing(a, b)
        ang = math.degrees(math.atan2(east, north)) + 90
        if eq and a[1] < 0:
            ang = -ang
        d = (az[q] - ang + 180) % 360 - 180
        S.check(S.And(d < 1e-3, d > -1e-3), "direction from the first observation to the last")
        if eq and abs(north) > 1e-9:
            S.check(az[q] > 0 if (north > 0) == (a[1] > 0) else az[q] < 0, "positive poleward, negative equatorward")


def days(S, n):
    """days covered by a table"""
    o = table(S, n)
    t = S.ints("t", n, 0, 30)
    for i in range(n):
        o.time[i] = 100 + t[i]
    a, b = o.period
    S.check(S.And(S.Or([a == 100 + v for v in t]), S.Or([b == 100 + v for v in t]), S.And([S.And(a <= 100 + v, b >= 100 + v) for v in t])), "first and last date")
    S.check(o.nb_days == b - a + 1, "number of days")
    e = o.empty_dataset()
    S.check(len(e) == 0 and sorted(e.fields) == sorted(o.fields), "empty table with the same fields")
    p = o.index(S.arr([n - 1], "i8"))
    S.check(S.And(p.period[0] == 100 + t[-1], p.nb_days == 1), "period of a part")


def convex(S, intern):
    """convex contours"""
    T = S.mod("observations.observation").EddiesObservations
    o = T(size=2, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    sq = [(0, 0), (4, 0), (4, 4), (0, 4), (0, 0)]
    turn = S.choice("turn", [1, -1])
    p = [[S.int("%s%d" % (c, i), -6, 6) for i in range(2)] for c in "xy"]
    for w in "es":
        for i in range(2):
            for j, (x, y) in enumerate(sq[::turn]):
                # one vertex moves, in contours which are asked
                if (x, y) == (4, 4) and (w == "s") == bool(intern):
                    x, y = x + p[0][i], y + p[1][i]
                o["contour_lon_" + w][i, j], o["contour_lat_" + w][i, j] = x, y
    r = o.is_convex(intern=True) if intern else o.is_convex()
    for i in range(2):
        x, y = 4 + p[0][i], 4 + p[1][i]
        # vertices (0, 0), (4, 0), (x, y), (0, 4)
        inside = S.And(x > 0, y > 0, x + y > 4)
        flat = S.Or(x == 0, y == 0, x + y == 4)
        S.check(S.Or(flat, S.Not(S.iff(r[i], S.Not(inside)))), "convex or not")


class Poly:
    """stand-in of the library: keeps what is joined"""

    def __init__(self, v):
        self.l = [v]

    def __add__(self, o):
        r = Poly(None)
        r.l = self.l + o.l
        return r

    def __or__(self, o):
        return self + o

    def __iter__(self):
        return iter([tuple((v[i, 0], v[i, 1]) for i in range(2)) for v in self.l])


def shapes(S, n):
    """contours of each track joined"""
    P = S.mod("poly")
    o = table(S, n)
    k = numbers(S, n)
    for i in range(n):
        o.track[i] = k[i]
        for w, q in (("e", 1), ("s", 2)):
            for p in range(2):
                o["contour_lon_" + w][i, p], o["contour_lat_" + w][i, p] = 10 * i + p + q, 20 * i - p + 3 * q
    intern = S.choice("intern", [None, False, True])
    with patch(P, Polygon=Poly):
        r = o.shape_polygon(**({} if intern is None else dict(intern=intern)))
    q = 2 if intern else 1
    first = [i for i in range(n) if i == 0 or bool(k[i] != k[i - 1])]
    S.check(len(r) == len(first), "one shape by track")
    for (x, y), i, j in zip(r, first, first[1:] + [n]):
        S.check(len(x) == len(y) == 3 * (j - i), "contours of the track")
        for a, b in enumerate(range(i, j)):
            S.check(S.And(S.isnan(x[3 * a]), S.isnan(y[3 * a])), "contours are separated")
            for p in range(2):
                S.check(S.And(x[3 * a + 1 + p] == 10 * b + p + q, y[3 * a + 1 + p] == 20 * b - p + 3 * q), "contours of the track")


def quantile(S, s, q):
    """of a sorted list"""
    p = q * (len(s) - 1) / 100.0
    i = int(p)
    return s[i] if p == i else s[i] + (s[i + 1] - s[i]) * (p - i)


def events(S, n, q, parent, how):
    """origin of observations which follow an event"""
    W = S.mod("observations.network")
    # rows: segment 1 (n rows), segment 2 (3 rows), segment 3 (2 rows)
    seg = [1] * n + [2] * 3 + [3] * 2
    size = len(seg)
    gap = S.ints("g", n - 1, 1, 3)
    t = [10]
    for g in gap:
        t.append(t[-1] + g)
    t = t + [11, 12, 13, 11, 12]
    back, end = how == "back", "other" if how == "other" else "stop"
    fol = [i + 1 for i in range(size)]
    for i in range(size - 1):
        if seg[i] != seg[i + 1]:
            fol[i] = -1
    fol[-1] = -1
    if end == "other":
        fol[n - 1] = n + 1
    start = 0
    if back:
        t[:n] = [20 - (v - 10) for v in t[:n]]
    t[n + 1] = S.choice("jump", [t[n + 1], t[0]]) if end == "other" else t[n + 1]
    win = S.choice("win", [2, 4])
    # origins of the observations of segment 1
    pairs = [[(-1, -1), (n, -1), (n, n + 4), (n, n)], [(-1, -1), (n + 4, n + 1), (n, n + 1), (-1, n + 3)], [(n, n + 4), (-1, -1), (n + 1, n + 2)], [(-1, n), (n, n + 3)]]
    src = [list(S.choice("s%d" % i, pairs[i])) for i in range(n)]
    pct = [[S.int("p%d%d" % (i, c), 0, 100) for c in range(2)] for i in range(n)]
    ind = src + [[n, n + 4]] * 5
    pc = pct + [[55, 45]] * 5
    nb = S.choice("nb_min", [1, 3])

    args = (S.arr(ind, "i4"), S.arr(pc, "f8"), S.arr(fol, "i4"), S.arr(t, "i4"), S.arr(seg, "i4"))
    kw = dict(window=win, q=q, nb_min=nb)
    if parent:
        r = W.get_percentile_around_event(S.arr([start], "i4"), S.arr([n], "i4"), S.arr([n + 3], "i4"), *args, follow_parent=True, **kw)
    else:
        r = W.get_percentile_around_event(S.arr([n, n + 3], "i4"), S.arr([start, start], "i4"), S.arr([start, start], "i4"), *args, **kw)
    got = [r[0][0], r[1][0]] if parent else [r[0][0], r[0][1]]
    if not parent:
        S.check(S.And([S.eqf(r[0][k], r[1][k]) for k in range(2)]), "both origins")
    near = [i for i in range(n) if bool(S.And(t[i] - t[0] < win, t[0] - t[i] < win))]
    for target, g in ((2, got[0]), (3, got[1])):
        v = [pct[i][c] for i in near for c in range(2) if src[i][c] != -1 and seg[src[i][c]] == target]
        if len(v) < nb:
            S.check(S.isnan(g), "missing without enough observations")
            continue
        S.check(S.Not(S.isnan(g)), "statistic")
        s = order(S, v)
        S.check(S.close(g, quantile(S, s, q), 1e-4), "quantile of percentages in the target, during the window")


def order(S, v):
    """sorted values"""
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = S.If(a <= b, a, b), S.If(a <= b, b, a)
    return v


def cases(tier):
    m = 5 if tier == "quick" else 6
    r = [("age%d" % n, age, dict(n=n)) for n in range(1, m + 1)]
    r += [("azimuth%d_%d" % (n, p), azimuth, dict(n=n, places=p)) for n in (2, m) for p in range(len(PLACES))]
    r += [("days%d" % n, days, dict(n=n)) for n in (1, 3)]
    r += [("convex%d" % i, convex, dict(intern=i)) for i in (0, 1)]
    r += [("shapes%d" % n, shapes, dict(n=n)) for n in (2, 4)]
    for n in (3,) if tier == "quick" else (3, 4):
        for q, p, how in ((0, 0, "stop"), (25, 1, "stop"), (50, 0, "other"), (100, 1, "back"), (50, 1, "other"), (75, 0, "back")):
            r.append(("event%d_%d_%d_%s" % (n, q, p, how), events, dict(n=n, q=q, parent=p, how=how)))
    return r
