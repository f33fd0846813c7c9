"""Selections of tracks."""
PROPERTY = "C22"


def BOUNDS(tier):
    return "tables of up to %d observations in tracks with any numbers (missing numbers included), any selection mask and thresholds" % (4 if tier == "quick" else 6)


OUTSIDE = "larger tables; contours"
ASSUMPTIONS = ["rows are sorted by track then date"]


def table(S, n, cls=None, gaps=True, time=True):
    T = S.mod("observations.tracking")
    o = (cls or T.TrackEddiesObservations)(size=n)
    ids = [S.choice("first_id", [0, 1] + ([3] if gaps else []))]
    for k in range(1, n):
        ids.append(ids[-1] + S.choice("step%d" % k, [0, 1] + ([2] if gaps else [])))
    pos = []
    for k in range(n):
        pos.append(pos[-1] + 1 if k and ids[k] == ids[k - 1] else 0)
        o.track[k] = ids[k]
        o["n"][k] = pos[k]
        o["speed_area"][k] = 1 + k
        if time:
            o.time[k] = 100 + 2 * k
    return o, ids, pos


def rows(S, o, new):
    return [S.concrete(new["speed_area"][q]) - 1 for q in range(len(new))]


def members(ids, t):
    return [k for k, v in enumerate(ids) if v == t]


def index(S, n):
    o, ids, _ = table(S, n)
    got = []
    for tr in o.iter_track():
        got.append(rows(S, o, tr))
    exp = [members(ids, t) for t in sorted(set(ids))]
    S.check(got == exp, "iteration gives every track once, with its rows")
    S.check(o.nb_tracks == len(exp), "number of tracks")
    S.check(len(o.nb_obs_by_track) == max(ids) + 1, "one size per possible number")
    for t in range(max(ids) + 1):
        m = members(ids, t)
        S.check(o.nb_obs_by_track[t] == len(m), "number of observations")
        if m:
            sl = o.track_slice(t)
            S.check(S.And(sl.start == m[0], sl.stop == m[-1] + 1), "rows of a track")
    life = o.lifetime
    S.check(S.And([life[k] == len(members(ids, ids[k])) for k in range(n)]), "lifetime of each observation")
    m = S.bools("m", n)
    c = o.count_by_track(S.arr(m, "?"))
    for t in range(max(ids) + 1):
        S.check(c[t] == S.count([m[k] for k in members(ids, t)]), "count by track")


def mask(S, n, mode):
    o, ids, _ = table(S, n)
    m = [S.concrete(v) for v in S.bools("m", n)]
    v = [0] * n
    kw = {}
    if mode == "virtual":
        v = [S.concrete(S.int("v%d" % k, 0, 1)) for k in range(n)]
        for k in range(n):
            o.virtual[k] = v[k]
        kw = dict(full_path=True, reject_virtual=True)
    elif mode == "full":
        kw = dict(full_path=True)
    elif mode == "complete":
        kw = dict(remove_incomplete=True)
    elif mode == "compress":
        kw = dict(compress_id=True)
    new = o.extract_with_mask(S.arr(m, "?"), **kw)
    ok = lambda k: m[k] and not v[k]
    if mode in ("full", "virtual"):
        exp = [k for k in range(n) if any(ok(q) for q in members(ids, ids[k]))]
    elif mode == "complete":
        exp = [k for k in range(n) if all(ok(q) for q in members(ids, ids[k]))]
    else:
        exp = [k for k in range(n) if m[k]]
    S.check(rows(S, o, new) == exp, "exactly the selected rows, in order")
    num = {t: q + 1 for q, t in enumerate(sorted({ids[k] for k in exp}))}
    for q, k in enumerate(exp):
        S.check(new.obs["track"][q] == (num[ids[k]] if mode == "compress" else ids[k]), "track number")
        S.check(S.And(new.time[q] == 100 + 2 * k), "fields")
    S.check([S.concrete(o["speed_area"][k]) for k in range(n)] == [k + 1 for k in range(n)], "the table itself is unchanged")


def by_ids(S, n):
    o, ids, _ = table(S, n)
    have = sorted(set(ids))
    want = [t for t in have if S.concrete(S.bool("w%d" % t))]
    want += S.choice("absent", [[], [max(have) + 1], [max(have) + 9]])
    S.assume(len(want) > 0)
    if S.concrete(S.bool("reverse")):
        want = want[::-1]
    new = o.extract_ids(want)
    S.check(rows(S, o, new) == [k for k in range(n) if ids[k] in want], "rows of the wanted tracks")


def length(S, n):
    o, ids, _ = table(S, n)
    b0, b1 = S.choice("b0", [-1, 0, 1, 2, 3]), S.choice("b1", [-1, 0, 1, 2, 3])
    S.assume(b0 != -1 or b1 != -1)
    nb = [len(members(ids, t)) for t in ids]
    ok = [(b0 == -1 or x >= b0) and (b1 == -1 or x <= b1) for x in nb]
    new = o.extract_with_length((b0, b1))
    S.check(rows(S, o, new) == [k for k in range(n) if ok[k]], "tracks with a length between the bounds")


def longer(S, n):
    o, ids, _ = table(S, n)
    nb = [len(members(ids, t)) for t in ids]
    mini = S.choice("mini", [1, 2, 3])
    S.assume(any(x >= mini for x in nb))
    c = S.concrete(S.bool("compress"))
    new = o.extract_longer_eddies(mini, S.arr(nb, "i8"), compress_id=c)
    exp = [k for k in range(n) if nb[k] >= mini]
    S.check(rows(S, o, new) == exp, "tracks with enough observations")
    num = {t: q + 1 for q, t in enumerate(sorted({ids[k] for k in exp}))}
    for q, k in enumerate(exp):
        S.check(new.obs["track"][q] == (num[ids[k]] if c else ids[k]), "track number")


def period(S, n):
    o, ids, _ = table(S, n, gaps=False, time=False)
    t = S.ints("t", n, 100, 106)
    for k in range(n):
        o.time[k] = t[k]
    p0, p1 = S.choice("p0", [0, 101, 104, -1, -3]), S.choice("p1", [0, 102, 105, -1, -4])
    t0, t1 = t[0], t[0]
    for v in t[1:]:
        t0, t1 = S.min(t0, v), S.max(t1, v)
    new = o.extract_with_period((p0, p1))
    got = rows(S, o, new)
    for k in range(n):
        a = True if p0 == 0 else t[k] >= (p0 if p0 > 0 else t0 - p0)
        b = True if p1 == 0 else t[k] <= (p1 if p1 > 0 else t1 + p1)
        S.check(S.iff(k in got, S.And(a, b)), "observations of the period")


def direction(S, n, which):
    """which: letter of extract_in_direction"""
    o, ids, _ = table(S, n, time=False)
    lon, lat = S.ints("x", n, -200, 200), S.ints("y", n, -8, 8)
    for k in range(n):
        o.lon[k] = lon[k] * 1.0
        o.lat[k] = lat[k] * 1.0
    value = S.choice("value", [0, 2])
    new = o.extract_in_direction(which, value)
    got = rows(S, o, new)
    for k in range(n):
        m = members(ids, ids[k])
        if which in "SN":
            d = lat[m[-1]] - lat[m[0]]
        else:
            d = lon[m[-1]] - lon[m[0]]
            d = S.If(d < -180, d + 360, S.If(d >= 180, d - 360, d))
            d = S.If(d < -180, d + 360, S.If(d >= 180, d - 360, d))
        S.check(S.iff(k in got, d > value if which in "NE" else d < -value), "tracks moving in this direction by more than the value")


def toward(S, n):
    o, ids, _ = table(S, n, time=False)
    lon = S.ints("x", n, -8, 8)
    for k in range(n):
        o.lon[k] = lon[k] * 1.0
    west = S.concrete(S.bool("west"))
    delta = S.choice("delta", [None, 0, 3])
    got = rows(S, o, o.extract_toward_direction(west, delta))
    for k in range(n):
        m = members(ids, ids[k])
        d = lon[m[-1]] - lon[m[0]]
        d = -d if west else d
        S.check(S.iff(k in got, d > (delta or 0)), "tracks moving to this side by more than the span")


def keep(S, n):
    o, ids, _ = table(S, n, time=False)
    t = S.ints("t", n, 100, 104)
    for k in range(n):
        o.time[k] = t[k]
        if k and ids[k] == ids[k - 1]:
            S.assume(t[k] > t[k - 1])
    date, nb = S.choice("date", [101, 103]), S.choice("nb", [-2, 0, 1])
    got = rows(S, o, o.keep_tracks_by_date(date, nb))
    for k in range(n):
        m = members(ids, ids[k])
        S.check(S.iff(k in got, S.And(S.Or([t[q] == date for q in m]), S.Or([t[q] == date + nb for q in m]))), "tracks present at both dates")


def dist(S, n, add):
    T = S.mod("observations.tracking")
    T.distance = lambda x0, y0, x1, y1: (x1 - x0) * 1000.0 + (y1 - y0) * 7.0  # any function of both positions
    o, ids, _ = table(S, n)
    x, y = S.ints("x", n, 0, 9), S.ints("y", n, 0, 9)
    for k in range(n):
        o.lon[k], o.lat[k] = x[k] * 1.0, y[k] * 1.0
    d = o.add_distance()["distance_next"] if add else o.distance_to_next()
    S.check(len(d) == n, "one distance by observation")
    for k in range(n):
        S.check(S.close(d[k], (x[k + 1] - x[k]) * 1000.0 + (y[k + 1] - y[k]) * 7.0 if k + 1 < n and ids[k + 1] == ids[k] else 0), "distance to the next observation of the track, 0 for the last one")


def box(S, n):
    o, ids, _ = table(S, n, gaps=False, time=False)
    x, y = S.ints("x", n, -4, 4), S.ints("y", n, -4, 4)
    for k in range(n):
        o.lon[k], o.lat[k] = x[k] * 1.0, y[k] * 1.0
    got = rows(S, o, o.extract_first_obs_in_box(2))
    for k in range(n):
        first = S.And([S.Or(ids[q] != ids[k], x[q] // 2 != x[k] // 2, y[q] // 2 != y[k] // 2) for q in range(k)])
        S.check(S.iff(k in got, first), "first observation of each track in each box")


def concat(S, sizes):
    T = S.mod("observations.tracking")
    parts, exp = [], []
    k = 0
    for p, n in enumerate(sizes):
        o = T.TrackEddiesObservations(size=n)
        i = S.choice("first%d" % p, [0, 1])
        for q in range(n):
            i += S.choice("s%d_%d" % (p, q), [0, 1]) if q else 0
            o.track[q] = i
            o["speed_area"][q] = 1 + k
            exp.append((p, i))
            k += 1
        parts.append(o)
    new = T.TrackEddiesObservations.concatenate(parts)
    S.check(rows(S, None, new) == list(range(k)), "all the rows in order")
    tr = [S.concrete(new.track[q]) for q in range(k)]
    for a in range(k):
        for b in range(k):
            S.check((tr[a] == tr[b]) == (exp[a] == exp[b]), "tracks of different datasets stay different")


def ends(S, n):
    """first and last observation of each track"""
    o, ids, _ = table(S, n)
    have = sorted(set(ids))
    S.check(rows(S, o, o.first_obs()) == [members(ids, t)[0] for t in have], "first observation of each track")
    S.check(rows(S, o, o.last_obs()) == [members(ids, t)[-1] for t in have], "last observation of each track")


def lonnorm(S, n, network):
    if network:
        N = S.mod("observations.network")
        o, ids, _ = table(S, n, cls=lambda size: N.NetworkObservations(size=size, track_extra_variables=["n", "lon_max"]), gaps=False)
    else:
        T = S.mod("observations.tracking")
        o, ids, _ = table(S, n, cls=lambda size: T.TrackEddiesObservations(size=size, track_extra_variables=["lon_max"], track_array_variables=2, array_variables=["contour_lon_e"]))
    x, xm = S.ints("x", n, -400, 400), S.ints("m", n, -400, 400)
    for k in range(n):
        o.lon[k] = x[k] * 1.0
        o["lon_max"][k] = xm[k] * 1.0
        if not network:
            for q in range(2):
                o["contour_lon_e"][k, q] = (xm[k] + q) * 1.0
    o.normalize_longitude()
    for k in range(n):
        v, vm = o.lon[k], o["lon_max"][k]
        S.check(S.Or([v == x[k] + 360 * q for q in range(-3, 4)]), "same position modulo a turn")
        ref = x[members(ids, ids[k])[0]]
        S.check(S.And(v >= ref - 180, v < ref + 180), "in the half turn around the first observation of the track")
        S.check(S.Or([vm == xm[k] + 360 * q for q in range(-4, 5)]), "maximum: same position modulo a turn")
        S.check(S.And(vm >= v - 180, vm < v + 180), "maximum close to the center")
        if not network:
            for q in range(2):
                c = o["contour_lon_e"][k, q]
                S.check(S.Or([c == xm[k] + q + 360 * z for z in range(-4, 5)]), "contour: same position modulo a turn")
                S.check(S.And(c >= v - 180, c < v + 180), "contour close to the center")


def cases(tier):
    n = 4 if tier == "quick" else 5
    r = [("index", index, dict(n=n))]
    r += [("mask_" + m, mask, dict(n=n - 1, mode=m)) for m in ("plain", "full", "complete", "virtual", "compress")]
    r += [("ids", by_ids, dict(n=n)), ("length", length, dict(n=n)), ("longer", longer, dict(n=n)), ("ends", ends, dict(n=n)), ("period", period, dict(n=n - 1)),
          ("toward", toward, dict(n=n - 1)), ("distance", dist, dict(n=n, add=False)), ("add_distance", dist, dict(n=n - 1, add=True)), ("box", box, dict(n=n - 1)),
          ("concat_22", concat, dict(sizes=[2, 2])), ("concat_121", concat, dict(sizes=[1, 2, 1])), ("keep", keep, dict(n=n - 1)), ("lonnorm_track", lonnorm, dict(n=n - 1, network=False)), ("lonnorm_network", lonnorm, dict(n=n - 1, network=True))]
    r += [("direction_" + d, direction, dict(n=n - 1, which=d)) for d in "NSEW"]
    return r
