"""Operations on tables of observations."""
PROPERTY = "C18"


def BOUNDS(tier):
    return "tables of 0 to %d rows with scalar, extra and contour fields, with and without track numbers: every cut (mask, area, dates, positions, slices), every insertion position, every list of up to 3 tables, every set of fields among 5" % (3 if tier == "quick" else 4)


OUTSIDE = "larger tables"
ASSUMPTIONS = ["rows are sorted by track, and the first row of a track is numbered 0"]
EXTRA = ["type_cyc", "virtual"]
CONT = ["contour_lon_s", "contour_lat_s"]


def make(S, n, first=0, cls=None, only=None, raw=False, extra=EXTRA, nv=2):
    O = S.mod("observations.observation")
    o = (cls or O.EddiesObservations)(n, track_extra_variables=list(extra), track_array_variables=nv, array_variables=list(CONT), only_variables=only, raw_data=raw)
    o.sign_type = -1
    for p, f in enumerate(sorted(o.fields)):
        if f in ("track", "n"):
            continue
        for k in range(n):
            v = val(f, p, first + k)
            if f in CONT:
                for q in range(nv):
                    o[f][k, q] = v + q
            else:
                o[f][k] = v
    return o


def val(f, p, k):
    return (1 + k) if f in EXTRA else 10 * (1 + k) + p % 7


def cell(S, o, f, k):
    v = o.obs[f][k]
    return list(v) if f in CONT else [v]


def eq(S, a, b):
    return S.And([len(a) == len(b)] + [x == y for x, y in zip(a, b)])


def same(S, new, q, old, k, fields=None, skip=()):
    for f in fields or old.fields:
        if f not in skip:
            S.check(eq(S, cell(S, new, f, q), cell(S, old, f, k)), "row copied: " + f)


def rows_are(S, new, old, ks, fields=None, skip=()):
    S.check(len(new) == len(ks), "number of rows")
    S.check(sorted(fields or old.fields) == sorted(new.fields), "fields")
    for q, k in enumerate(ks):
        same(S, new, q, old, k, fields, skip)


def untouched(S, o, n, first=0):
    for p, f in enumerate(sorted(o.fields)):
        if f in ("track", "n"):
            continue
        for k in range(n):
            v = val(f, p, first + k)
            S.check(eq(S, cell(S, o, f, k), [v, v + 1] if f in CONT else [v]), "the table itself is unchanged")


def cut(S, n, how):
    o = make(S, n)
    if how == "mask":
        m = S.bools("m", n)
        new = o.extract_with_mask(S.arr(m, "?"))
    elif how == "time":
        t = S.ints("t", n, 0, 9)
        for k in range(n):
            o.time[k] = t[k]
        t0, step = S.choice("ref", [0, 3, 7, 12]), S.choice("step", [1, 2, 3])
        new = o.time_sub_sample(t0, step)
        m = [(v - t0) % step == 0 for v in t]
    else:
        x, y = S.ints("x", n, -190, 370), S.ints("y", n, -90, 90)
        for k in range(n):
            o.lon[k], o.lat[k] = x[k], y[k]
        x0, w = S.choice("west", [-180, -10, 0, 350]), S.choice("w", [20, 359])
        area = dict(llcrnrlon=x0, urcrnrlon=x0 + w)
        y0, y1 = -90, 90
        if S.choice("lat", [0, 1]):
            y0, y1 = -10, 30
            area.update(llcrnrlat=y0, urcrnrlat=y1)
        new = o.extract_with_area(area)
        m = [S.And(v > y0, v < y1, S.Or([S.And(u + 360 * z > x0, u + 360 * z < x0 + w) for z in (-2, -1, 0, 1, 2)])) for u, v in zip(x, y)]
    ks = [k for k in range(n) if S.concrete(S.If(m[k], 1, 0))]
    rows_are(S, new, o, ks)
    S.check(new.sign_type == -1, "sign")
    if how == "mask":
        untouched(S, o, n)


def pick(S, n):
    o = make(S, n)
    how = S.choice("how", ["slice", "list", "array", "reverse", "int"])
    if how == "slice":
        a = S.concrete(S.int("a", 0, n))
        b = S.concrete(S.int("b", a, n))
        new, ks = o.index(slice(a, b)), list(range(a, b))
    elif how == "int":
        a = S.concrete(S.int("a", 0, n - 1))
        new, ks = o.index(a), [a]
    else:
        ks = [S.concrete(S.int("i%d" % q, 0, n - 1)) for q in range(S.choice("nb", [0, 1, 2]))]
        i = list(ks) if how == "list" else S.arr(ks, "i8")
        if how == "list" and not ks:
            return
        new = o.index(i, reverse=how == "reverse")
        if how == "reverse":
            ks = [k for k in range(n) if k not in ks]
    rows_are(S, new, o, ks)
    S.check(new.sign_type == -1, "sign")
    if len(new):
        new.obs["lat"][0] = 77
    untouched(S, o, n)


def insert(S, n0, n1, tracks):
    T = S.mod("observations.tracking")
    cls = T.TrackEddiesObservations if tracks else None
    a, b = make(S, n0, 0, cls), make(S, n1, n0, cls)
    ref = make(S, n0 + n1, 0, cls)
    if tracks:
        for k in range(n0):
            a.track[k] = ref.track[k] = 2 if k else 1
        for k in range(n1):
            b.track[k] = ref.track[n0 + k] = 4
        for o in (a, b):
            if len(o):
                o.nb_tracks, o.period
    how = S.choice("how", ["insert", "append", "add"])
    if how == "insert":
        i = S.concrete(S.int("i", -n0 - 1 if n0 else 0, n0))
        new = a.insert_observations(b, i)
        i = i if i >= 0 else n0 + 1 + i
    else:
        i = n0
        new = a.append(b) if how == "append" else a + b
    ks = list(range(i)) + list(range(n0, n0 + n1)) + list(range(i, n0))
    rows_are(S, new, ref, ks)
    if n0 + n1 == 0:
        return
    t0, t1 = new.period
    times = [S.concrete(ref.time[k]) for k in ks]
    S.check(S.And(t0 == min(times), t1 == max(times)), "time coverage of all the rows")
    if tracks and i == n0:
        ids = [S.concrete(ref.track[k]) for k in ks]
        S.check(new.nb_tracks == len(set(ids)), "number of tracks")
        for t in set(ids):
            sl = new.track_slice(t)
            S.check(S.And(sl.start == ids.index(t), sl.stop - sl.start == ids.count(t)), "rows of a track")


def joined(S, sizes, tracks):
    O, T = S.mod("observations.observation"), S.mod("observations.tracking")
    cls = T.TrackEddiesObservations if tracks else O.EddiesObservations
    ts, ids, first = [], [], 0
    ref = make(S, sum(sizes), 0, cls)
    for j, n in enumerate(sizes):
        o = make(S, n, first, cls)
        if tracks:
            v = []
            for k in range(n):
                how = S.choice("s%d_%d" % (j, k), [0, 1, 2] if k == 0 else [0, 1, 2, "down"])
                v.append(min(v) - 1 if how == "down" and min(v) > 0 else max(v) + 3 if how == "down" else (v[-1] if k else 0) + how if how == 0 or not k else max(v) + how)
                o.track[k] = v[k]
            ids.append(v)
        ts.append(o)
        first += n
    new = cls.concatenate(ts)
    rows_are(S, new, ref, range(sum(sizes)), skip=("track",))
    S.check(new.sign_type == -1, "sign")
    if tracks:
        key = [(j, t) for j, v in enumerate(ids) for t in v]
        got = [S.concrete(new.track[k]) for k in range(len(new))]
        for p in range(len(key)):
            for q in range(p):
                S.check((got[p] == got[q]) == (key[p] == key[q]), "tracks stay apart")
        if all(v == sorted(v) for v in ids):
            S.check(got == sorted(got), "tracks stay sorted")
    for j, o in enumerate(ts):
        if tracks:
            S.check([S.concrete(x) for x in o.track] == ids[j], "the tables themselves are unchanged")


def merged(S, n0, n1, tracks, drop):
    T = S.mod("observations.tracking")
    cls = T.TrackEddiesObservations if tracks else None
    a = make(S, n0, 0, cls)
    only = [f for f in a.fields if f != drop] if drop else None
    b = make(S, n1, n0, cls, only=only)
    va, vb = [], []
    if tracks:
        for v, n, o, nm in ((va, n0, a, "a"), (vb, n1, b, "b")):
            for k in range(n):
                v.append((v[-1] if k else 0) + S.choice("%s%d" % (nm, k), [0, 1, 2]))
                o.track[k] = v[k]
    new = a.merge(b)
    S.check(len(new) == n0 + n1, "number of rows")
    S.check(sorted(new.fields) == sorted(a.fields), "fields of the first table")
    for k in range(n0):
        same(S, new, k, a, k)
    for k in range(n1):
        same(S, new, n0 + k, b, k, skip=("track",))
        if drop:
            S.check(eq(S, cell(S, new, drop, n0 + k), [0, 0] if drop in CONT else [0]), "missing field filled with 0")
    if tracks:
        got = [S.concrete(x) for x in new.track]
        key = [(0, t) for t in va] + [(1, t) for t in vb]
        for p in range(len(key)):
            for q in range(p):
                S.check((got[p] == got[q]) == (key[p] == key[q]), "tracks stay apart")
        S.check([S.concrete(x) for x in b.track] == vb, "the tables themselves are unchanged")
    S.check(new.sign_type == -1, "sign")


def mixed(S, how):
    """tables which do not hold the same fields, or not the same way"""
    O = S.mod("observations.observation")
    fs = ["lon", "lat", "time", "type_cyc", "contour_lon_s"]

    def one(nm, first):
        only = [f for f in fs if S.concrete(S.bool(nm + f))] if S.choice(nm + "only", [0, 1]) else None
        S.assume(only is None or len(only) > 0)
        return make(S, 2, first, only=only, raw=bool(S.choice(nm + "raw", [0, 1])), extra=S.choice(nm + "extra", [EXTRA, EXTRA[::-1]]), nv=S.choice(nm + "nv", [2, 3]))

    a = make(S, 2, only=["lon", "lat", "type_cyc"]) if how == "concat" else make(S, 2)
    fields = list(a.fields)
    b = one("b", 2)
    try:
        new = a.__class__.concatenate([a, b]) if how == "concat" else a.insert_observations(b, -1)
    except Exception:
        return
    S.check(a.raw_data == b.raw_data, "values stored in different ways are not mixed")
    S.check(sorted(new.fields) == sorted(fields) == sorted(b.fields), "fields which are not the same are not mixed")
    S.check(len(new) == 4, "number of rows")
    for q in range(2):
        same(S, new, 2 + q, b, q)


def fields(S, how):
    o = make(S, 2)
    if how == "copy":
        new = o.copy()
        rows_are(S, new, o, [0, 1])
        S.check(new == o, "equal to its copy")
        new.obs["lat"][1] = 5
        S.check(S.Not(new == o), "different once changed")
        untouched(S, o, 2)
        return
    rm = [f for f in ("lat", "type_cyc", "virtual", "contour_lon_s", "time") if S.concrete(S.bool("r" + f))]
    small = o.remove_fields(*rm)
    rows_are(S, small, o, [0, 1], [f for f in o.fields if f not in rm])
    S.check(small.sign_type == -1, "sign")
    left = [f for f in o.fields if f not in rm]
    if how == "remove":
        both = small + small.copy()
        rows_are(S, both, small, [0, 1, 0, 1], left)
    else:
        big = small.add_fields(["shape_error_e"][:0] + ["cost_association"], ["uavg_profile"])
        S.check(sorted(big.fields) == sorted(left + ["cost_association", "uavg_profile"]), "fields added")
        for k in range(2):
            same(S, big, k, small, k, left)
            S.check(S.concrete(big.obs["cost_association"][k]) == 0, "new field empty")
        S.check(big.obs["uavg_profile"].shape == (2, 2), "size of the new field")
        if "type_cyc" in rm:
            rot = small.add_rotation_type()
            S.check(sorted(rot.fields) == sorted(left + ["type_cyc"]), "rotation added")
            for k in range(2):
                same(S, rot, k, small, k, left)
                S.check(S.concrete(rot.type_cyc[k]) == -1, "rotation of the table")
    untouched(S, o, 2)


def ends(S, n):
    T = S.mod("observations.tracking")
    o = make(S, n, 0, T.TrackEddiesObservations)
    ids = [S.choice("t%d" % k, [0, 1, 2]) for k in range(n)]
    for k in range(1, n):
        ids[k] += ids[k - 1]
    for k in range(n):
        o.track[k] = ids[k]
        o["n"][k] = k - ids.index(ids[k])
    S.check(len(o.first_obs()) == len(set(ids)), "one first observation per track")
    rows_are(S, o.first_obs(), o, [ids.index(t) for t in sorted(set(ids))])
    rows_are(S, o.last_obs(), o, [max(k for k in range(n) if ids[k] == t) for t in sorted(set(ids))])


def arrays(S, n):
    O = S.mod("observations.observation")
    x, y = S.ints("x", n, -180, 360), S.ints("y", n, -90, 90)
    o = O.EddiesObservations.from_array({"time": S.arr([7] * n, "f8"), "lon": S.arr(x, "f4"), "lat": S.arr(y, "f4")})
    S.check(len(o) == n, "size")
    for k in range(n):
        S.check(S.And(o.lon[k] == x[k], o.lat[k] == y[k], o.time[k] == 7), "values")


def cases(tier):
    top = 3 if tier == "quick" else 4
    out = []
    for n in range(1, top + 1):
        for how in ("mask", "time", "area"):
            if how != "area" or n < top:
                out.append(("cut", cut, dict(n=n, how=how)))
        out.append(("pick", pick, dict(n=n)))
        out.append(("arrays", arrays, dict(n=n)))
    for n in range(0, top + 1):
        out.append(("ends", ends, dict(n=n)))
    out.append(("cut", cut, dict(n=0, how="mask")))
    for n0 in range(0, top):
        for n1 in range(0, top):
            for tr in (False, True):
                out.append(("insert", insert, dict(n0=n0, n1=n1, tracks=tr)))
                out.append(("merged", merged, dict(n0=n0, n1=n1, tracks=tr, drop=None)))
    for drop in ("lat", "type_cyc", "contour_lat_s"):
        out.append(("merged", merged, dict(n0=1, n1=2, tracks=True, drop=drop)))
    sz = [(2,), (1, 2), (2, 0), (0, 2), (0, 0), (1, 1, 1), (2, 0, 1)] + ([(2, 1, 2), (3, 2)] if top > 3 else [])
    for s in sz:
        for tr in (False, True):
            out.append(("joined", joined, dict(sizes=list(s), tracks=tr)))
    for how in ("concat", "insert"):
        out.append(("mixed", mixed, dict(how=how)))
    for how in ("copy", "remove", "add"):
        out.append(("fields", fields, dict(how=how)))
    return [("-".join([n] + [str(v).replace(" ", "") for v in k.values()]), f, k) for n, f, k in out]
