"""Missing observations: detection, insertion and interpolation."""
PROPERTY = "C17"


def BOUNDS(tier):
    return "tables of up to %d observations in 1 or 2 tracks or segments, steps of 1 to 4 days, any place of the missing observations" % (5 if tier == "quick" else 6)


OUTSIDE = "larger tables; contours of inserted observations (left empty)"
ASSUMPTIONS = ["rows are sorted by track (and segment) then date", "the first and last observations of a track are observed"]


def times(S, n, cuts, hi=3):
    """strictly increasing dates in each track, tracks start at positions cuts"""
    t, step = [], []
    for k in range(n):
        if k in cuts:
            t.append(S.int("t%d" % k, 10, 14))
            step.append(None)
        else:
            d = S.int("d%d" % k, 1, hi)
            step.append(d)
            t.append(t[-1] + d)
    return t, step


def missing(S, n, cuts, untrack, half):
    G = S.mod("observations.groups")
    t, step = times(S, n, cuts, 4)
    ids = [S.choice("first_id", [0, 1])]
    for k in range(1, n):
        ids.append(ids[-1] + (1 if k in cuts else 0))
    dt = S.choice("dt", [1, 2] + ([1.5] if half else []))
    r = G.get_missing_indices(S.arr([1.0 * v for v in t], "f8"), S.arr(ids, "u4"), dt, untrack, 0)
    got = [S.concrete(r[q]) for q in range(len(r))]
    S.out("got", got)
    S.check(got == sorted(got), "in order")
    for k in range(n):
        nb = sum(1 for g in got if g == k)
        if k in cuts or (untrack and ids[k] == 0):
            S.check(nb == 0, "nothing is missing before a track")
        else:
            S.check(S.Or(S.And(nb == 0, step[k] < 2 * dt), S.And((nb + 1) * dt <= step[k], step[k] < (nb + 2) * dt)), "as many rows as whole time steps missing")


def mixed(S, n, untrack):
    """observations of several tracks (and untracked ones) in any order"""
    G = S.mod("observations.groups")
    t, step = times(S, n, (0,), 4)
    ids = [S.choice("id%d" % k, [0, 1, 2]) for k in range(n)]
    r = G.get_missing_indices(S.arr([1.0 * v for v in t], "f8"), S.arr(ids, "u4"), 1, untrack, 0)
    got = [S.concrete(r[q]) for q in range(len(r))]
    S.out("got", got)
    for k in range(n):
        nb = sum(1 for g in got if g == k)
        if k == 0 or ids[k] != ids[k - 1] or (untrack and ids[k] == 0):
            S.check(nb == 0, "nothing is missing between observations of different tracks")
        else:
            S.check(nb + 1 == step[k], "as many rows as days missing")


def table(S, n, cuts, time):
    T = S.mod("observations.tracking")
    o = T.TrackEddiesObservations(size=n)
    tr = 0
    for k in range(n):
        tr += 1 if (k in cuts and k) else 0
        o.track[k] = tr + 3
        o.time[k] = time[k]
    return o


def fill(S, n, cuts):
    t, _ = times(S, n, cuts)
    o = table(S, n, cuts, t)
    lon, lat = S.fxs("x", n, 0, 8, 2), S.fxs("y", n, 0, 8, 2)
    for k in range(n):
        o.lon[k] = lon[k]
        o.lat[k] = lat[k]
    edge = set(cuts) | {c - 1 for c in cuts} | {n - 1}
    m = [False if k in edge else S.concrete(S.bool("m%d" % k)) for k in range(n)]
    o.filled_by_interpolation(S.arr(m, "?"))
    for k in range(n):
        if m[k]:
            a = max(q for q in range(k) if not m[q])
            b = min(q for q in range(k, n) if not m[q])
            for f, v in (("lon", lon), ("lat", lat), ("time", t)):
                S.check(S.close(o[f][k] * (b - a), v[a] * (b - k) + v[b] * (k - a), 1e-3), "between the two observed neighbours")
        else:
            for f, v in (("lon", lon), ("lat", lat), ("time", t)):
                S.check(S.close(o[f][k], v[k]), "observed values are kept")


def dates(S, n, cuts, hi):
    """dates where the most frequent step is one day"""
    t, step = times(S, n, cuts, hi)
    return [S.concrete(v) for v in t]


def check_rows(S, got, n, cuts, t, ids):
    """expected rows: (source row or None, time, id)"""
    exp = []
    for k in range(n):
        if k and k not in cuts:
            for d in range(t[k - 1] + 1, t[k]):
                exp.append((None, d, ids[k]))
        exp.append((k, t[k], ids[k]))
    return exp


def insert_track(S, n, cuts, hi):
    t = dates(S, n, cuts, hi)
    diffs = sorted(b - a for a, b in zip(t, t[1:]))
    m2 = diffs[len(diffs) // 2] + diffs[(len(diffs) - 1) // 2]
    S.assume(m2 == 2)  # the sampling is daily
    o = table(S, n, cuts, t)
    lon = S.fxs("x", n, 0, 8, 2)
    for k in range(n):
        o.lon[k] = lon[k]
        o["speed_area"][k] = 1 + k
    ids = [S.concrete(o.track[k]) for k in range(n)]
    new = o.insert_virtual()
    exp = check_rows(S, new, n, cuts, t, ids)
    S.check(len(new) == len(exp), "one row per missing day")
    verify(S, new, exp, lon, "track")


def verify(S, new, exp, lon, idf):
    for q, (src, d, ident) in enumerate(exp):
        S.check(new.time[q] == d, "dates are regular inside a track")
        S.check(new[idf][q] == ident, "inserted rows belong to the track of their neighbours")
        if src is not None:
            S.check(S.And(S.close(new.lon[q], lon[src]), new["speed_area"][q] == 1 + src, new["virtual"][q] == 0), "observed rows are kept")
        else:
            a = max(p for p in range(q) if exp[p][0] is not None)
            b = min(p for p in range(q, len(exp)) if exp[p][0] is not None)
            S.check(new["virtual"][q] == 1, "inserted rows are flagged")
            S.check(S.close(new.lon[q] * (b - a), lon[exp[a][0]] * (b - q) + lon[exp[b][0]] * (q - a), 1e-3), "inserted rows are interpolated")


def insert_network(S, n, cuts, hi, trash):
    t = dates(S, n, cuts, hi)
    diffs = sorted(b - a for a, b in zip(t, t[1:]))
    S.assume(diffs[len(diffs) // 2] + diffs[(len(diffs) - 1) // 2] == 2)
    N = S.mod("observations.network")
    o = N.NetworkObservations(size=n, track_extra_variables=["virtual"])
    lon = S.fxs("x", n, 0, 8, 2)
    net = S.choice("network", [1, 2])
    seg, p, f = 1, [], []
    for k in range(n):
        seg += 1 if (k in cuts and k) else 0
        o.segment[k] = seg
        o.track[k] = net
        o.time[k] = t[k]
        o.lon[k] = lon[k]
        o["speed_area"][k] = 1 + k
        p.append(k - 1 if k not in cuts else -1)
        f.append(k + 1 if k + 1 < n and k + 1 not in cuts else -1)
    if len(cuts) == 2 and not trash:
        # the second segment may leave from or join an observation of the first one
        c = cuts[1]
        p[c] = S.choice("split", [-1] + list(range(c)))
        f[n - 1] = S.choice("merge", [-1] + list(range(c)))
    for k in range(n):
        o.previous_obs[k] = p[k]
        o.next_obs[k] = f[k]
    if trash:
        for k in range(cuts[1]):
            o.segment[k] = o.track[k] = 0
            o.previous_obs[k] = o.next_obs[k] = p[k] = f[k] = -1
    ids = [S.concrete(o.segment[k]) for k in range(n)]
    new = o.insert_virtual()
    exp = check_rows(S, new, n, cuts, t, ids)
    if trash:
        exp = [e for e in exp if e[0] is not None or e[2] != 0]
    S.check(len(new) == len(exp), "one row per missing day of a segment")
    verify(S, new, exp, lon, "segment")
    row = {src: q for q, (src, _, _) in enumerate(exp) if src is not None}
    row[-1] = -1
    for q, (src, _, ident) in enumerate(exp):
        S.check(new.track[q] == (net if ident or not trash else 0), "network of the inserted rows")
        if ident == 0:
            S.check(S.And(new.next_obs[q] == -1, new.previous_obs[q] == -1), "observations out of networks have no link")
            continue
        same_n = q + 1 < len(exp) and exp[q + 1][2] == ident
        same_p = q > 0 and exp[q - 1][2] == ident
        S.check(new.next_obs[q] == (q + 1 if same_n else row[f[src]]), "next observation")
        S.check(new.previous_obs[q] == (q - 1 if same_p else row[p[src]]), "previous observation")


def cases(tier):
    r = [("missing_4", missing, dict(n=4, cuts=[0, 2], untrack=False, half=True)), ("missing_untrack", missing, dict(n=4, cuts=[0, 2], untrack=True, half=False)),
         ("mixed_4", mixed, dict(n=4, untrack=True)), ("mixed_3", mixed, dict(n=3, untrack=False)),
         ("fill_5", fill, dict(n=5, cuts=[0])), ("fill_33", fill, dict(n=6, cuts=[0, 3])),
         ("insert_track_4", insert_track, dict(n=4, cuts=[0], hi=3)), ("insert_track_32", insert_track, dict(n=5, cuts=[0, 3], hi=3)),
         ("insert_network_4", insert_network, dict(n=4, cuts=[0], hi=3, trash=False)), ("insert_network_32", insert_network, dict(n=5, cuts=[0, 3], hi=2, trash=False)), ("insert_network_trash", insert_network, dict(n=5, cuts=[0, 2], hi=3, trash=True))]
    if tier != "quick":
        r += [("missing_6", missing, dict(n=6, cuts=[0, 3], untrack=False, half=True)), ("missing_untrack_6", missing, dict(n=6, cuts=[0, 2, 4], untrack=True, half=True)), ("fill_8", fill, dict(n=8, cuts=[0, 4])),
              ("insert_track_6", insert_track, dict(n=6, cuts=[0, 3], hi=3)), ("insert_network_6", insert_network, dict(n=6, cuts=[0, 3], hi=3, trash=False))]
    return r
