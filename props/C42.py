"""Computations by segment or by network."""
from . import C23, net as N

PROPERTY = "C42"


def BOUNDS(tier):
    return "up to %d observations in up to 3 segments of up to 2 networks, plus untracked ones, any values, steps of 1 to %d days, half windows of 1 to 4 days; percentages around events: windows of 1 to 3 days, every pair of targets and percentages" % ((5, 2) if tier == "quick" else (6, 3))


OUTSIDE = "more observations; display functions; functions given to map_segment which change their argument"
ASSUMPTIONS = ["rows are sorted by network, segment and date", "longitudes are continuous along a segment for the filters (normalize_longitude, C26)"]

SHAPES = [  # sizes, networks, number of each segment, untracked
    ("one", [2, 2], [1, 1], [1, 2], 0),
    ("same_number", [2, 2], [1, 2], [1, 1], 0),
    ("gap", [2, 1], [1, 4], [3, 3], 1),
    ("three", [1, 2, 1], [1, 1, 3], [0, 1, 1], 1),
    ("trash", [2], [2], [1], 2),
]


def table(S, sizes, nets, segs, trash, values=True):
    n = N.Net(S, sizes, nets, trash, links=False, segs=segs)
    if not trash:
        S.assume(len(n.rows[0]) > 1)
    y = S.ints("y", n.n, -30, 30) if values else [k for k in range(n.n)]
    return n, y


def by_segment(n):
    r = [n.rows[s] for s in range(len(n.rows))]
    return ([list(range(n.trash))] if n.trash else []) + r


def by_network(n):
    r = {}
    for k in range(n.n):
        r.setdefault(n.net[k], []).append(k)
    return r


def span(S, y, g):
    """not symmetric, depends on the order and on every value"""
    return S.sum([(2 * q + 1) * y[k] for q, k in enumerate(g)])


def method(v):
    r = 0
    for q in range(len(v)):
        r = r + (2 * q + 1) * v[q]
    return r


def segment_(S, sizes, nets, segs, trash):
    n, y = table(S, sizes, nets, segs, trash)
    a = S.arr(y, "i8")
    groups = by_segment(n)
    r = n.o.map_segment(method, a, dtype="i8")
    l = n.o.map_segment(method, a, same=False)
    m = n.o.mean_by_segment(S.arr(y, "f8"))
    S.check(len(r) == n.n and len(l) == len(groups), "one value by observation, or by segment")
    for q, g in enumerate(groups):
        e = span(S, y, g)
        S.check(l[q] == e, "segments in order, each with its own observations")
        for k in g:
            S.check(r[k] == e, "value of its segment")
            S.check(S.close(m[k] * len(g), S.sum([y[j] for j in g]), 1e-6), "mean of its segment")
    for k in range(n.n):
        S.check(a[k] == y[k], "values are not changed")


def network_(S, sizes, nets, segs, trash):
    n, y = table(S, sizes, nets, segs, trash)
    a = S.arr(y, "i8")
    groups = by_network(n)
    r = n.o.map_network(method, a, dtype="i8")
    l = n.o.map_network(method, a, same=False)
    d = n.o.map_network(method, a, same=False, return_dict=True)
    S.check(len(l) == len(groups), "one value by network")
    S.check(sorted(S.concrete(k) for k in d) == sorted(groups), "one value for each network, by its number")
    d = {S.concrete(k): v for k, v in d.items()}
    for q, k in enumerate(sorted(groups)):
        e = span(S, y, groups[k])
        S.check(S.And(l[q] == e, d[k] == e), "networks in order, each with its own observations")
        for j in groups[k]:
            S.check(r[j] == e, "value of its network")
    try:
        n.o.map_network(method, a, same=True, return_dict=True)
        S.check(False, "a dict or an array, not both")
    except NotImplementedError:
        pass


def smooth(S, sizes, nets, segs, trash, kind, inplace):
    n, y = table(S, sizes, nets, segs, trash)
    t = [S.concrete(v) for v in n.t]
    o = n.o
    for k in range(n.n):
        o.lon[k] = y[k]
    hw = S.choice("hw", [1, 2, 4])
    ids = [(n.net[k], n.seg[k]) for k in range(n.n)]
    exp = (C23.loess_of if kind == "loess" else C23.median_of)(S, ids, t, y, hw)
    r = (o.loess_filter if kind == "loess" else o.median_filter)(hw, "time", "lon", inplace=inplace)
    got = r.lon if inplace else r
    for k in range(n.n):
        S.check(S.close(got[k], exp[k], 1e-6), "weighted mean of the neighbours of the same segment" if kind == "loess" else "median of the neighbours of the same segment")
        S.check(S.And(o.lon[k] == got[k] if inplace else o.lon[k] == y[k], o.time[k] == t[k], o.track[k] == n.net[k], o.segment[k] == n.seg[k]), "nothing else changes")


def position(S, sizes, nets, segs, trash):
    n, y = table(S, sizes, nets, segs, trash)
    t = [S.concrete(v) for v in n.t]
    z = S.ints("z", n.n, -30, 30)
    for k in range(n.n):
        n.o.lon[k], n.o.lat[k] = y[k], z[k]
    a, b = S.choice("ab", [(1, 2), (2, 1), (2, 3)])
    ids = [(n.net[k], n.seg[k]) for k in range(n.n)]
    n.o.position_filter(a, b)
    for f, v in (("lon", y), ("lat", z)):
        exp = C23.loess_of(S, ids, t, C23.median_of(S, ids, t, v, a), b)
        for k in range(n.n):
            S.check(S.close(n.o[f][k], exp[k], 1e-6), "median then mean, for both coordinates, segment by segment")


def astype(S, sizes, nets, segs, trash):
    """other kind of table"""
    T = S.mod("observations.tracking")
    n, y = table(S, sizes, nets, segs, trash)
    for k in range(n.n):
        n.o.lon[k] = y[k]
    n.o.sign_type = S.choice("sign", [-1, 1])
    new = n.o.astype(T.TrackEddiesObservations)
    S.check(isinstance(new, T.TrackEddiesObservations) and len(new) == n.n, "the asked kind, same observations")
    S.check(new.sign_type == n.o.sign_type, "rotation is kept")
    for k in range(n.n):
        S.check(S.And(new.lon[k] == y[k], new.track[k] == n.net[k], new.time[k] == n.t[k], new["speed_area"][k] == k + 1), "fields of both kinds are kept")
    S.check("segment" not in new.fields, "fields of the asked kind only")


def rank(S, v, q):
    """linear percentile"""
    v = C23.ordered(S, v)
    p = (len(v) - 1) * q / 100.0
    i = int(p)
    f = p - i
    return v[i] if f == 0 else v[i] + (v[i + 1] - v[i]) * f


def percents(S, window, q, nb_min, event):
    """percentages given by particles around an event: segments A (3 obs), B (2 obs) and C (1 or 2 obs)"""
    W = S.mod("observations.network")
    n = 6
    seg = [1, 1, 1, 2, 2, 5]
    t = [10]
    for k in range(1, n):
        t.append(t[-1] + S.choice("d%d" % k, [1, 2]) if seg[k] == seg[k - 1] else 10 + S.choice("s%d" % k, [0, 3]))
    follow = [1, 2, S.choice("f", [-1, 3]), 4, -1, -1]
    forward = S.choice("forward", [True, False])
    if not forward:
        prev = [-1] * n
        for k, v in enumerate(follow):
            if v != -1:
                prev[v] = k
        follow = prev
    # at most one target of a segment at a given date: a row has two targets of different segments
    ind = [[S.choice("a%d" % k, [-1, 5]) if k < 3 else 0, 3 if k == 0 else -1] for k in range(n)]
    pct = [[S.int("p%d" % k, 1, 100), 7 + k] for k in range(n)]
    args = (S.arr(ind, "i4"), S.arr(pct, "i1"), S.arr(follow, "i4"), S.arr(t, "i4"), S.arr(seg, "u4"))

    def stat(i, target):
        v, k = [], i
        while k != -1 and abs(t[k] - t[i]) < window and seg[k] == seg[i]:
            for a, p in zip(ind[k], pct[k]):
                if a != -1 and seg[a] == seg[target]:
                    v.append(p)
            k = follow[k]
        return rank(S, v, q) if len(v) >= max(nb_min, 1) else None

    def same(got, e, label):
        S.check(S.isnan(got) if e is None else S.And(S.Not(S.isnan(got)), S.close(got, e, 1e-4)), label)

    start = 0 if forward else 2
    if event:
        parent = S.choice("parent", [True, False])
        i, i1, i2 = ([start, 3], [5, 0], [3, 5]) if parent else ([5, 3], [start, 5], [3, start])
        r1, r2 = W.get_percentile_around_event(S.arr(i, "i4"), S.arr(i1, "i4"), S.arr(i2, "i4"), *args, window=window, follow_parent=parent, q=q, nb_min=nb_min)
        for k in range(2):
            for r, o in ((r1, i1), (r2, i2)):
                same(r[k], stat(i[k], o[k]) if parent else stat(o[k], i[k]), "percentages of both origins")
    else:
        i, target = S.choice("it", [(start, 5), (start, 4), (3, 1), (4, 2), (5, 0)])
        same(W.get_percentile_on_following_obs(i, *args, target, window, q, nb_min), stat(i, target), "percentile of the percentages sent to the target along the segment")


def cases(tier):
    q = tier == "quick"
    r = []
    for name, sizes, nets, segs, trash in SHAPES + ([] if q else [("big", [3, 1, 2], [1, 2, 2], [2, 1, 2], 0), ("big_trash", [2, 3], [1, 5], [1, 1], 1)]):
        kw = dict(sizes=sizes, nets=nets, segs=segs, trash=trash)
        r.append(("segment_" + name, segment_, kw))
        r.append(("network_" + name, network_, kw))
        for kind in ("loess", "median"):
            if q and kind == "median" and sum(sizes) + trash > 4:
                continue
            r.append(("%s_%s" % (kind, name), smooth, dict(kw, kind=kind, inplace=len(r) % 4 < 2)))
    for name, sizes, nets, segs, trash in SHAPES[1:3]:
        kw = dict(sizes=sizes, nets=nets, segs=segs, trash=trash)
        r.append(("astype_" + name, astype, kw))
    r.append(("position", position, dict(sizes=[2, 1], nets=[1, 2], segs=[1, 1], trash=0)))
    for k, (w, p, m) in enumerate(((1, 50, 1), (2, 50, 1), (3, 20, 1), (3, 50, 2))):
        r.append(("percent_%d" % k, percents, dict(window=w, q=p, nb_min=m, event=False)))
    r.append(("around_3", percents, dict(window=3, q=50, nb_min=1, event=True)))
    if not q:
        r.append(("around_2", percents, dict(window=2, q=75, nb_min=1, event=True)))
    return r
