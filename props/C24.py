"""Splitting a group of observations in segments linked by events."""
PROPERTY = "C24"


def BOUNDS(tier):
    return "groups of up to %d observations over up to 4 dates, every overlap cost between two observations (zero included), windows of 1 to 3 days" % (6 if tier == "quick" else 8)


OUTSIDE = "larger groups; the overlap itself (given here by an arbitrary table, see C12 and C13)"
ASSUMPTIONS = ["rows of a group are in date order (as the grouping stores them)", "the median step between dates is the sampling"]


def split(S, window, counts=(), groups=None, gap=None, ties=False, days=None):
    """counts: observations by date"""
    T = S.mod("observations.tracking")
    NW = S.mod("observations.network")
    days = days or [d for d, c in enumerate(counts) for _ in range(c)]
    if gap is not None:
        days = [d + (1 if d >= gap else 0) for d in days]
    n = len(days)
    groups = groups or [1] * n
    o = T.TrackEddiesObservations(size=n, track_array_variables=1, array_variables=["contour_lon_s", "contour_lat_s", "contour_lon_e", "contour_lat_e"])
    cost = {}
    for a in range(n):
        for b in range(a + 1, n):
            if groups[a] == groups[b] and days[a] < days[b] <= days[a] + window:
                cost[a, b] = S.fx("c%d_%d" % (a, b), 0, 1, 8) if not ties else S.fx("c%d_%d" % (a, b), 0, 1, 1)
    if not ties:
        # costs are different from each other (or 0)
        l = list(cost.values())
        S.assume(S.And([S.Or(l[i] == 0, l[i] != l[j]) for i in range(len(l)) for j in range(i)]))
    cost = {k: v for k, v in cost.items()}
    # storage order of the file: by group then date
    for k in range(n):
        o.track[k] = groups[k]
        o.time[k] = 1000 + 1.0 * days[k]
        o["speed_area"][k] = 1 + k
        for c in ("contour_lon_s", "contour_lat_s", "contour_lon_e", "contour_lat_e"):
            o[c][k, 0] = 1.0 * k

    def pairs(x0, y0, x1, y1):
        return S.arr([i for i in range(len(x0)) for _ in range(len(x1))], "i4"), S.arr([j for _ in range(len(x0)) for j in range(len(x1))], "i4")

    def overlap(x0, y0, x1, y1, min_overlap=0, **kw):
        r = []
        for i in range(len(x0)):
            a, b = S.concrete(x0[i, 0]), S.concrete(x1[i, 0])
            r.append(cost[min(a, b), max(a, b)])
        return S.arr(r, "f8")

    T.bbox_intersection, T.vertice_overlap = pairs, overlap
    ids = o.split_network(intern=False, window=window)
    seg = [S.concrete(ids["track"][k]) for k in range(n)]
    nxt = [S.concrete(ids["next_obs"][k]) for k in range(n)]
    prv = [S.concrete(ids["previous_obs"][k]) for k in range(n)]
    S.out("seg", [seg, nxt, prv])
    for k in range(n):
        S.check(S.And(ids["group"][k] == groups[k], ids["time"][k] == 1000 + days[k]), "group and date")
        if groups[k] == 0:
            S.check(seg[k] == 0 and nxt[k] == -1 and prv[k] == -1, "untracked observations are left out")
            continue
        S.check(seg[k] > 0, "every observation of a group is in a segment")
        # continuation: best overlap at the first date where one is found
        for d in range(days[k] + 1, days[k] + window + 1):
            c = [q for q in range(n) if (k, q) in cost and days[q] == d]
            found = S.Or([cost[k, q] > 0 for q in c])
            if nxt[k] in c:
                S.check(S.And(cost[k, nxt[k]] > 0, S.And([cost[k, q] <= cost[k, nxt[k]] for q in c])), "the best overlap is followed")
                S.check(ids["next_cost"][k] == cost[k, nxt[k]], "cost of the continuation")
                break
            S.check(S.Not(found), "no date with an overlap is skipped")
        else:
            S.check(nxt[k] == -1, "no continuation out of the window")
        # origin
        cand = [q for q in range(n) if nxt[q] == k]
        if cand:
            S.check(prv[k] in cand, "an observation which is followed to comes from one of them")
            S.check(S.And([cost[q, k] <= cost[prv[k], k] for q in cand]), "the best of the observations which lead here is continued")
            S.check(seg[prv[k]] == seg[k], "the best one is in the same segment")
            for q in cand:
                if q != prv[k]:
                    S.check(ties or seg[q] != seg[k], "the others merge from another segment")
        else:
            for d in range(days[k] - 1, days[k] - window - 1, -1):
                c = [q for q in range(n) if (q, k) in cost and days[q] == d]
                if prv[k] in c:
                    S.check(S.And(cost[prv[k], k] > 0, S.And([cost[q, k] <= cost[prv[k], k] for q in c])), "a split comes from the best overlap")
                    S.check(seg[prv[k]] != seg[k], "a split starts a segment")
                    break
                S.check(S.Not(S.Or([cost[q, k] > 0 for q in c])), "no date with an overlap is skipped (backward)")
            else:
                S.check(prv[k] == -1, "no origin out of the window")
    for a in range(n):
        for b in range(a):
            if seg[a] == seg[b] and groups[a] == groups[b] != 0:
                S.check(days[a] != days[b], "a segment has one observation by date")
    for s in {(g, v) for g, v in zip(groups, seg) if g}:
        r = [k for k in range(n) if (groups[k], seg[k]) == s]
        for a, b in zip(r, r[1:]):
            S.check(nxt[a] == b and prv[b] == a, "a segment is a chain")
    # table of the network
    new = NW.NetworkObservations.from_split_network(o, ids)
    got = [S.concrete(new["speed_area"][q]) - 1 for q in range(n)]
    S.check(got == sorted(range(n), key=lambda k: (groups[k], seg[k], days[k], k)), "rows by network, segment and date")
    pos = {k: q for q, k in enumerate(got)}
    pos[-1] = -1
    for q, k in enumerate(got):
        S.check(S.And(new.track[q] == groups[k], new.segment[q] == seg[k], new.time[q] == 1000 + days[k], new.next_obs[q] == pos[nxt[k]], new.previous_obs[q] == pos[prv[k]]), "network table")
        S.check(S.And(new.next_cost[q] == ids["next_cost"][k], new.previous_cost[q] == ids["previous_cost"][k]), "costs")


def cases(tier):
    r = [("split_222_w1", split, dict(counts=[2, 2, 2], window=1)), ("split_1111_w3", split, dict(counts=[1, 1, 1, 1], window=3)), ("split_212_w2", split, dict(counts=[2, 1, 2], window=2)),
         ("split_31_w1", split, dict(counts=[3, 1], window=1)), ("split_131_w1", split, dict(counts=[1, 3, 1], window=1)), ("split_gap", split, dict(counts=[1, 1, 2, 1], window=2, gap=2)),
         ("split_1122", split, dict(counts=[1, 1, 2, 2], window=1)), ("two_groups", split, dict(days=[0, 0, 1, 1, 0, 1, 1], window=2, groups=[0, 1, 1, 1, 3, 3, 3])), ("ties_221", split, dict(counts=[2, 2, 1], window=1, ties=True)),
         ("groups", split, dict(counts=[1, 1, 1], window=2, groups=[0, 1, 1]))]
    if tier != "quick":
        r += [("split_2222", split, dict(counts=[2, 2, 2, 2], window=1)), ("split_2212_w2", split, dict(counts=[2, 2, 1, 1], window=2)), ("split_232", split, dict(counts=[2, 3, 2], window=1)), ("ties_222", split, dict(counts=[2, 2, 2], window=1, ties=True)), ("ties_212_w2", split, dict(counts=[2, 1, 2], window=2, ties=True))]
    return r
