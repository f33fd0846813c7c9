"""Association of observations between two dates."""
PROPERTY = "C13"


def BOUNDS(tier):
    return "every set of allowed links and every cost (integers in [1, 12], no ties between links competing for the same observation) between up to %s observations; ratio filter on 2x2 observations" % ("3 and 3" if tier == "quick" else "4 and 3")


OUTSIDE = "more observations; ties between competing links (any of them may win); the distance and overlap themselves (C11)"
ASSUMPTIONS = ["distances, costs or overlaps are given by the solver instead of being computed from positions"]


def setup(S, n, m):
    allow = [[S.bool("l%d%d" % (i, j)) for j in range(m)] for i in range(n)]
    cost = [[S.int("c%d%d" % (i, j), 1, 12) for j in range(m)] for i in range(n)]
    cells = [(i, j) for i in range(n) for j in range(m)]
    for a in cells:
        for b in cells:
            if a < b and (a[0] == b[0] or a[1] == b[1]):
                S.assume(S.Or(S.Not(allow[a[0]][a[1]]), S.Not(allow[b[0]][b[1]]), cost[a[0]][a[1]] != cost[b[0]][b[1]]))
    return allow, cost


def stable(S, n, m, allow, cost, got):
    S.check(len({i for i, _ in got}) == len(got) and len({j for _, j in got}) == len(got), "each observation is linked at most once")
    for i in range(n):
        for j in range(m):
            if (i, j) in got:
                S.check(allow[i][j], "only allowed links")
                continue
            better = [cost[a][b] < cost[i][j] for a, b in got if a == i or b == j]
            S.check(S.Or([S.Not(allow[i][j])] + better), "a refused link loses against a cheaper link of one of its observations")


def pairs(S, mask, n, m):
    return [(i, j) for i in range(n) for j in range(m) if mask[i, j]]


def simultaneous(S, n, m):
    O = S.mod("observations.observation")
    allow, cost = setup(S, n, m)
    c = S.masked(S.arr([[v * 1.0 for v in r] for r in cost], "f4"), S.arr([[S.Not(v) for v in r] for r in allow], "?"))
    got = pairs(S, O.EddiesObservations.solve_simultaneous(c), n, m)
    stable(S, n, m, allow, cost, got)


def first(S, n, m, multiple):
    O = S.mod("observations.observation")
    allow, cost = setup(S, n, m)
    c = S.masked(S.arr([[v * 1.0 for v in r] for r in cost], "f4"), S.arr([[S.Not(v) for v in r] for r in allow], "?"))
    got = pairs(S, O.EddiesObservations.solve_first(c, multiple_link=multiple), n, m)
    S.check(len({i for i, _ in got}) == len(got), "each first observation is linked at most once")
    if not multiple:
        S.check(len({j for _, j in got}) == len(got), "each second observation is linked at most once")
    for i in range(n):
        mine = [j for a, j in got if a == i]
        for j in mine:
            S.check(allow[i][j], "only allowed links")
        for j in range(m):
            if j in mine:
                continue
            taken = (not multiple) and any(a < i and b == j for a, b in got)
            if taken:
                continue
            S.check(S.Or([S.Not(allow[i][j])] + [cost[i][q] < cost[i][j] for q in mine] + ([False] if multiple else [any(a != i and b == j for a, b in got)])),
                    "the cheapest free link is kept")


def tracker(S, kind, n, m):
    """the whole association, with the score of each pair chosen by the solver"""
    allow, cost = setup(S, n, m)
    if kind == "area":
        A = S.mod("featured_tracking.area_tracker")
        cmin = 4

        class T(A.AreaTracker):
            def match(self, other, **k):
                i, j, c = [], [], []
                for a in range(n):
                    for b in range(m):
                        if allow[a][b]:
                            i.append(a), j.append(b), c.append((16 - cost[a][b]) / 16)
                return S.arr(i, "i4"), S.arr(j, "i4"), S.arr(c, "f8")

        t, o = T(size=n, cmin=cmin / 16), T(size=m, cmin=cmin / 16)
        allow = [[S.And(allow[i][j], 16 - cost[i][j] > cmin) for j in range(m)] for i in range(n)]
        val = lambda i, j: cost[i][j] / 16
    else:
        O = S.mod("observations.observation")
        rej = [[S.bool("far%d%d" % (i, j)) for j in range(m)] for i in range(n)]

        class T(O.EddiesObservations):
            def distance(self, other):
                return S.arr([[S.If(allow[i][j], cost[i][j] * 10.0, S.If(rej[i][j], 125.0, 300.0)) for j in range(m)] for i in range(n)], "f8")

            @staticmethod
            def cost_function(a, b, d):
                return d / 16

        t, o = T(size=n), T(size=m)
        val = lambda i, j: cost[i][j] * 10.0 / 16
    i_s, i_o, c = t.tracking(o)
    S.check(S.And(len(i_s) == len(i_o), len(c) == len(i_s)), "one cost per link")
    got = [(S.concrete(i_s[k]), S.concrete(i_o[k])) for k in range(len(i_s))]
    S.out("got", got)
    stable(S, n, m, allow, cost, got)
    for k, (i, j) in enumerate(got):
        S.check(S.close(c[k], val(i, j), 1e-5), "cost of the link")


def chelton(S):
    if S.symbolic:
        # the mask file is read when the module is loaded
        S.mod("dataset.grid").RegularGridDataset = lambda *a, **k: None
    C = S.mod("featured_tracking.old_tracker_reference")
    n = 3
    t = C.CheltonTracker(size=n)
    amp = S.ints("a", n, 1, 5)
    S.assume(S.distinct(amp))
    t.amplitude[:] = S.arr([v * 1.0 for v in amp], "f4")
    o = [S.concrete(S.int("o%d" % k, 0, 2)) for k in range(n)]
    i_s, i_o = t.post_process_link(None, S.arr(list(range(n)), "i8"), S.arr(o, "i8"))
    got = [(S.concrete(i_s[k]), S.concrete(i_o[k])) for k in range(len(i_s))]
    S.check(len({i for i, _ in got}) == len(got) and len({j for _, j in got}) == len(got), "each observation is linked at most once")
    S.check(len(got) == len(set(o)), "every second observation keeps one link")
    for i, j in got:
        S.check(o[i] == j, "only proposed links")
        S.check(S.And([amp[i] >= amp[q] for q in range(n) if o[q] == j]), "the largest amplitude wins")


def ratio(S):
    if S.symbolic:
        S.mod("dataset.grid").RegularGridDataset = lambda *a, **k: None
    C = S.mod("featured_tracking.old_tracker_reference")
    den = 1
    v = {k: S.ints(k, 2, 1, 6) for k in ("a", "b", "r", "q")}
    m = [[S.bool("m%d%d" % (i, j)) for j in range(2)] for i in range(2)]
    mask = S.arr(m, "?")
    f = lambda k: S.arr([x * 1.0 for x in v[k]], "f8")
    C.check_ratio(mask, f("a"), f("b"), f("r"), f("q"))
    for i in range(2):
        for j in range(2):
            ok = lambda x, y: S.And(2 * y < 5 * x, 5 * y > 2 * x)
            a, b, r, q = v["a"][i], v["b"][j], v["r"][i], v["q"][j]
            S.assume(S.And(2 * b != 5 * a, 5 * b != 2 * a, 2 * q != 5 * r, 5 * q != 2 * r))
            S.check(S.iff(mask[i, j], S.And(m[i][j], ok(a, b), ok(r, q))), "links with a ratio over 2.5 are refused")


def cases(tier):
    q = tier == "quick"
    r = [("simultaneous_%d%d" % s, simultaneous, dict(n=s[0], m=s[1])) for s in ([(1, 3), (2, 2), (3, 2), (2, 3)] if q else [(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4)])]
    for mu in (False, True):
        r += [("first_%d_%d%d" % (mu, *s), first, dict(n=s[0], m=s[1], multiple=mu)) for s in ([(2, 2), (2, 3)] if q else [(2, 2), (2, 3), (3, 2)])]
    r += [("area_%d%d" % s, tracker, dict(kind="area", n=s[0], m=s[1])) for s in ([(2, 2)] if q else [(2, 2), (3, 2), (2, 3)])]
    r += [("distance_%d%d" % s, tracker, dict(kind="distance", n=s[0], m=s[1])) for s in ([(2, 2)] if q else [(2, 2), (3, 2), (2, 3)])]
    r += [("chelton", chelton, {}), ("ratio", ratio, {})]
    return r
