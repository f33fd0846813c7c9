"""Plotting line tools."""
PROPERTY = "C12"


def BOUNDS(tier):
    return "lines of up to %d points on a half unit grid with gaps anywhere; matrices of up to 3 lines of 3 points" % (4 if tier == "quick" else 5)


OUTSIDE = "longer lines; coordinates off the half unit grid"


def flatten(S, nl, ns):
    v = [[S.fx("v%d_%d" % (i, j), -9, 9, 2) for j in range(ns)] for i in range(nl)]
    G = S.mod("generic")
    o = G.flatten_line_matrix(S.arr(v, "f8"))
    S.check(len(o) == nl * ns + nl - 1, "every point plus one gap between lines")
    k = 0
    for i in range(nl):
        for j in range(ns):
            S.check(S.eqf(o[k], v[i][j]), "points keep their order")
            k += 1
        if i < nl - 1:
            S.check(S.isnan(o[k]), "a gap between lines")
            k += 1


def split(S, n):
    x = S.fxs("x", n, -9, 9, 2)
    y = S.fxs("y", n, -9, 9, 2)
    g = S.ints("g", n, 0, 2)
    G = S.mod("generic")
    ox, oy = G.split_line(S.arr(x, "f8"), S.arr(y, "f8"), S.arr(g, "i8"))
    exp = []
    for i in range(n):
        exp.append((x[i], y[i]))
        if i < n - 1 and g[i] != g[i + 1]:
            exp.append(None)
    S.check(S.And(len(ox) == len(exp), len(oy) == len(exp)), "one gap per change of group")
    for k, e in enumerate(exp):
        if e is None:
            S.check(S.And(S.isnan(ox[k]), S.isnan(oy[k])), "gap at the change of group")
        else:
            S.check(S.And(S.eqf(ox[k], e[0]), S.eqf(oy[k], e[1])), "points keep their order")


def simplify(S, n, gap):
    p = S.fx("p", 0, 3, 2)
    xs = S.fxs("x", n, -2, 2, 2)
    ys = S.fxs("y", n, -2, 2, 2)
    hole = S.bools("hole", n) if gap else [False] * n
    hole = [bool(h) for h in hole]
    nan = float("nan")
    xv = [nan if h else v for h, v in zip(hole, xs)]
    yv = [nan if h else v for h, v in zip(hole, ys)]
    G = S.mod("generic")
    ox, oy = G.simplify(S.arr(xv, "f8"), S.arr(yv, "f8"), p)
    S.check(len(ox) == len(oy), "same number of longitudes and latitudes")
    # expected: a point is dropped when it is within the precision of the last kept point
    last = None
    kept = []
    for i in range(n):
        if hole[i]:
            continue
        if last is None:
            kept.append(i)
            last = i
            continue
        dx, dy = xs[i] - xs[last], ys[i] - ys[last]
        if dx * dx + dy * dy > p * p:
            kept.append(i)
            last = i
    res = [k for k in range(len(ox)) if not S.isnan(ox[k])]
    S.check(len(res) == len(kept), "keeps exactly the points farther than the precision from the last kept one")
    for k, i in zip(res, kept):
        S.check(S.And(S.eqf(ox[k], xs[i]), S.eqf(oy[k], ys[i])), "kept points are unchanged")
    # a gap between two kept points survives
    for a in range(len(kept) - 1):
        g = any(hole[kept[a]:kept[a + 1]])
        S.check((res[a + 1] - res[a] > 1) == g, "gaps between kept points are kept, none is added")


def cases(tier):
    r = [("flatten_%d_%d" % q, flatten, dict(nl=q[0], ns=q[1])) for q in ((1, 1), (1, 3), (2, 2), (3, 1), (3, 3))]
    ns = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)
    r += [("split_%d" % n, split, dict(n=n)) for n in ns]
    r += [("simplify_%d" % n, simplify, dict(n=n, gap=False)) for n in ns if n < 5]
    r += [("simplify_gap_%d" % n, simplify, dict(n=n, gap=True)) for n in ns if n < 5]
    return r
