"""Contour simplification."""
PROPERTY = "C10"


def BOUNDS(tier):
    return "every contour of %s vertices with small integer coordinates reduced to 3 or 4 vertices; padded contours of 3 to 5 stored positions" % ("4" if tier == "quick" else "4 to 5")


OUTSIDE = "contours where two vertices have the same smallest triangle (any of them may go first); longer contours"


def area(p, q, r):
    return (p[0] - r[0]) * (q[1] - p[1]) - (p[0] - q[0]) * (r[1] - p[1])


def vis(S, n, size, lim, closed, base=None):
    P = S.mod("poly")
    if base:
        v = [(S.int("x%d" % i, -3, 9), S.int("y%d" % i, -3, 9)) if p is None else p for i, p in enumerate(base)]
        n = len(v)
    else:
        v = [(S.int("x%d" % i, -lim, lim), S.int("y%d" % i, -lim, lim)) for i in range(n)]
        v[0] = (0, 0)
    left = list(range(n))
    while len(left) > size - 1:
        ar = []
        m = len(left)
        for k in range(m):
            a = area(v[left[k - 1]], v[left[k]], v[left[(k + 1) % m]])
            ar.append(S.If(a >= 0, a, -a))
        S.assume(S.distinct(ar) if m > 3 else True)
        S.assume(S.And([a != 0 for a in ar]))
        for k in range(m):
            if all(ar[k] <= ar[q] for q in range(m) if q != k):
                left.pop(k)
                break
    vv = v + v[:1] if closed else v
    ox, oy = P.visvalingam(S.arr([p[0] * 1.0 for p in vv], "f8"), S.arr([p[1] * 1.0 for p in vv], "f8"), size)
    S.check(S.And(len(ox) == size, len(oy) == size), "requested size")
    S.check(S.And(S.eqf(ox[0], ox[size - 1]), S.eqf(oy[0], oy[size - 1])), "the result is closed")
    S.out("ox", ox)
    m = size - 1
    rot = [S.And([S.And(ox[k] == v[left[(k + r) % m]][0], oy[k] == v[left[(k + r) % m]][1]) for k in range(m)]) for r in range(m)]
    S.check(S.Or(rot) if closed else rot[0], "keeps, in order, the vertices left by removing the smallest triangle first")


def reduce(S, n):
    P = S.mod("poly")
    x = S.fxs("x", n, -2, 2, 2)
    y = S.fxs("y", n, -2, 2, 2)
    rx, ry = P.reduce_size(S.arr(x, "f8"), S.arr(y, "f8"))
    m = len(rx)
    S.check(len(ry) == m, "same number of longitudes and latitudes")
    S.check(m >= min(n, 3), "never less than three positions")
    for i in range(m):
        S.check(S.And(S.eqf(rx[i], x[i]), S.eqf(ry[i], y[i])), "positions are unchanged")
    for i in range(m, n):
        S.check(S.And(x[i] == x[0], y[i] == y[0]), "only repetitions of the first position are dropped")
    if m > 3:
        S.check(S.Or(x[m - 1] != x[0], y[m - 1] != y[0]), "every trailing repetition is dropped")


def cases(tier):
    r = [("vis_4_to_3", vis, dict(n=4, size=4, lim=3, closed=False)), ("vis_closed_4_to_3", vis, dict(n=4, size=4, lim=3, closed=True))]
    B = [(0, 0), (4, 1), None, (5, 5), (1, 6)]
    C = [(0, 0), (3, -2), (6, 1), None, (4, 7), (-1, 5)]
    for name, b in (("five", B), ("six", C)):
        for closed in (False, True):
            for size in (4, 5):
                r.append(("vis_%s_%d_%d" % (name, size, closed), vis, dict(n=0, size=size, lim=0, closed=closed, base=b)))
    r += [("reduce_%d" % n, reduce, dict(n=n)) for n in (3, 4, 5)]
    if tier != "quick":
        r.append(("vis_5_to_4", vis, dict(n=5, size=5, lim=3, closed=False)))
    return r
