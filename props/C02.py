"""Time-window lookup."""
PROPERTY = "C02"


def BOUNDS(tier):
    return "every unsorted series of up to %d values and sorted list of up to %d centres, values in [-4, 4] by halves, half-window in [0, 3] by halves" % ((4, 3) if tier == "quick" else (5, 4))


OUTSIDE = "longer series; unsorted window centres"
ASSUMPTIONS = ["window centres are sorted (documented by the callers)", "values are finite"]


def window(S, n, m):
    x = S.fxs("x", n, -4, 4, 2)
    c = S.fxs("c", m, -4, 4, 2)
    for a, b in zip(c, c[1:]):
        S.assume(a <= b)
    h = S.fx("h", 0, 3, 2)
    G = S.mod("generic")
    order, first, last = G.window_index(S.arr(x, "f8"), S.arr(c, "f8"), h)
    S.check(S.And(len(order) == n, len(first) == m, len(last) == m), "one interval per centre")
    order = [S.concrete(order[i]) for i in range(n)]
    S.check(sorted(order) == list(range(n)), "order is a permutation of the series")
    for k in range(m):
        S.check(S.And(first[k] >= 0, last[k] <= n, first[k] <= last[k]), "interval inside the series")
        for pos, i in enumerate(order):
            inside = S.And(x[i] > c[k] - h, x[i] <= c[k] + h)
            S.check(S.iff(inside, S.And(first[k] <= pos, pos < last[k])), "interval holds exactly the values of the window")


def cases(tier):
    r = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 2)]
    if tier != "quick":
        r += [(3, 3), (4, 3), (5, 2), (3, 4)]
    return [("window_%d_%d" % q, window, dict(n=q[0], m=q[1])) for q in r]
