"""Grouping index."""
PROPERTY = "C01"


def BOUNDS(tier):
    return "every sorted list of up to %d group numbers in [-2, 5]" % (5 if tier == "quick" else 7)


OUTSIDE = "longer lists"

def groups(S, n, span):
    g = S.ints("g", n, -2, 5)
    for a, b in zip(g, g[1:]):
        S.assume(b >= a)
        S.assume(b - a <= span)
    G = S.mod("generic")
    arr = S.arr(g, "i8")
    first, last, ref = G.build_index(arr)
    S.out("first", first); S.out("last", last); S.out("ref", ref)
    S.check(ref == g[0], "ref is smallest")
    nb = len(first)
    S.check(g[-1] - g[0] + 1 == nb, "one slot per value")
    for k in range(nb):
        v = ref + k
        i0, i1 = first[k], last[k]
        for i in range(n):
            S.check(S.iff(g[i] == v, S.And(i0 <= i, i < i1)), "slice holds exactly the members")
        S.check(S.And(i0 <= i1, 0 <= i0, i1 <= n), "slice bounds")


def reverse(S, n, k):
    G = S.mod("generic")
    i = S.ints("i", k, 0, n - 1)
    r = G.reverse_index(S.arr(i, "i8"), n)
    got = [S.concrete(r[q]) for q in range(len(r))]
    S.check(got == sorted(set(got)), "each index once, in order")
    for q in range(n):
        S.check(S.iff(q in got, S.And([q != v for v in i])), "exactly the indices that are not in the list")


class Table:
    """only what iter_on needs of the observations"""

    def parse_varname(self, name):
        return name


def iterate(S, n, bins, kind, mode):
    O = S.mod("observations.observation")
    if kind != "fx":
        x = S.ints("x", n, 0 if kind[0] == "u" else -1, 5)
        xs = S.arr(x, kind)
    else:
        x = S.fxs("x", n, -1, 5, 2)
        xs = S.arr(x, "f8")
    srt = S.And([a <= b for a, b in zip(x, x[1:])])
    S.assume(srt if mode == "sorted" else S.Not(srt))
    if bins is None:
        it = O.EddiesObservations.iter_on(Table(), xs)
    else:
        it = O.EddiesObservations.iter_on(Table(), xs, bins=S.arr(bins, "f8"))
    seen, last = {}, None
    for sl, b0, b1 in it:
        ix = list(range(n))[sl] if isinstance(sl, slice) else [S.concrete(sl[q]) for q in range(len(sl))]
        S.check(len(ix) > 0, "no empty group")
        S.check(b0 < b1, "lower bound first")
        S.check(True if last is None else b0 >= last, "groups in increasing order")
        last = b1
        for q in ix:
            S.check(q not in seen, "no observation in two groups")
            seen[q] = (b0, b1)
            S.check(S.And(x[q] >= b0, x[q] < b1), "observations belong to the bounds of their group")
    for q in range(n):
        if q not in seen:
            S.check(False if bins is None else S.Or(x[q] < bins[0], x[q] >= bins[-1]), "only values out of the bins are left out")


def align(S, n, m, allref):
    O = S.mod("observations.observation")
    x = S.ints("x", n, 0, 4)
    y = S.ints("y", m, 0, 4)
    for v in (x, y):
        S.assume(S.And([a <= b for a, b in zip(v, v[1:])]))
    T = type("T", (), dict(parse_varname=lambda s, v: v, iter_on=O.EddiesObservations.iter_on))
    got = {}
    for i, j, b0, b1 in O.EddiesObservations.align_on(T(), T(), (S.arr(x, "i4"), S.arr(y, "i4")), all_ref=allref):
        b0 = S.concrete(b0)
        S.check(b0 not in got, "one group per value")
        ix = list(range(n))[i] if isinstance(i, slice) else [S.concrete(q) for q in i]
        jx = list(range(m))[j] if isinstance(j, slice) else [S.concrete(q) for q in j]
        got[b0] = (ix, jx)
    for v in range(5):
        ix, jx = got.get(v, ([], []))
        both = S.And(S.Or([q == v for q in x]), S.Or([q == v for q in y]))
        e = S.Or([q == v for q in x]) if allref else both
        S.check(S.iff(v in got, e), "exactly the values of both tables")
        if v in got:
            for q in range(n):
                S.check(S.iff(q in ix, x[q] == v), "observations of the first table")
            for q in range(m):
                S.check(S.iff(q in jx, y[q] == v), "observations of the second table")


def cases(tier):
    q = tier == "quick"
    ns = (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 7)
    r = [("build_index_n%d" % n, groups, dict(n=n, span=4)) for n in ns]
    r += [("reverse_%d" % n, reverse, dict(n=n, k=2)) for n in (3, 4)]
    n = 3 if q else 4
    for mode in ("sorted", "unsorted"):
        r.append(("iter_%s" % mode, iterate, dict(n=n + 1, bins=None, kind="i4", mode=mode)))
        r.append(("iter_unsigned_%s" % mode, iterate, dict(n=n, bins=None, kind="u2", mode=mode)))
        r.append(("iter_bins_%s" % mode, iterate, dict(n=n, bins=(0.0, 1.5, 3.0), kind="fx", mode=mode)))
        r.append(("iter_irregular_%s" % mode, iterate, dict(n=n, bins=(0.0, 0.5, 3.0, 4.0), kind="fx", mode=mode)))
    for a in (True, False):
        r.append(("align_%d" % a, align, dict(n=2 if q else 3, m=2, allref=a)))
    return r
