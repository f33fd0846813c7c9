"""Combination of filters."""
PROPERTY = "C19"


def BOUNDS(tier):
    return "tables of 1 to %d rows; every combination of two and three filters among slices (with a step or backward), masks, positions (in any order, repeated) and functions, and their use to count in bins" % (3 if tier == "quick" else 4)


OUTSIDE = "larger tables; more than three filters (they are combined two by two); negative positions"
ASSUMPTIONS = []
SLICES = [(None, None, None), (None, 2, None), (1, None, None), (1, 3, None), (None, None, 2), (-2, None, None), (None, None, -1), (2, 2, None)]


def one(S, q, kind, n, tier):
    """filter, selected(row), positions if it is a list of positions"""
    nm = "f%d" % q
    if kind == "slice":
        sl = slice(*S.choice(nm, SLICES))
        rows = list(range(n))[sl]
        return sl, [k in rows for k in range(n)], None
    if kind in ("mask", "call"):
        m = S.bools(nm, n)
        a = S.arr(m, "?")
        return (lambda o: a) if kind == "call" else a, m, None
    if kind == "none":
        return None, [True] * n, None
    nb = S.choice(nm + "nb", [0, 1, 2] + ([3] if tier != "quick" else []))
    i = [S.concrete(S.int("%s_%d" % (nm, p), 0, n - 1)) for p in range(nb)]
    return S.arr(i, "i8"), [k in i for k in range(n)], i


def merge(S, n, kinds, tier, form):
    O = S.mod("observations.observation")
    o = O.EddiesObservations(size=n)
    fs = [one(S, q, k, n, tier) for q, k in enumerate(kinds)]
    arg = [f for f, _, _ in fs]
    r = o.merge_filters(arg) if form == "list" else o.merge_filters(*arg)
    got = [S.concrete(v) for v in S.arr(list(range(n)), "i8")[r]]
    S.out("got", got)
    exp = [k for k in range(n) if S.concrete(S.If(S.And([s[k] for _, s, _ in fs]), 1, 0))]
    S.check(sorted(set(got)) == exp, "exactly the rows selected by every filter")
    pos = [i for _, _, i in fs if i is not None]
    if not pos:
        S.check(len(got) == len(exp), "each row once")
        if not any(k == "slice" for k in kinds):
            S.check(got == exp, "in the order of the table")
    elif len(pos) == 1:
        S.check(got == [k for k in pos[0] if k in exp], "positions kept in their order")


def stat(S, n, method):
    O = S.mod("observations.observation")
    o = O.EddiesObservations(size=n)
    x, y = S.ints("x", n, 0, 3), S.ints("y", n, -5, 5)
    m = S.bools("m", n)
    for k in range(n):
        o.amplitude[k], o.speed_area[k] = x[k], y[k]
    bins = S.arr([0, 1, 2.5, 3], "f8")
    S.assume(S.Or(m))
    xb, v = o.bins_stat("amplitude", bins=bins, yname="speed_area" if method else None, method=method, mask=S.arr(m, "?"))
    ins = [lambda u: S.And(u >= 0, u < 1), lambda u: S.And(u >= 1, u <= 2), lambda u: u == 3]
    for b, c in enumerate((0.5, 1.75, 2.75)):
        S.check(xb[b] == c, "middle of the bin")
        sel = [S.And(m[k], ins[b](x[k])) for k in range(n)]
        nb = S.concrete(S.count(sel))
        if method is None:
            S.check(v[b] == nb, "count of the selected rows")
        elif nb == 0:
            S.check(S.isnan(v[b]), "no mean")
        else:
            S.check(S.close(v[b] * nb, S.sum([S.If(sel[k], y[k], 0) for k in range(n)]), 1e-6), "mean of the selected rows")


def cases(tier):
    out = []
    top = 3 if tier == "quick" else 4
    K = ["slice", "mask", "index"]
    for n in range(1, top + 1):
        for form in ("args", "list"):
            for a in K + ["call", "none"]:
                out.append((merge, dict(n=n, kinds=[a], tier=tier, form=form)))
        for a in K:
            for b in K + (["call", "none"] if a != "index" else []):
                out.append((merge, dict(n=n, kinds=[a, b], tier=tier, form="args")))
    for a in K:
        for b in K:
            for c in K:
                out.append((merge, dict(n=2 if tier == "quick" else 3, kinds=[a, b, c], tier=tier, form="args")))
    for method in (None, "mean"):
        out.append((stat, dict(n=2 if tier == "quick" else 3, method=method)))
    return [("-".join([f.__name__] + [str(v).replace(" ", "") for v in k.values()]), f, k) for f, k in out]
