"""Gradient stencil."""
from math import cos, pi, radians

PROPERTY = "C29"


def BOUNDS(tier):
    return "rows of %s nodes, every mask, any integer field in [-50, 50], along x (bounded and circular) and along y, every stencil width from 1 to 4" % ("5 to 8" if tier == "quick" else "5 to 10")


OUTSIDE = "longer rows (each value depends on at most 9 neighbours)"
COEF = {1: ({1: 1}, 2), 2: ({1: 8, 2: -1}, 12), 3: ({1: 45, 2: -9, 3: 1}, 60), 4: ({1: 672, 2: -168, 3: 32, 4: -3}, 840)}


def stencil(S, n, kind, hw):
    G = S.mod("dataset.grid")
    R = 6370997.0
    h = [S.int("h%d" % i, -50, 50) for i in range(n)]
    m = [S.bool("m%d" % i) for i in range(n)]
    lat = 30.0
    if kind == "y":
        step = 0.25
        x, y = [0.0], [10 + step * i for i in range(n)]
        g, mo = G.compute_stencil(S.arr(x, "f8"), S.arr(y, "f8"), S.arr([h], "f8"), S.arr([m], "?"), R, True, hw)
        g, mo = [g[0, i] for i in range(n)], [mo[0, i] for i in range(n)]
        scale = 180 / (pi * R) / step
    else:
        step = 360.0 / n if kind == "circ" else 0.25
        x, y = [-180 + step * i for i in range(n)], [lat]
        g, mo = G.compute_stencil(S.arr(x, "f8"), S.arr(y, "f8"), S.arr([[v] for v in h], "f8"), S.arr([[v] for v in m], "?"), R, False, hw)
        g, mo = [g[i, 0] for i in range(n)], [mo[i, 0] for i in range(n)]
        scale = 180 / (pi * R) / step / cos(radians(lat))

    def ok(i):
        if kind == "circ":
            return S.Not(m[i % n])
        return S.Not(m[i]) if 0 <= i < n else False

    S.out("m", mo)
    for i in range(n):
        both = S.Or(ok(i - 1), ok(i + 1))
        exp_masked = S.Not(S.And(ok(i), both))
        S.check(S.iff(mo[i], exp_masked), "masked exactly where the node or both its neighbours are missing")
        if mo[i]:
            continue
        l, r = bool(ok(i - 1)), bool(ok(i + 1))
        if not (l and r):
            e = (h[(i + 1) % n] - h[i]) if r else (h[i] - h[(i - 1) % n])
        else:
            w = 1
            while w < hw and bool(S.And(ok(i - w - 1), ok(i + w + 1))):
                w += 1
            c, d = COEF[w]
            e = 0
            for k, v in c.items():
                e = e + v * (h[(i + k) % n] - h[(i - k) % n])
            e = e / d
        S.check(S.close(g[i] / scale, e, 1e-6), "gradient from the widest fully valid stencil only")


def cases(tier):
    r = []
    for kind in ("reg", "circ", "y"):
        for n, hw in ((5, 1), (5, 2), (7, 3), (8, 4)) if tier == "quick" else ((5, 1), (7, 2), (9, 3), (10, 4), (6, 4)):
            r.append(("%s_%d_w%d" % (kind, n, hw), stencil, dict(n=n, kind=kind, hw=hw)))
    return r
