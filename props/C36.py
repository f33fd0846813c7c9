"""Identification of eddies in a grid of heights."""
import datetime
import types

from props import nc, za
from props.C31 import comps
from props.C32 import Ax


class Path:
    """matplotlib.path.Path (when code is executed symbolically)"""

    def __init__(self, vertices):
        self.vertices = vertices


PROPERTY = "C36"
MODELS = dict({"netCDF4": nc.module(), "zarr": za.zarr_module(), "matplotlib.path": types.SimpleNamespace(Path=Path)}, **za.pint_modules())


def BOUNDS(tier):
    return "a grid of 10x8 pixels (regional or global across its edge, in several conventions) with nested isolines of 5 levels around two extrema of each sign; the height of any of 4 parts or pixels, a mask, the shape error of each isoline, its mean speed and the limits (pixels, shape, intervals, extrema, units) are free"


OUTSIDE = "the shape of isolines given by matplotlib (rectangles are given) and the fit of circles (any shape error and the middle of the isoline are given instead); the replacement of extreme heights by percentiles"
ASSUMPTIONS = ["isolines are nested and separate the heights of their level; the highest pixels of an isoline are in one group"]
NY = 8
# isolines: level, box (in pixels)
LINES = {
    "R": (1, (0.6, 8.4, 0.6, 6.4)),
    "A": (2, (0.7, 4.3, 0.7, 5.3)),
    "B": (2, (4.6, 8.3, 0.75, 5.2)),
    "A2": (3, (0.8, 3.4, 1.6, 4.4)),
    "B2": (3, (5.6, 7.4, 1.6, 3.4)),
    "A3": (4, (1.55, 3.2, 1.7, 3.3)),
}
INNER = {"R": ["A", "B"], "A": ["A2"], "B": ["B2"], "A2": ["A3"], "B2": [], "A3": []}


def pixels(k):
    x0, x1, y0, y1 = LINES[k][1]
    return [(i, j) for i in range(10) for j in range(NY) if x0 < i < x1 and y0 < j < y1]


def mid(k):
    x0, x1, y0, y1 = LINES[k][1]
    return (x0 + x1) / 2, (y0 + y1) / 2


def identify(S, sign, free, x0, xs, pixel_limit=None, shape_error=None, mle=1, nmin=2, nsec=2, unit="m", bound=55, hide="B"):
    """free: names of what is symbolic"""
    G, F = S.mod("dataset.grid"), S.mod("eddy_feature")
    step = 0.25
    NX = 20 if xs == 18 else 10
    ys, y0 = 1.0, 20.0
    # heights, in half steps above level 0 of the sign looked for
    part = {"out": 1, "R": 3, "A": 5, "B": 5, "A2": 7, "B2": 7, "A3": 9}
    for k, lo, hi in (("B2", 4, 10), ("A3", 6, 10)):
        if k in free:
            part[k] = S.int("h" + k, lo, hi)
    if "hole" in free:
        part["B"], part["B2"] = 7, S.int("hole", 2, 5)
    h = {}
    for i in range(NX):
        for j in range(NY):
            h[i, j] = part["out"]
            for k in ("R", "A", "B", "A2", "B2", "A3"):
                if (i, j) in pixels(k):
                    h[i, j] = part[k]
    if "peak" in free:
        h[2, 2] = S.int("peak", 7, 14)
    if "spoil" in free:
        h[1, 1] = S.int("spoil", 0, 5)
    if "ring" in free:
        h[3, 6] = S.int("ring", 0, 4)
    # bounds of heights
    h[0, 0], h[9, 7] = -1, 14
    # the lowest and the highest heights which are used do not depend on what is free
    h[9, 0] = -1
    m = {p: False for p in h}
    m[9, 7] = m[0, 7] = True
    if "mask" in free:
        m[{"A": (4, 1), "B": (7, 3), "R": (5, 6)}[hide]] = S.bool("mask")
    err, speed = {}, {}
    for k in LINES:
        err[k] = S.int("err" + k, -2, 100) if "err" + k in free else 10
        speed[k] = S.int("speed" + k, 0, 3) if "speed" in free else {"A": 1, "A2": 2, "A3": 1, "R": 1, "B": 2, "B2": 1}[k]
    limit = S.choice("shape_error", [55, 30]) if "shape" in free else bound
    lim = S.choice("pixel_limit", [(4, 1000), (5, 20), (7, 9), (17, 60)]) if "pixels" in free else (4, 1000)
    global_ = xs * NX == 360
    sgn = lambda v: v * (step / 2) * sign
    d = [[sgn(h[i, j]) for j in range(NY)] for i in range(NX)]
    # a global grid is cut inside of the contours
    roll = 3 if global_ else 0  # first column of the grid
    data = S.masked(S.arr([d[(i + roll) % NX] for i in range(NX)], "f8"), S.arr([[m[(i + roll) % NX, j] for j in range(NY)] for i in range(NX)], "?"))
    zero = S.masked(S.arr([[1.0] * NY] * NX, "f8"), S.arr([[False] * NY] * NX, "?"))
    X0 = x0 + (roll * xs if global_ else 0)
    cls = type("Grid", (G.RegularGridDataset,), dict(init_speed_coef=lambda self, *a: None, speed_coef_mean=lambda self, c: speed[c.key] / 8))
    factor = dict(m=1, cm=0.01)[unit]
    g = cls.with_array(("lon", "lat"), dict(lon=S.arr([X0 + i * xs for i in range(NX)], "f8"), lat=S.arr([y0 + j * ys for j in range(NY)], "f8"), h=data, u=zero, v=zero), dict(h=dict(units=unit), u=dict(units="m/s"), v=dict(units="m/s")), centered=True)
    S.check(bool(g.is_circular()) == global_, "global grid")
    lines = [[] for _ in range(5)]
    # level 0 to 4 of the sign looked for; a line of the other sign when both
    allp = {}
    there = [k for k in LINES if k not in ("B2", "A3") or S.concrete(part[k] > 2 * LINES[k][0]) or (k, "hole" in free) == ("B2", True)]
    inner = {k: [q for q in INNER[k] if q in there] for k in LINES}
    for k, (l, (a, b, c, e)) in LINES.items():
        if k not in there:
            continue
        p = [(a, c), (b, c), (b, e), (a, e), (a, c)]
        q = G.BasePath(S.arr([[x0 + u * xs, y0 + v * ys] for u, v in p], "f8"))
        q.key = k
        lines[l].append(q)
        allp[k] = q
    values = [sign * l * step for l in range(5)]
    if sign < 0:
        lines, values = lines[::-1], values[::-1]
    ax = Ax(values, lines)
    centers = {k: (x0 + mid(k)[0] * xs, y0 + mid(k)[1] * ys) for k in LINES}

    def fit(v):
        n = v.shape[0]
        cx, cy = (float(sum(v[i, q] for i in range(1, n)) / (n - 1)) for q in (0, 1))
        k = min(centers, key=lambda k: (centers[k][0] - float(cx)) ** 2 / xs**2 + (centers[k][1] - float(cy)) ** 2)
        # as the real function: near the middle
        return centers[k][0], centers[k][1], 1000.0 * (1 + list(LINES).index(k)), err[k]

    class Figure:
        def add_subplot(self, *a):
            return ax

    old = F.Figure, G._fit_circle_path, G.percentile
    F.Figure, G._fit_circle_path, G.percentile = Figure, fit, lambda v, q: v.min() if q < 50 else v.max()
    try:
        kw = dict(mle=mle, nb_step_min=nmin, nb_step_to_be_mle=nsec)
        date = datetime.datetime(1950, 1, 11, 12)
        r = g.eddy_identification("h", "u", "v", date, step=step * factor, shape_error=limit, pixel_limit=None if lim == (4, 1000) else lim, sampling=6, sampling_method="uniform" if unit == "cm" else "visvalingam", presampling_multiplier=4, **kw)
    finally:
        F.Figure, G._fit_circle_path, G.percentile = old
    # isolines
    zs = [v for v in ax.args[3]]
    S.check(S.And([S.close(b - a, step, 1e-9) for a, b in zip(zs, zs[1:])]), "levels are separated by the step")
    S.check(S.close(zs[0] / step, S.floor(zs[0] / step + 0.5), 1e-9), "levels are multiples of the step")
    for p in h:
        S.check(S.Or(m[p], S.And(zs[0] <= sgn(h[p]), sgn(h[p]) <= zs[-1])), "levels cover the heights")
    # ---- what has to be found: from the outermost isolines to the innermost ones, anticyclones first
    reserved, used, found = set(), set(), {1: [], -1: []}

    def looked(k, rel):
        if k in used:
            return
        if S.concrete(S.Or(err[k] < 0, err[k] > limit)):
            return
        P = pixels(k)
        if any(p in reserved or S.concrete(m[p]) for p in P):
            return
        lv, hh = 2 * LINES[k][0] * rel, {p: h[p] * rel for p in h}
        if S.concrete(S.Or([hh[p] < lv for p in P])):
            return
        if not lim[0] <= len(P) <= lim[1]:
            return
        around = lambda i, j: [(a, b) for a in (i - 1, i, i + 1) for b in (j - 1, j, j + 1)]
        top = [p for p in P if S.concrete(S.And([S.Or(m[q], hh[q] <= hh[p]) for q in around(*p)]))]
        gr = comps(top)
        if not gr:
            return
        if len(gr) > 1 and S.concrete(S.sum([S.If(hh[q[0]] - lv >= 2 * nsec, 1, 0) for q in gr]) > mle):
            return
        high = hh[P[0]]
        for p in P:
            high = S.max(high, hh[p])
        if S.concrete(S.Or(high - lv < 2 * nmin, high == lv)):
            return
        best = [q for q in gr if S.concrete(hh[q[0]] == high)]
        # position of the extremum: which inner isolines hold it
        S.assume(len(best) == 1)
        chain, cur = [k], k
        while rel == 1:
            nxt = [q for q in inner[cur] if any(all(p in pixels(q) for p in b) for b in best[:1])]
            if not nxt:
                break
            cur = nxt[0]
            chain.append(cur)
        used.update(chain)
        reserved.update(P)
        found[rel].append((k, chain, high - lv))

    for rel in (sign, -sign):
        for k in sorted(there, key=lambda k: rel * LINES[k][0]):
            looked(k, rel)
    exp = found[1]
    other, mine = (r[1], r[0]) if sign == 1 else (r[0], r[1])
    S.check(len(other) == len(found[-1]), "eddies of the other sign only where nothing has been found")
    S.check(r[0].sign_type == 1 and r[1].sign_type == -1, "anticyclones then cyclones")
    S.check(len(mine) == len(exp), "every isoline which satisfies all the criteria and no other one gives an eddy")
    if len(mine) != len(exp) or len(other) != len(found[-1]):
        return
    for e, (k, chain, amp) in enumerate(found[-1]):
        S.check(S.And(S.close(other.height_external_contour[e], sign * LINES[k][0] * step * factor, 1e-5), S.close(other.amplitude[e], amp * (step / 2) * factor, 1e-5)), "eddy of the other sign")
    norm = lambda x: x % 360
    for e, (k, chain, amp) in enumerate(exp):
        o = mine.obs[e]
        S.check(S.close(mine.height_external_contour[e], sign * LINES[k][0] * step * factor, 1e-5), "height of the external contour")
        S.check(S.close(mine.amplitude[e], amp * (step / 2) * factor, 1e-5), "amplitude")
        S.check(S.close(mine.time[e], 10.5, 1e-6), "date")
        S.check(S.close(mine.radius_e[e], 1000.0 * (1 + list(LINES).index(k)), 1), "effective radius")
        S.check(S.close(mine.shape_error_e[e], err[k], 0.1), "effective shape error")
        S.check(mine.nb_contour_selected[e] == len(chain), "number of isolines around the extremum")
        S.check(S.close(mine.height_inner_contour[e], sign * LINES[chain[-1]][0] * step * factor, 1e-5), "height of the inner contour")
        # speeds
        top, sel = speed[k], S.If(True, LINES[k][0], 0)
        rad = 1000 * (1 + list(LINES).index(k))
        for q in chain[1:]:
            c = S.And(len(pixels(q)) > lim[0], speed[q] >= top)
            top, sel, rad = S.If(c, speed[q], top), S.If(c, LINES[q][0], sel), S.If(c, 1000 * (1 + list(LINES).index(q)), rad)
        S.check(S.close(mine.speed_average[e], top / 8, 1e-4), "maximum speed of the isolines with enough pixels")
        S.check(S.close(mine.height_max_speed_contour[e], sel * sign * step * factor, 1e-5), "height of the contour of maximum speed")
        S.check(S.close(mine.radius_s[e], rad, 1), "speed radius")
        S.check(S.And(S.close(mine.uavg_profile[e, 0], speed[k] / 8, 2e-4), S.close(mine.uavg_profile[e, 5], speed[chain[-1]] / 8, 2e-4)), "speed profile from the external to the inner contour")
        lon = mine.lon[e]
        S.check(S.And(lon >= 0, lon < 360), "longitude between 0 and 360")
        for q in chain:
            c = S.implies(S.close(mine.radius_s[e], 1000.0 * (1 + list(LINES).index(q)), 1), S.And(S.close(lon, norm(centers[q][0]), 1e-3), S.close(mine.lat[e], centers[q][1], 1e-3)))
            S.check(c, "centre of the contour of maximum speed")
        q = chain[-1]
        S.check(S.And(S.close(mine.lon_max[e], norm(centers[q][0]), 1e-3), S.close(mine.lat_max[e], centers[q][1], 1e-3)), "position of the extremum from the inner contour")
        for f, keys in (("e", [k]), ("s", chain)):
            cx, cy = mine["contour_lon_" + f], mine["contour_lat_" + f]
            S.check(S.And([S.And(cx[e, i] >= lon - 180.01, cx[e, i] <= lon + 180.01) for i in range(6)]), "contour around its centre")
            for q in keys:
                a, b, c, d_ = LINES[q][1]
                # vertices are on the isoline, and go all around
                on = S.And([S.And(
                    S.Or([S.And((cx[e, i] + t - x0) / xs >= a - 0.01, (cx[e, i] + t - x0) / xs <= b + 0.01) for t in (-720, -360, 0, 360)]),
                    cy[e, i] - y0 >= c - 0.01, cy[e, i] - y0 <= d_ + 0.01) for i in range(6)])
                S.check(on if f == "e" else S.implies(S.close(mine.radius_s[e], 1000.0 * (1 + list(LINES).index(q)), 1), on), "vertices of the contour")
    S.check(all(allp[k].used == (k in used) for k in there), "isolines of eddies are marked")
    for i in range(NX):
        for j in range(NY):
            p = (i + roll) % NX, j
            S.check(S.And(S.iff(g.vars["h"].mask[i, j], m[p]), S.Or(m[p], g.vars["h"].data[i, j] == sgn(h[p]))), "grid unchanged")


def cases(tier):
    out = []
    reg, glo = dict(x0=3.0, xs=1.0), dict(x0=-20.0, xs=18.0)
    add = lambda nm, **k: out.append((nm, identify, k))
    for sign in (1, -1):
        s = "%+d" % sign
        add("heights" + s, sign=sign, free=["B2", "A3", "peak"], **reg)
        add("spoil" + s, sign=sign, free=["B2", "spoil", "ring", "mask"], hide="R" if sign == 1 else "B", **reg)
        add("shape" + s, sign=sign, free=["errR", "errA", "errA2", "errB", "shape"], x0=355.0, xs=1.0)
        add("speed" + s, sign=sign, free=["speed", "B2"], x0=-5.0, xs=0.5)
        add("pixels" + s, sign=sign, free=["pixels", "B2", "mask"], hide="A", unit="cm", **reg)
        add("global" + s, sign=sign, free=["B2", "mask", "errA"], hide="B", **glo)
        add("hole" + s, sign=sign, free=["hole", "errB", "errR", "mask"], hide="A", nmin=1, nsec=1, **reg)
        add("mle" + s, sign=sign, free=["B2", "A3"], mle=2, nmin=1, nsec=1, **reg)
    return out
