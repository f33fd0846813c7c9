"""Currents from height, speed along contours."""
import math

PROPERTY = "C40"


def BOUNDS(tier):
    return (
        "grids of 5 or 6 columns and 5 or 6 rows on both sides of the equator, bounded or around the globe, any height at every node, any mask of 4 nodes; differences over 1 or 2 nodes; "
        "contours of 5 vertices over a grid of 6x5 speeds (some missing), %d shapes" % (2 if tier == "quick" else 4)
    )


OUTSIDE = "filter used to fill the height at the equator (decided by C35, here any field); larger grids"
R, G0 = 6370997.0, 9.807
DAY = 23 * 3600 + 56 * 60 + 4.1


def grid(S, xs, ys, cls=None, **d):
    cls = cls or S.mod("dataset.grid").RegularGridDataset
    return cls.with_array(("x", "y"), dict({k: S.masked(S.arr(h, "f8"), S.arr(m, "?")) for k, (h, m) in d.items()}, x=S.arr(xs, "f8"), y=S.arr(ys, "f8")),
                          variables_description={k: dict(units="m", long_name="height") for k in d})


def fields(S, nx, ny, sym, p="h", only=None):
    h = [[S.int("%s%d_%d" % (p, i, j), -20, 20) if only is None or (i, j) in only else (7 * i * i + 5 * j + 3 * i * j) % 31 - 15 for j in range(ny)] for i in range(nx)]
    m = [[False] * ny for i in range(nx)]
    for i, j in sym:
        m[i][j] = bool(S.bool("m%d_%d" % (i, j)))
    return h, m


def slope(h, m, i, j, nx, ny, circ, vert, hw):
    """slope by node, None if it is not defined"""

    def at(k):
        a, b = (i, j + k) if vert else (i + k, j)
        if circ and not vert:
            a %= nx
        if not (0 <= a < nx and 0 <= b < ny) or m[a][b]:
            return None
        return h[a][b]

    c, l, r = at(0), at(-1), at(1)
    if c is None or (l is None and r is None):
        return None
    if l is None:
        return r - c
    if r is None:
        return c - l
    k, ways = 1, {1: ((1,), 2), 2: ((8, -1), 12), 3: ((45, -9, 1), 60), 4: ((672, -168, 32, -3), 840)}
    while k < hw and at(k + 1) is not None and at(-k - 1) is not None:
        k += 1
    w, d = ways[k]
    return sum((at(q + 1) - at(-q - 1)) * w[q] for q in range(k)) / d


def coords(circ, nx, ys):
    return [360.0 / nx * i if circ else 10 + 0.5 * i for i in range(nx)], ys


def uv(S, circ, hw, ys):
    nx, ny = (6 if circ else 5), len(ys)
    h, m = fields(S, nx, ny, ((1, 1), (nx - 1, 2), (0, 2), (2, ny - 1)))
    xs, ys = coords(circ, nx, ys)
    g = grid(S, xs, ys, h=(h, m))
    kw = {} if hw == 4 else dict(stencil_halfwidth=hw)
    g.add_uv("h", uname="cu", vname="cv", **kw)
    dx, dy = xs[1] - xs[0], ys[1] - ys[0]
    for name, vert in (("cv", False), ("cu", True)):
        v = g.vars[name]
        mk = g.get_mask(v)
        for i in range(nx):
            for j in range(ny):
                s = slope(h, m, i, j, nx, ny, circ, vert, hw)
                S.check(S.iff(mk[i, j], s is None), "current is missing exactly where the slope is")
                if s is None:
                    continue
                f = 4 * math.pi / DAY * math.sin(math.radians(ys[j]))
                d = math.radians(dy) * R if vert else math.radians(dx) * R * math.cos(math.radians(ys[j]))
                e = s * (G0 / f / d) * (-1 if vert else 1)
                S.check(S.close(v.data[i, j], e, abs(G0 / f / d) * 1e-4), "current is in balance with the slope of height")
    S.check(S.And([S.Or(m[i][j], g.vars["h"].data[i, j] == h[i][j]) for i in range(nx) for j in range(ny)]), "height is not changed")
    D = g.variables_description
    S.check(D["h"]["attrs"]["units"] == "m" and D["cu"]["attrs"]["units"] == "m/s" and D["cv"]["attrs"]["units"] == "m/s", "units")


def diff(S, circ, vert, sch):
    nx, ny = 6, 6
    h, m = fields(S, nx, ny, ())
    xs, ys = coords(circ, nx, [-5.0 + 2 * j for j in range(ny)])
    g = grid(S, xs, ys, h=(h, m))
    o = g.compute_finite_difference(S.arr(h, "f8"), schema=sch, mode="wrap" if circ else "reflect", vertical=vert)
    for i in range(nx):
        for j in range(ny):
            k, n = (j, ny) if vert else (i, nx)
            a, b = k - sch, k + sch
            if circ and not vert:
                a, b = a % n, b % n
            if a < 0 or b >= n:
                S.check(S.isnan(o[i, j]), "no difference at the edge of the grid")
                continue
            s = (h[i][b] - h[i][a]) if vert else (h[b][j] - h[a][j])
            d = 2 * sch * (math.radians(2) * R if vert else math.radians(xs[1] - xs[0]) * R * math.cos(math.radians(ys[j])))
            S.check(S.close(o[i, j] * d, s, 1e-6), "difference of both neighbours over their distance")


def equator(S, circ, first, only):
    """near the equator currents come from the second difference of the filled height, with a smooth transition"""
    nx, ny, sch = 6, 9, 1
    h, m = fields(S, nx, ny, ((2, 1), (3, 3)), only=only)
    f = [[S.int("f%d_%d" % (i, j), -20, 20) for j in range(ny)] for i in range(nx)]
    xs, ys = coords(circ, nx, [first + 2 * j for j in range(ny)])
    runs = []

    def flt(g, name, kernel, **kw):
        runs.append(name)
        return S.masked(S.arr(f, "f8"), S.arr([[False] * ny for _ in range(nx)], "?"))

    g = grid(S, xs, ys, type("Grid", (S.mod("dataset.grid").RegularGridDataset,), {"convolve_filter_with_dynamic_kernel": flt}), h=(h, m))
    g.add_uv_lagerloef("h", schema=sch)
    S.check(len(runs) >= 1 and isinstance(runs[0], str) and runs[0] == "h", "height is filled first")
    dx, dy = xs[1] - xs[0], ys[1] - ys[0]
    for name, vert in (("v", False), ("u", True)):
        v = g.vars[name]
        for i in range(nx):
            for j in range(ny):
                lat = ys[j]
                cor = 4 * math.pi / DAY * math.sin(math.radians(lat)) or 1  # without weight at equator
                cos = math.cos(math.radians(lat))
                d = math.radians(dy) * R if vert else math.radians(dx) * R * cos
                s = slope(h, m, i, j, nx, ny, circ, vert, 4)
                mk = g.get_mask(v)
                if s is None:
                    S.check(mk[i, j], "current is missing where the slope is")
                    continue
                e = s * (G0 / cor / d) * (-1 if vert else 1)
                k, n = (j, ny) if vert else (i, nx)
                if abs(lat) < 5:
                    w = 1 - math.exp(-((lat / 2.2) ** 2))
                    ks = [k - 2, k, k + 2]
                    if circ and not vert:
                        ks = [q % n for q in ks]
                    if ks[0] < 0 or ks[2] >= n:
                        S.check(S.Or(mk[i, j], S.isnan(v.data[i, j])), "no second difference at the edge of the grid")
                        continue
                    a, b, c = (f[i][ks[0]], f[i][ks[1]], f[i][ks[2]]) if vert else (f[ks[0]][j], f[ks[1]][j], f[ks[2]][j])
                    beta = 4 * math.pi / DAY * cos / R
                    e2 = (a - 2 * b + c) * (G0 / beta / (2 * d) ** 2) * (-1 if vert else 1)
                    tol = (abs(G0 / cor / d) * w + abs(G0 / beta / (2 * d) ** 2)) * 1e-4
                    S.check(S.Not(mk[i, j]), "current is defined")
                    S.check(S.close(v.data[i, j], e * w + e2 * (1 - w), tol), "both estimates are mixed near the equator")
                else:
                    S.check(S.close(v.data[i, j], e, abs(G0 / cor / d) * 1e-4), "currents are not changed far from the equator")


def speed(S):
    xs, ys = [0.0, 1.0, 2.0], [10.0, 11.0]
    trip = [(0, 0, 0), (3, 4, 5), (-5, 12, 13), (8, -15, 17), (-20, -21, 29), (0, -7, 7)]
    p = [[S.choice("p%d_%d" % (i, j), trip) for j in range(2)] for i in range(2)]
    p.append([(3, 4, 5), (0, 1, 1)])
    mu, mv = S.bool("mu"), S.bool("mv")
    no = [[False] * 2 for _ in range(3)]
    a, b = [list(r) for r in no], [list(r) for r in no]
    a[0][0], b[2][1] = bool(mu), bool(mv)
    g = grid(S, xs, ys, u=([[q[0] for q in r] for r in p], a), v=([[q[1] for q in r] for r in p], b))
    g.init_speed_coef()
    s = g._speed_ev
    mk = g.get_mask(s)
    for i in range(3):
        for j in range(2):
            S.check(S.iff(mk[i, j], a[i][j] or b[i][j]), "speed is missing exactly where a current is")
            if not (a[i][j] or b[i][j]):
                S.check(S.close(s.data[i, j], p[i][j][2], 1e-6), "speed of the current")


def gc(x0, y0, x1, y1):
    q = [math.radians(v) for v in (x0, y0, x1, y1)]
    t = math.sin((q[3] - q[1]) / 2) ** 2 + math.cos(q[1]) * math.cos(q[3]) * math.sin((q[2] - q[0]) / 2) ** 2
    return 2 * R * math.asin(math.sqrt(t))


class Contour:
    def __init__(self, v):
        self.vertices = v


def along(S, pts, miss, circ, how):
    """mean speed along a contour, at positions regularly spaced (two by vertex, the first one is also the last one)"""
    G = S.mod("dataset.grid")
    nx, ny = 6, 5
    s = [[S.int("s%d_%d" % (i, j), 0, 40) for j in range(ny)] for i in range(nx)]
    m = [[False] * ny for _ in range(nx)]
    for i, j in miss:
        m[i][j] = bool(S.bool("m%d_%d" % (i, j)))
    step = 60.0 if circ else 0.5
    xs, ys = [step * i for i in range(nx)], [20 + 0.5 * j for j in range(ny)]
    pts = [(step * a + (-180 if circ else 0), 20 + 0.5 * b) for a, b in pts]
    pts = pts + pts[:1]
    acc = [0]
    for a, b in zip(pts[:-1], pts[1:]):
        acc.append(acc[-1] + max(gc(*a, *b), 1e-3))
    n = 2 * len(pts)
    vals = []
    for k in range(1, n):
        d = acc[-1] * k / (n - 1)
        q = max(t for t in range(len(pts) - 1) if acc[t] <= d + 1e-7 or t == 0)
        w = min(1, (d - acc[q]) / (acc[q + 1] - acc[q]))
        x, y = [pts[q][c] + (pts[q + 1][c] - pts[q][c]) * w for c in (0, 1)]
        i, j = x / step, (y - 20) / 0.5
        i0, j0 = math.floor(i), math.floor(j)
        xd, yd = i - i0, j - j0
        t = []
        for a, b, c in ((0, 0, (1 - xd) * (1 - yd)), (1, 0, xd * (1 - yd)), (0, 1, (1 - xd) * yd), (1, 1, xd * yd)):
            p, q = i0 + a, j0 + b
            if circ:
                p %= nx
            t.append(None if not (0 <= p < nx and 0 <= q < ny) or m[p][q] else s[p][q] * c)
        if min(xd, 1 - xd, yd, 1 - yd) < 1e-6:
            raise ValueError("position too close of a cell limit")
        vals.append(None if None in t else t[0] + t[1] + t[2] + t[3])
    v = S.arr([list(p) for p in pts], "f8")
    sp, mk = S.arr(s, "f8"), S.arr(m, "?")
    xs, ys = S.arr(xs, "f8"), S.arr(ys, "f8")
    if how == "speed":
        g = grid(S, xs, ys, u=(s, m), v=([[0] * ny for _ in range(nx)], m))
        g._speed_ev = S.masked(sp, mk)
        r = g.speed_coef_mean(Contour(v))
    elif how == "mean":
        r = G.mean_on_regular_contour(xs, ys, sp, mk, v)
    else:
        r = G.value_on_regular_contour(xs, ys, sp, mk, v, 2, -1)
        S.check(len(r) == n - 1, "number of positions")
        for k in range(n - 1):
            S.check(S.isnan(r[k]) if vals[k] is None else S.close(r[k], vals[k], 1e-4), "value at each position")
        return
    ok = [x for x in vals if x is not None]
    if not ok or (how == "mean" and len(ok) < len(vals)):
        S.check(S.isnan(r), "no speed without value")
    else:
        S.check(S.close(r, sum(ok) / len(ok), 1e-4), "mean of the values along the contour")


SHAPES = [[(1.2, 1.3), (3.7, 0.8), (4.1, 2.9), (1.6, 3.4)], [(0.3, 0.4), (2.45, 0.35), (2.6, 2.3), (0.7, 2.7)], [(2.2, 1.1), (3.3, 1.4), (3.1, 2.2), (2.4, 2.6)], [(1.1, 0.3), (4.8, 0.6), (2.7, 3.7), (1.4, 1.9)]]


def cases(tier):
    r = []
    for circ in (False, True):
        for hw in (1, 2, 4):
            r.append(("uv_%s_w%d" % ("circ" if circ else "reg", hw), uv, dict(circ=circ, hw=hw, ys=[-3.0 + 2 * j for j in range(5)])))
        for vert in (False, True):
            for sch in (1, 2):
                r.append(("diff_%d%d_%d" % (circ, vert, sch), diff, dict(circ=circ, vert=vert, sch=sch)))
        r.append(("equator_%d" % circ, equator, dict(circ=circ, first=-8.4, only=None)))
        r.append(("equator_row_%d" % circ, equator, dict(circ=circ, first=-8.0, only=((2, 4), (3, 6)))))
        for k, p in enumerate(SHAPES[: 2 if tier == "quick" else 4]):
            for how in ("speed", "mean", "value"):
                r.append(("along_%d_%d_%s" % (circ, k, how), along, dict(pts=p, miss=((2, 1), (0, 0), (4, 3), (3, 0)), circ=circ, how=how)))
    r.append(("speed", speed, {}))
    return r
