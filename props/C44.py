"""Grids with two dimensional coordinates."""
import types

from props import nc
from props.C38 import Files
from props.C39 import Swap
from props.geo import fan_winding, general


class KD:
    """cKDTree of scipy"""

    def __init__(self, data, *a, **k):
        self.p = data

    def query(self, x, k=1, **kw):
        from vp import snp

        x = snp.array(x)
        pts = [x] if x.ndim == 1 else [x[i] for i in range(len(x))]
        dist, idx = [], []
        for p in pts:
            d = (self.p[:, 0] - p[0]) ** 2 + (self.p[:, 1] - p[1]) ** 2
            o = [int(d.argmin())] if k == 1 else [int(i) for i in d.argsort().a[:k]]
            idx.append(o[0] if k == 1 else o)
            dist.append([d[i] ** 0.5 for i in o][0] if k == 1 else [d[i] ** 0.5 for i in o])
        if x.ndim == 1:
            return (dist[0], idx[0]) if k == 1 else (snp.array(dist[0], "f8"), snp.array(idx[0], "i8"))
        return snp.array(dist, "f8"), snp.array(idx, "i8")


def bilinear(xs, ys, z, x, y):
    """weights of the values used at a position which is concrete, clipped to the axes"""

    def axis(c, v):
        v = min(max(v, c[0]), c[-1])
        i = max(k for k in range(len(c) - 1) if c[k] <= v)
        return i, (v - c[i]) / (c[i + 1] - c[i])

    (i, a), (j, b) = axis(xs, x), axis(ys, y)
    w = {(i, j): (1 - a) * (1 - b), (i + 1, j): a * (1 - b), (i, j + 1): (1 - a) * b, (i + 1, j + 1): a * b}
    return {k: q for k, q in w.items() if q > 1e-12}


class Spline:
    """RectBivariateSpline of scipy, degree one only"""

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0, **k):
        assert kx == ky == 1 and s == 0 and bbox is None
        self.x, self.y, self.z = [float(v) for v in x.a], [float(v) for v in y.a], z

    def ev(self, x, y):
        from vp import snp

        def data(v):
            return (v.filled(0) if isinstance(v, snp.SMa) else v).a.reshape(-1)

        out = []
        for a, b in zip(data(x), data(y)):
            out.append(sum(self.z[k] * w for k, w in bilinear(self.x, self.y, None, float(a), float(b)).items()))
        return snp.array(out, "f8").reshape(x.shape)


PROPERTY = "C44"
MODELS = {"netCDF4": nc.module(), "scipy.spatial": types.SimpleNamespace(cKDTree=KD), "scipy.interpolate": types.SimpleNamespace(RectBivariateSpline=Spline, interp1d=None)}


def BOUNDS(tier):
    return (
        "curved grids of 5x4 nodes (5x5 for the filter) with any value and any mask of up to 3 nodes; any position on 64ths of degree; contours of three shapes anywhere on eighths of degree (also over the limits of the grid), "
        "one with a free vertex; speeds of any value along %d contours" % (3 if tier == "quick" else 5)
    )


OUTSIDE = "contours with edges which are longer than some nodes between neighbour vertices; the filter of the intermediate regular grid (decided by C35, here doubled values); identification on those grids as a whole (decided by C36 for regular ones)"
ASSUMPTIONS = ["nearest neighbours of scipy (cKDTree) and its spline of degree one are what they say (models when code is executed symbolically, real ones when paths are replayed)"]
NX, NY = 5, 4


def coord(i, j):
    return 10 + 0.5 * i + 0.125 * j, -1 + 0.5 * j + 0.0625 * i + i * j / 32.0


def mesh(ny=NY):
    return [[coord(i, j)[0] for j in range(ny)] for i in range(NX)], [[coord(i, j)[1] for j in range(ny)] for i in range(NX)]


def grid(S, ny=NY, **datas):
    g = S.mod("dataset.grid").UnRegularGridDataset("unset", "x", "y", centered=True, unset=True)
    x, y = mesh(ny)
    g.x_dim = g.y_dim = ("i", "j")
    g.dimensions, g.variables_description = dict(i=NX, j=ny), dict()
    g.x_c, g.y_c = S.arr(x, "f8"), S.arr(y, "f8")
    free = [[False] * ny for _ in range(NX)]
    g.vars.update(x=S.masked(S.arr(x, "f8"), S.arr(free, "?")), y=S.masked(S.arr(y, "f8"), S.arr(free, "?")))
    g.vars.update({k: S.masked(S.arr(v, "f8"), S.arr(m, "?")) for k, (v, m) in datas.items()})
    g.init_pos_interpolator()
    return g


def load(S, part):
    """coordinates, values and limits are those of the file"""
    U = S.mod("dataset.grid").UnRegularGridDataset
    x, y = mesh()
    dx = S.fx("dx", -2, 2, 8)
    x = [[v + dx if i < 2 else v for v in r] for i, r in enumerate(x)]
    h = [[S.int("h%d%d" % (i, j), -100, 100) for j in range(NY)] for i in range(NX)]
    mk = [[S.bool("m%d%d" % (i, j)) if (i, j) in ((0, 0), (3, 2)) else False for j in range(NY)] for i in range(NX)]
    si, sj = (slice(1, 4), slice(0, 3)) if part else (slice(None), slice(None))
    with Files() as F:
        fn = F.path("a")
        with S.mod("dataset.grid").Dataset(fn, "w") as f:
            f.createDimension("i", NX)
            f.createDimension("j", NY)
            f.createVariable("x", "f8", ("i", "j"))[:] = S.arr(x, "f8")
            f.createVariable("y", "f4", ("i", "j"))[:] = S.arr(y, "f4")
            f.createVariable("h", "f8", ("i", "j"), fill_value=-999)[:] = S.arr([[S.If(mk[i][j], -999, h[i][j]) for j in range(NY)] for i in range(NX)], "f8")
        g = U(fn, "x", "y", centered=True, indexs=dict(i=si, j=sj) if part else None)
        v = g.grid("h")
    ri, rj = list(range(NX))[si], list(range(NY))[sj]
    S.check(g.x_c.shape == g.y_c.shape == v.shape == (len(ri), len(rj)), "shape")
    mask = g.get_mask(v)
    for a, i in enumerate(ri):
        for b, j in enumerate(rj):
            S.check(S.And(g.x_c[a, b] == x[i][j], g.y_c[a, b] == y[i][j]), "coordinates of nodes")
            S.check(S.And(S.iff(mask[a, b], mk[i][j]), S.Or(mk[i][j], v.data[a, b] == h[i][j])), "values of nodes")
    w = g.bounds
    px, py = [x[i][j] for i in ri for j in rj], [y[i][j] for i in ri for j in rj]
    S.check(S.And(S.And([w[0] <= v for v in px] + [w[1] >= v for v in px] + [w[2] <= v for v in py] + [w[3] >= v for v in py]),
                  S.Or([w[0] == v for v in px]), S.Or([w[1] == v for v in px]), S.Or([w[2] == v for v in py]), S.Or([w[3] == v for v in py])), "limits of the grid")
    S.check(not g.is_circular(), "not global")
    i, j = g.nearest_grd_indice(coord(*((2, 1) if not part else (2, 1)))[0], coord(2, 1)[1])
    near(S, g.x_c, g.y_c, i, j, *coord(2, 1))


def near(S, xc, yc, i, j, x, y):
    i, j = S.concrete(i), S.concrete(j)
    n, m = xc.shape
    S.check(0 <= i < n and 0 <= j < m, "node of the grid")
    d = (xc[i, j] - x) ** 2 + (yc[i, j] - y) ** 2
    S.check(S.And([d <= (xc[a, b] - x) ** 2 + (yc[a, b] - y) ** 2 for a in range(n) for b in range(m)]), "no node is closer")


def nearest(S):
    """node next to a position"""
    g = grid(S)
    x, y = S.fx("x", 9, 14, 64), S.fx("y", -2, 2, 64)
    i, j = g.nearest_grd_indice(x, y)
    near(S, g.x_c, g.y_c, i, j, x, y)
    k = S.arr([4, -1, 0], "i8")
    S.check(list(g.normalize_x_indice(k)) == [4, -1, 0], "indices are not wrapped")


SHAPES = {
    "square": [(0.0, 0.0), (0.5, 0.0), (1.0, 0.0), (1.0, 0.5), (1.0, 1.0), (0.5, 1.0), (0.0, 1.0), (0.0, 0.5)],
    "round": [(0.0, 0.25), (0.25, 0.0), (0.75, 0.0), (1.125, 0.375), (1.0, 0.875), (0.5, 1.125), (0.125, 0.75)],
    "bean": [(0.0, 0.0), (0.625, 0.125), (1.25, 0.0), (1.375, 0.625), (0.875, 0.875), (0.625, 0.5), (0.375, 0.875), (-0.125, 0.5)],
}


def inside(S, g, base):
    v = S.arr(base + base[:1], "f8")
    w = g.bbox_indice(v)
    w = tuple((S.concrete(a), S.concrete(b)) for a, b in w)
    S.check(0 <= w[0][0] < w[0][1] <= NX and 0 <= w[1][0] < w[1][1] <= NY, "window is in the grid")
    c = types.SimpleNamespace(bbox_slice=w, vertices=v)
    a, b = g.get_pixels_in(c)
    got = [(S.concrete(a[k]), S.concrete(b[k])) for k in range(len(a))]
    S.out("got", got)
    S.check(len(set(got)) == len(got), "no node twice")
    for i in range(NX):
        for j in range(NY):
            p = coord(i, j)
            e = fan_winding(S, base, p) != 0
            S.check(S.implies(general(S, base, p), e if (i, j) in got else S.Not(e)), "exactly the nodes inside the contour")
    S.check(all(0 <= i < NX and 0 <= j < NY for i, j in got), "nodes belong to the grid")


def pixels(S, shape):
    ox, oy = S.concrete(S.int("ox", -8, 20)) / 8, S.concrete(S.int("oy", -8, 16)) / 8
    inside(S, grid(S), [(10 + a + ox, -1 + b + oy) for a, b in SHAPES[shape]])


def free(S):
    fx, fy = S.fx("fx", 0.375, 1, 16), S.fx("fy", 0.5, 1.25, 16)
    o = S.choice("o", [(10.25, -0.75), (11.5, 0), (9.75, -1.25)])
    inside(S, grid(S), [(o[0] + a, o[1] + b) for a, b in ((0.0, 0.0), (0.5, 0.125), (1.0, 0.25), (fx, fy), (0.0, 0.5))])


LINES = [
    [(10.375, -0.75), (11.25, -0.5), (11.0, 0.375), (10.375, 0.25)],
    [(11.5, 0.0), (12.5, 0.25), (12.0, 1.125), (11.75, 0.75)],
    [(9.75, -1.0), (10.25, -1.25), (10.375, -0.375)],
    [(10.875, -0.25), (11.125, -0.125), (10.9375, 0.0)],
    [(10, -1.5), (12.5, -1.25), (12.75, 1.5), (10.25, 1.0)],
]


def speed(S, line):
    """mean of the speed of nodes along the contour"""
    x, y = mesh()
    flat = [(i, j) for i in range(NX) for j in range(NY)]
    u = [[S.int("u%d%d" % (i, j), 0, 50) if (i + j) % 2 else (5 * i + 3 * j) % 13 for j in range(NY)] for i in range(NX)]
    v = [[0 if (i + j) % 2 else S.choice("v%d%d" % (i, j), [0, 4]) if (i, j) in ((2, 2), (3, 1)) else 7 for j in range(NY)] for i in range(NX)]
    mk = [[bool(S.bool("m%d%d" % (i, j))) if (i, j) in ((1, 1), (2, 1), (4, 3)) else False for j in range(NY)] for i in range(NX)]
    g = grid(S, u=(u, mk), v=(v, mk))
    g.init_speed_coef("u", "v")
    vert = S.arr(LINES[line] + LINES[line][:1], "f8")
    got = g.speed_coef_mean(types.SimpleNamespace(vertices=vert))
    a, b = S.mod("generic").uniform_resample(vert[:, 0], vert[:, 1])
    means = []
    for k in range(1, len(a)):
        d = sorted(((float(a[k]) - x[i][j]) ** 2 + (float(b[k]) - y[i][j]) ** 2, i, j) for i, j in flat)
        S.assume(d[4][0] - d[3][0] > 1e-9)
        ok = [u[i][j] if (i + j) % 2 else (u[i][j] ** 2 + v[i][j] ** 2) ** 0.5 for _, i, j in d[:4] if not mk[i][j]]
        if ok:
            means.append(sum(ok) * 1.0 / len(ok))
    S.check(len(means) > 0, "a speed is found")
    S.check(S.close(got, sum(means) / len(means), 1e-7), "mean of the speed of the four nodes next to each position")


def filtered(S, kind):
    """filter through an intermediate regular grid"""
    G = S.mod("dataset.grid")
    ny, step = 5, 0.625
    sym = ((1, 1), (2, 3), (4, 4))
    h = [[S.int("h%d%d" % (i, j), -20, 20) for j in range(ny)] for i in range(NX)]
    mk = [[bool(S.bool("m%d%d" % (i, j))) if (i, j) in sym else (i, j) == (0, 2) for j in range(ny)] for i in range(NX)]
    g = grid(S, ny, h=(h, mk))
    seen = []

    def conv(self, grid_name, kernel_func, lat_max=85, extend=False, **kw):
        seen.append(kw.get("wave_length"))
        return self.grid(grid_name) * 2

    with Swap((G.RegularGridDataset, "convolve_filter_with_dynamic_kernel", conv)):
        getattr(g, kind + "_filter")("h", step * 888)
    S.check(seen == [step * 888], "wavelength of the filter")
    r = g.grid("h")
    mask = g.get_mask(r)
    x, y = mesh(ny)
    x0, y0 = min(map(min, x)), min(map(min, y))
    x1, y1 = max(map(max, x)), max(map(max, y))

    def axis(a, b):
        n = 0
        while a + n * step < b:
            n += 1
        return n

    n, m = axis(x0, x1), axis(y0, y1)
    cell = {}
    for i in range(NX):
        for j in range(ny):
            if not mk[i][j]:
                k = min(int((x[i][j] - x0) // step), n - 1), min(int((y[i][j] - y0) // step), m - 1)
                cell.setdefault(k, []).append(h[i][j])
    cx, cy = [x0 + (k + 0.5) * step for k in range(n)], [y0 + (k + 0.5) * step for k in range(m)]
    for i in range(NX):
        for j in range(ny):
            w = bilinear(cx, cy, None, x[i][j], y[i][j])
            lost = mk[i][j] or sum(q for k, q in w.items() if k not in cell) > 1e-5
            S.check(S.iff(mask[i, j], lost), "a value where all cells around the node have a value")
            if not lost:
                low = sum(2.0 * sum(cell[k]) / len(cell[k]) * q for k, q in w.items())
                S.check(S.close(r.data[i, j], low if kind == "low" else h[i][j] - low, 1e-6), "filtered value between the cells")


def cases(tier):
    r = [("load", load, dict(part=False)), ("load_part", load, dict(part=True)), ("nearest", nearest, {}), ("free", free, {})]
    r += [("pixels_" + s, pixels, dict(shape=s)) for s in SHAPES]
    r += [("speed%d" % k, speed, dict(line=k)) for k in range(3 if tier == "quick" else 5)]
    r += [("filter_" + k, filtered, dict(kind=k)) for k in ("low", "high")]
    return r
