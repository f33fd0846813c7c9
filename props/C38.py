"""Geometry of grids, loading and writing of their variables."""
import math
import os
import shutil
import tempfile

from props import nc

PROPERTY = "C38"
MODELS = {"netCDF4": nc.module()}
nc.NOMASK = True


def BOUNDS(tier):
    return (
        "grids of 3 to 8 columns and 2 or 3 rows, any origin on eighths of degree and any rounding of coordinates up to 1.5e-5 degree; described by centers or corners; "
        "every position on eighths of a pixel in several turns; files of 2 variables in every order of dimensions, any value and missing value at each node, 2 dates, any part of the grid"
    )


OUTSIDE = "grids with two dimensional coordinates; the netCDF library (model when code is executed symbolically, real one when paths are replayed); larger grids"
ASSUMPTIONS = ["positions looked up are not within 1e-6 of a bound of pixel unless coordinates are exact"]
E = 1 << 18


def build(S, x, y, centered=True, **datas):
    R = S.mod("dataset.grid").RegularGridDataset
    return R.with_array(("x", "y"), dict(datas, x=S.arr(x, "f8"), y=S.arr(y, "f8")), centered=centered)


def geom(S, n, m, centered):
    """bounds and centers"""
    x0, y0 = S.fx("x0", -360, 360, 8), S.fx("y0", -80, 60, 8)
    dx, dy = S.choice("dx", [0.25, 1, 45]), S.choice("dy", [0.25, 2])
    e = [S.fx("e%d" % i, -4 / E, 4 / E, E) for i in range(n)]
    x = [x0 + i * dx + e[i] for i in range(n)]
    y = [y0 + j * dy for j in range(m)]
    g = build(S, x, y, centered)
    for c, b, v in ((g.x_c, g.x_bounds, x), (g.y_c, g.y_bounds, y)):
        k = len(v)
        S.check(S.And(len(c) == k, len(b) == k + 1), "one bound more than pixels")
        if centered:
            S.check(S.And([c[i] == v[i] for i in range(k)]), "centers are those given")
            S.check(S.And([S.close(b[i], (v[i - 1] + v[i]) / 2, 5e-5) for i in range(1, k)]), "bounds are half way between centers")
            S.check(S.And(S.close(b[0], v[0] - (v[1] - v[0]) / 2, 1e-9), S.close(b[k], v[-1] + (v[-1] - v[-2]) / 2, 1e-9)), "half a pixel around first and last centers")
        else:
            S.check(S.And([b[i] == v[i] for i in range(k)]), "bounds are those given")
            S.check(S.close(b[k], 2 * v[-1] - v[-2], 1e-9), "last pixel is as large as the one before")
            S.check(S.And([S.close(c[i], (b[i] + b[i + 1]) / 2, 1e-9) for i in range(k)]), "centers are half way between bounds")
    S.check(S.And(S.close(g.xstep, (x[-1] - x[0]) / (n - 1), 5e-5), S.close(g.ystep, dy, 1e-9)), "steps")
    w = g.bounds
    S.check(S.And([S.close(a, b, 1e-9) for a, b in zip(w, (g.x_bounds[0], g.x_bounds[n], g.y_bounds[0], g.y_bounds[m]))]), "limits of the grid")
    S.check(g.is_centered is centered, "kind of description")
    S.check(S.And([S.close(a, b, 1e-9) for a, b in zip(g.c_to_bounds(g.x_c), g.x_bounds)]) if centered else True, "same bounds from centers")
    idx = S.ints("i", 2, -2 * n, 3 * n)
    q = g.normalize_x_indice(S.arr(idx, "i8"))
    S.check(S.And([S.And(q[k] >= 0, q[k] < n, (q[k] - idx[k]) % n == 0) for k in range(2)]), "indices brought back in the grid")


def order(S, axis):
    """coordinates which do not increase are refused"""
    v = [S.int("a%d" % i, -3, 3) for i in range(3)]
    x, y = [0, 1, 2], [0, 1, 2]
    if axis == "x":
        x = v
    else:
        y = v
    bad = S.Or([v[i + 1] < v[i] for i in range(2)])
    try:
        build(S, x, y)
    except Exception as e:
        if "increasing" not in str(e):
            raise
        S.check(S.Not(S.And(v[1] > v[0], v[2] - v[1] == v[1] - v[0])), "increasing coordinates are accepted")
        return
    S.check(S.Not(bad), "decreasing coordinates are refused")


def circular(S, n, dx, whole, centered):
    """a grid is global exactly when its pixels go once around the globe"""
    x0 = S.fx("x0", -360, 360, 8)
    e = [S.fx("e%d" % i, -4 / E, 4 / E, E) for i in range(n)]
    g = build(S, [x0 + i * dx + e[i] for i in range(n)], [0, 1], centered)
    S.check(g.is_circular() == whole, "global exactly when pixels cover 360 degrees")
    S.check(g.is_circular() == whole, "same answer again")


def seam(S, n, dx, whole):
    """interpolation across the edge of a grid with rounded coordinates"""
    x0 = S.choice("x0", [0, -180, -179.875, 20])
    r = [S.choice("e%d" % i, [0, 1.4e-5, -1.4e-5]) if i in (0, n - 1) else 0 for i in range(n)]
    z = [S.int("z%d" % i, -50, 50) for i in range(n)]
    mk = [S.bool("m%d" % i) if i < 2 else False for i in range(n)]
    g = build(S, [x0 + i * dx + r[i] for i in range(n)], [0, 1], h=S.masked(S.arr([[v, v] for v in z], "f8"), S.arr([[m, m] for m in mk], "?")))
    k = S.choice("turn", [0, 360, -720])
    f = S.choice("f", [0.25, 0.5, 0.75])
    kind = S.choice("method", ["bilinear", "nearest"]) if f != 0.5 else "bilinear"
    v = g.interp("h", S.arr([x0 + (n - 1 + f) * dx + k], "f8"), S.arr([0.5], "f8") if kind == "bilinear" else S.arr([0.25], "f8"), method=kind)[0]
    if kind == "bilinear":
        need, ref = (n - 1, 0), z[n - 1] * (1 - f) + z[0] * f
    else:
        need = (n - 1,) if f < 0.5 else (0,)
        ref = z[need[0]]
    bad = S.Or([mk[i] for i in need])
    if not whole:
        S.check(S.isnan(v) or (kind == "nearest" and f < 0.5), "nothing out of a regional grid")
    elif S.isnan(v):
        S.check(bad, "a value between last and first columns")
    else:
        S.check(S.And(S.Not(bad), S.close(v, ref, 1e-2)), "value between last and first columns")


def nearest(S, n, m, dx, dy, call):
    """pixel which holds a position"""
    x0, y0 = S.choice("o", [(-180, -4), (10.125, 20), (0, -1)])
    g = build(S, [x0 + (i + 0.5) * dx for i in range(n)], [y0 + (j + 0.5) * dy for j in range(m)], h=S.arr([[0] * m] * n, "f8"))
    i, j = S.concrete(S.int("i", 0, n - 1)), S.concrete(S.int("j", 0, m - 1))
    a, b = S.choice("in", [(0.5, 0.5), (0.125, 0.875), (0.875, 0.125), (0.25, 0.25), (0.75, 0.75)])
    t = S.choice("turn", [0, 360, -360])
    x, y = x0 + (i + a) * dx + t, y0 + (j + b) * dy
    if call == "array":
        u, v = g.nearest_grd_indice(S.arr([x, x], "f8"), S.arr([y, y], "f8"))
        u, v = u[1], v[1]
    elif call == "tuple":
        u, v = g.nearest_grd_indice((x, x), (y, y))
        u, v = u[1], v[1]
    else:
        u, v = g.nearest_grd_indice(x, y)
    S.check(S.And(u == i, v == j), "pixel which holds the position")


NX, NY = 4, 3
XS, YS = [10.0, 12.0, 14.0, 16.0], [-3.0, -1.0, 1.0]


class Files:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def path(self, n):
        return os.path.join(self.d, n + ".nc")


def make(S, fn, dims, h, mk, fill, nt=2, dt="f4", xs=XS, ys=YS, times=None):
    """a file with one variable h[t][i][j]"""
    D = S.mod("dataset.grid").Dataset
    nx, ny = len(xs), len(ys)
    with D(fn, "w") as f:
        f.createDimension("time", nt)
        f.createDimension("x", nx)
        f.createDimension("y", ny)
        f.createVariable("x", "f8", ("x",))[:] = S.arr(xs, "f8")
        f.createVariable("y", "f4", ("y",))[:] = S.arr(ys, "f4")
        if times is not None:
            f.createVariable("time", "f8", ("time",))[:] = S.arr(times, "f8")
        v = f.createVariable("h", dt, dims, fill_value=fill)
        v.units = "cm"
        size = dict(time=nt, x=nx, y=ny)

        def cell(pos):
            t, i, j = pos.get("time", 0), pos["x"], pos["y"]
            return S.If(mk[t][i][j], fill, h[t][i][j]) if fill is not None else h[t][i][j]

        def rec(k, pos):
            if k == len(dims):
                return cell(pos)
            return [rec(k + 1, dict(pos, **{dims[k]: q})) for q in range(size[dims[k]])]

        v[:] = S.arr(rec(0, {}), dt)
        f.setncattr("history", "made for a check")


DIMS = {"tyx": ("time", "y", "x"), "txy": ("time", "x", "y"), "yx": ("y", "x"), "xy": ("x", "y"), "xty": ("x", "time", "y"), "ytx": ("y", "time", "x")}


def data(S, nt, free, nm=None, lo=-1000, hi=1000):
    """free: (t, i, j) of the nodes which may be masked"""
    h = [[[S.int("h%d%d%d" % (t, i, j), lo, hi) for j in range(NY)] for i in range(NX)] for t in range(nt)]
    mk = [[[S.bool("m%d%d%d" % (t, i, j)) if (i, j) in free else False for j in range(NY)] for i in range(NX)] for t in range(nt)]
    return h, mk


def same(S, got, h, mk, t, xs, ys, label):
    S.check(got.shape == (len(xs), len(ys)), label + ": longitude then latitude")
    m = got.mask
    full = len(m.shape) > 0
    for a, i in enumerate(xs):
        for b, j in enumerate(ys):
            k = m[a, b] if full else m
            S.check(S.iff(k, mk[t][i][j]), label + ": missing values")
            S.check(S.Or(mk[t][i][j], got.data[a, b] == h[t][i][j]), label + ": values")


def load(S, dims, where, fill=-32000):
    """variables are read with longitude first, at the date and for the part requested"""
    R = S.mod("dataset.grid").RegularGridDataset
    dims = DIMS[dims]
    nt = 2 if "time" in dims else 1
    h, mk = data(S, nt, [(0, 0), (3, 1), (1, 2)] if fill is not None else [])
    t = S.choice("t", [0, 1]) if nt == 2 and where != "default" else 0
    sx, sy = (slice(1, 4), slice(0, 2)) if where == "part" else (slice(None), slice(None))
    xs, ys = list(range(NX))[sx], list(range(NY))[sy]
    with Files() as F:
        fn = F.path("a")
        make(S, fn, dims, h, mk, fill, nt)
        ind = {} if where in ("default", "call") else dict(time=t)
        if where == "part":
            ind.update(x=sx, y=sy)
        g = R(fn, "x", "y", centered=True, indexs=ind)
        S.check(S.And(list(g.x_c) == [XS[i] for i in xs], list(g.y_c) == [YS[j] for j in ys]), "coordinates")
        S.check(not g.is_circular(), "regional")
        v = g.grid("h", indexs=dict(time=t)) if where == "call" else g.grid("h")
        same(S, v, h, mk, t, xs, ys, "grid")
        same(S, g.grid("h"), h, mk, t, xs, ys, "grid asked again")
        M = g.get_mask(v)
        S.check(M.shape == v.shape, "shape of the mask")
        S.check(S.And([S.iff(M[a, b], mk[t][i][j]) for a, i in enumerate(xs) for b, j in enumerate(ys)]), "mask of the grid")
        if where == "default":
            i0, i1 = S.choice("sx", [(0, 2), (1, 4), (0, NX)])
            j0, j1 = S.choice("sy", [(0, 2), (1, 3)])
            same(S, g.grid_tiles("h", slice(i0, i1), slice(j0, j1)), h, mk, 0, list(range(i0, i1)), list(range(j0, j1)), "tile")
        S.check(g.units("h") == "cm", "units of the file")
        S.check(set(g.variables) == {"x", "y", "h"}, "variables of the file")
        g.clean()
        S.check(g.dimensions is None and not g.vars, "cleaned")
        g.populate()
        same(S, g.grid("h"), h, mk, t if where != "call" else 0, xs, ys, "grid loaded again")


def write(S, dims, first, part):
    """a grid written then read is the same, copies and changes included"""
    R = S.mod("dataset.grid").RegularGridDataset
    dims = DIMS[dims]
    nt = 2 if "time" in dims else 1
    h, mk = data(S, nt, [(1, 0), (2, 1)])
    t = S.choice("t", [0, 1]) if nt == 2 else 0
    sx, sy = (slice(1, 4), slice(0, 2)) if part else (slice(None), slice(None))
    xs, ys = list(range(NX))[sx], list(range(NY))[sy]
    with Files() as F:
        fn, out = F.path("a"), F.path("b")
        make(S, fn, dims, h, mk, -32000, nt)
        ind = dict(time=t)
        if part:
            ind.update(x=sx, y=sy)
        g = R(fn, "x", "y", centered=True, indexs=ind)
        if first == "grid":
            g.grid("h")
            g.copy("h", "k")
        elif first == "copy":
            g.copy("h", "k")
        elif first == "change":
            g.copy("h", "k")
            g.vars["h"] = g.vars["h"] * 2 + 1
        same(S, g.vars["k"], h, mk, t, xs, ys, "copy")
        g.write(out)
        n = R(out, "x", "y", centered=True)
        S.check(S.And([S.close(a, XS[i], 1e-9) for a, i in zip(n.x_c, xs)] + [len(n.x_c) == len(xs), len(n.y_c) == len(ys)] + [S.close(a, YS[j], 1e-6) for a, j in zip(n.y_c, ys)]), "coordinates written")
        h2 = [[[v * 2 + 1 if first == "change" else v for v in r] for r in q] for q in h]
        same(S, n.grid("k"), h, mk, t, xs, ys, "copy written")
        same(S, n.grid("h"), h2, mk, t, xs, ys, "grid written")
        S.check(n.units("h") == "cm" and n.units("k") == "cm", "units written")
        S.check(n.global_attrs.get("history") == "made for a check", "attributes written")
        S.check(set(n.variables) == {"x", "y", "h", "k"}, "variables written")


def nanmask(S, dims):
    """undefined values are masked on request"""
    R = S.mod("dataset.grid").RegularGridDataset
    dims = DIMS[dims]
    nan = float("nan")
    h, mk = data(S, 1, [])
    bad = S.concrete(S.int("bad", 0, NX * NY - 1))
    mk[0][bad % NX][bad // NX] = True
    h[0][bad % NX][bad // NX] = nan
    with Files() as F:
        fn = F.path("a")
        make(S, fn, dims, h, mk, None, 1)
        g = R(fn, "x", "y", centered=True, nan_masking=True)
        v = g.grid("h")
        same(S, v, h, mk, 0, range(NX), range(NY), "undefined values")


def speed(S, masked, back, factor):
    """speeds in degrees by step of time"""
    G = S.mod("dataset.grid").RegularGridDataset
    ys = [-60.0, 0.0, 45.0]
    u = [[S.int("u%d%d" % (i, j), -20, 20) for j in range(3)] for i in range(3)]
    v = [[S.int("v%d%d" % (i, j), -20, 20) for j in range(3)] for i in range(3)]
    mu = [[S.bool("mu%d%d" % (i, j)) if masked and i + j == 1 else False for j in range(3)] for i in range(3)]
    mv = [[S.bool("mv%d%d" % (i, j)) if masked and i + j in (1, 3) else False for j in range(3)] for i in range(3)]
    wrap = (lambda a, m: S.masked(S.arr(a, "f8"), S.arr(m, "?"))) if masked else (lambda a, m: S.masked(S.arr(a, "f8"), False))
    g = build(S, [5.0, 6.0, 7.0], ys, u=wrap(u, mu), v=wrap(v, mv))
    dt = S.choice("dt", [600, 86400])
    a, b, m = g.uv_for_advection("u", "v", time_step=dt, backward=back, factor=factor)
    k = dt * 180 / math.pi / g.EARTH_RADIUS * factor * (-1 if back else 1)
    for i in range(3):
        for j in range(3):
            bad = S.Or(mu[i][j], mv[i][j])
            S.check(S.iff(m[i, j], bad), "masked where one of the speeds is missing")
            # a masked value has no meaning
            S.check(S.Or(bad, S.And(S.close(a[i, j], u[i][j] * (k / math.cos(math.radians(ys[j]))), 1e-9), S.close(b[i, j], v[i][j] * k, 1e-9))), "degrees by step of time")
            S.check(S.And(g.vars["u"].data[i, j] == u[i][j], g.vars["v"].data[i, j] == v[i][j]), "speeds unchanged")


def regrid(S, dims):
    """values of another grid at the nodes of the grid"""
    R = S.mod("dataset.grid").RegularGridDataset
    dims = DIMS[dims]
    h, mk = data(S, 1, [(1, 1)], lo=-100, hi=100)
    with Files() as F:
        fn = F.path("a")
        make(S, fn, dims, h, mk, -32000, 1)
        o = R(fn, "x", "y", centered=True)
        # 9, 11, 13, 15, 17 by -2, -0.5
        xs, ys = [9.0, 11.0, 13.0, 14.5, 17.0], [-2.0, -0.5]
        g = build(S, xs, ys)
        name = S.choice("name", [None, "k"])
        g.regrid(o, "h", name)
        r = g.grid(name or "h")
        S.check(r.shape == (5, 2), "shape of the grid")
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                a, b = (x - 10) / 2, (y + 3) / 2
                i0, j0 = math.floor(a), math.floor(b)
                ex = S.Or(i0 < 0, i0 + 1 >= NX)
                if ex:
                    S.check(r.mask[i, j], "nothing out of the other grid")
                    continue
                bad = S.Or([mk[0][i0 + p][j0 + q] for p in (0, 1) for q in (0, 1)])
                ref = sum(h[0][i0 + p][j0 + q] * ((a - i0 if p else 1 - a + i0) * (b - j0 if q else 1 - b + j0)) for p in (0, 1) for q in (0, 1))
                S.check(S.iff(r.mask[i, j], bad), "missing exactly next to missing values")
                S.check(S.Or(bad, S.close(r.data[i, j], ref, 1e-6)), "interpolated value")


def cases(tier):
    q = tier == "quick"
    r = []
    for c in (True, False):
        s = "center" if c else "corner"
        r.append(("geom-%s" % s, geom, dict(n=4 if q else 6, m=3, centered=c)))
        for n, dx, w in ((4, 90, True), (3, 120, True), (8, 45, True), (7, 45, False), (3, 119.875, False), (5, 90, False)) + (() if q else ((12, 30, True), (11, 30, False), (16, 22.5, True))):
            r.append(("circular-%s-%dx%g" % (s, n, dx), circular, dict(n=n, dx=dx, whole=w, centered=c)))
    r += [("order-" + a, order, dict(axis=a)) for a in "xy"]
    r += [("seam-8", seam, dict(n=8, dx=45, whole=True)), ("seam-7", seam, dict(n=7, dx=45, whole=False))]
    for call in ("array", "tuple", "value"):
        r.append(("nearest-" + call, nearest, dict(n=8 if call == "array" else 5, m=3, dx=45 if call == "array" else 0.25, dy=2 if call == "array" else 0.25, call=call)))
    for d in DIMS:
        r.append(("load-%s-default" % d, load, dict(dims=d, where="default")))
        if "t" in d:
            r.append(("load-%s-call" % d, load, dict(dims=d, where="call")))
        r.append(("load-%s-part" % d, load, dict(dims=d, where="part")))
        if d in ("tyx", "xy") or not q:
            for first in ("grid", "copy", "change"):
                r.append(("write-%s-%s" % (d, first), write, dict(dims=d, first=first, part=False)))
        r.append(("write-%s-part" % d, write, dict(dims=d, first="change", part=True)))
    r.append(("load-plain", load, dict(dims="tyx", where="default", fill=None)))
    r += [("nan-" + d, nanmask, dict(dims=d)) for d in ("yx", "xy")]
    for mk in (True, False):
        for back, f in ((False, 1), (True, 2)):
            r.append(("speed%s%s" % ("-masked" if mk else "", "-back" if back else ""), speed, dict(masked=mk, back=back, factor=f)))
    r += [("regrid-" + d, regrid, dict(dims=d)) for d in ("yx", "xy")]
    return r
