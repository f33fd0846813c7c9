"""Series of grids, paths and filaments of particles."""
from props import C33, C38

PROPERTY = "C41"
MODELS = C38.MODELS


def BOUNDS(tier):
    return (
        "series of 5 daily grids, uniform symbolic currents per grid, a node possibly masked, 3 particles, %d releases of 1 or 2 steps or 2 of 6 steps which go through dates of grids, filaments of 1 to 3 positions, forward and backward, "
        "Euler and fourth order; series of 2 to 3 dates read from one or several files of 4x3 nodes with any value and missing ones" % (3 if tier == "quick" else 5)
    )


OUTSIDE = "currents varying in space (C05), larger series"
ASSUMPTIONS = ["for particles, currents of a grid per step are symbolic (their computation is decided by C05)"]


def series(S, n=5):
    G = S.mod("dataset.grid")
    u = [S.int("u%d" % k, -3, 3) for k in range(n)]
    v = [S.int("v%d" % k, -3, 3) for k in range(n)]
    m = [S.bool("m%d" % k) if k in (1, 2) else False for k in range(n)]

    def make():
        c = G.GridCollection()
        for k in range(n):
            c.datasets.append((k, C33.grid(S, uv=(u[k] / 64.0, v[k] / 64.0, m[k]))))
        return c

    return make


PX, PY = [3.25, 3.75, float("nan")], [-1.875, -1.625, float("nan")]


def start(S):
    return S.arr(PX, "f8"), S.arr(PY, "f8")


def eq(S, a, b):
    if bool(S.isnan(a)) or bool(S.isnan(b)):
        return bool(S.isnan(a)) and bool(S.isnan(b))
    return S.close(a, b, 1e-5)


def path(S, rk4, back, nb, pos, nrel):
    make = series(S)
    t0 = 3 if back else 1
    kw = dict(nb_step=nb, time_step=21600 * (2 if nb == 1 else 1), rk4=rk4, backward=back)
    x0, y0 = start(S)
    t, x, y = make().path(x0, y0, t0, nb_time=nrel, **kw) if pos else make().path(x0, y0, t_init=t0, nb_time=nrel, **kw)
    S.check(t.shape == (nrel + 1,) and x.shape == (nrel + 1, 3) and y.shape == (nrel + 1, 3), "one row by date")
    a, b = start(S)
    S.check(S.And([eq(S, x0[k], PX[k]) for k in range(3)] + [eq(S, y0[k], PY[k]) for k in range(3)]), "first positions given are not changed")
    S.check(S.close(t[0], t0 * 86400, 1e-3), "first date, in seconds like the others")
    S.check(S.And([S.And(eq(S, x[0, k], a[k]), eq(S, y[0, k], b[k])) for k in range(3)]), "starts at first positions")
    gen = make().advect(a, b, t0, **kw)
    for i in range(nrel):
        tt, xx, yy = next(gen)
        S.check(S.And(S.close(t[i + 1], tt, 1e-3), S.close(tt, (t0 + (i + 1) * (-0.5 if back else 0.5)) * 86400, 1e-3)), "date of each release")
        S.check(S.And([S.And(eq(S, x[i + 1, k], xx[k]), eq(S, y[i + 1, k], yy[k])) for k in range(3)]), "positions of each release")


def filament(S, rk4, back, nb, size, one, nrel):
    """newest position first, then older ones, an empty place between particles"""
    make = series(S)
    t0 = 3 if back else 1
    x0, y0 = start(S)
    a, b = start(S)
    if one:
        # a single grid
        R = S.mod("dataset.grid").RegularGridDataset
        u, v = S.choice("uv", [(0, 0), (3, 0), (-3, 2), (1, -3), (-1, -1), (-3, -3), (2, 3)])
        mk = S.bool("m")
        n = 5
        h = dict(x=S.arr([3.0 + 0.5 * i for i in range(n)], "f8"), y=S.arr([-2.0 + 0.25 * j for j in range(n)], "f8"))
        g = R.with_array(("x", "y"), h)
        du = S.masked(S.arr([[u * 16.0] * n for _ in range(n)], "f8"), S.arr([[mk if i == j == 0 else False for j in range(n)] for i in range(n)], "?"))
        dv = S.masked(S.arr([[v * 8.0] * n for _ in range(n)], "f8"), S.arr([[False] * n for i in range(n)], "?"))
        f = g.filament(x0, y0, du, dv, nb_step=nb, filament_size=size, rk4=rk4, backward=back)
        gen = g.advect(a, b, du, dv, nb_step=nb, rk4=rk4, backward=back)
    else:
        kw = dict(nb_step=nb, time_step=21600 * (2 if nb == 1 else 1), rk4=rk4, backward=back)
        f = make().filament(x0, y0, "u", "v", t0, filament_size=size, **kw)
        gen = make().advect(a, b, t0, **kw)
    old = [[(PX[k], PY[k])] for k in range(3)]
    for i in range(nrel):
        r = next(gen)
        q = next(f)
        if not one:
            S.check(S.close(q[0], r[0], 1e-3), "date of each release")
        fx, fy, xx, yy = q[-2], q[-1], r[-2], r[-1]
        S.check(len(fx) == 3 * (size + 1) == len(fy), "length of the line")
        for k in range(3):
            old[k].insert(0, (xx[k], yy[k]))
            for p in range(size + 1):
                e = old[k][p] if p < min(size, len(old[k])) else (float("nan"),) * 2
                S.check(S.And(eq(S, fx[k * (size + 1) + p], e[0]), eq(S, fy[k * (size + 1) + p], e[1])), "last positions of each particle, newest first")
    S.check(S.And([eq(S, x0[k], PX[k]) for k in range(3)] + [eq(S, y0[k], PY[k]) for k in range(3)]), "first positions given are not changed")


def read(S, kind):
    """every date gives its own grid"""
    C = S.mod("dataset.grid").GridCollection
    h, mk = C38.data(S, 3, [(0, 0), (2, 1)])
    nx, ny = list(range(C38.NX)), list(range(C38.NY))
    dims = C38.DIMS["tyx"]
    with C38.Files() as F:
        fs = [F.path("f%d" % k) for k in range(3)]
        if kind == "cube":
            fn = F.path("cube")
            ts = [20, 21, 25]
            C38.make(S, fn, dims, h, mk, -32000, 3, times=ts)
            c = C.from_netcdf_cube(fn, "x", "y", "time", centered=True)
            nb = 3
        else:
            ts = [20, 21, 22]
            for k in range(3):
                C38.make(S, fs[k], dims, [h[k]], [mk[k]], -32000, 1)
            nb = 2
            c = C.from_netcdf_list(fs[:2], ts[:2], "x", "y", indexs=dict(time=0), centered=True)
        S.check(list(c.time) == ts[:nb], "dates")
        S.check(tuple(c.period) == (ts[0], ts[nb - 1]), "period")
        S.check(len(list(c)) == nb and all(a is b for a, (_, b) in zip(c, c.datasets)), "grids in order")
        order = [1, 0] if nb == 2 else [2, 0, 1]
        for k in order:
            C38.same(S, c[ts[k]].grid("h"), h, mk, k, nx, ny, "grid of its date")
        try:
            c[ts[nb - 1] + 1]
            S.check(False, "unknown date is refused")
        except KeyError:
            pass
        S.check([bool(v) for v in c.are_loaded] == [True] * nb, "grids loaded")
        n = S.choice("n", [None, 0, 1, nb])
        c.reset_grids(n)
        S.check([bool(v) for v in c.are_loaded] == [n is None or nb <= n] * nb, "grids are removed from memory when there are too many of them")
        S.check(repr(c) == "%d/%d datasets loaded" % (nb if n is None or nb <= n else 0, nb), "number of grids loaded")
        C38.same(S, c[ts[0]].grid("h"), h, mk, 0, nx, ny, "grid loaded again")
        if kind == "list":
            c.shift_files(ts[2], fs[2], x_name="x", y_name="y", indexs=dict(time=0), centered=True)
            S.check(list(c.time) == ts[1:], "oldest date is replaced by the new one")
            for k in (2, 1):
                C38.same(S, c[ts[k]].grid("h"), h, mk, k, nx, ny, "grid of its date after a shift")


def cases(tier):
    r = []
    nrel = 3 if tier == "quick" else 4
    for rk4 in (False, True):
        for back in (False, True):
            s = ("rk4" if rk4 else "euler") + ("_back" if back else "")
            for nb in (1, 2):
                if tier == "quick" and rk4 and nb == 2:
                    continue
                r.append(("path_%s_%d" % (s, nb), path, dict(rk4=rk4, back=back, nb=nb, pos=nb == 1, nrel=nrel)))
                for one in (False, True):
                    r.append(("filament_%s_%d%s" % (s, nb, "_one" if one else ""), filament, dict(rk4=rk4, back=back, nb=nb, size=3 if nb == 2 else (2 if one else 1), one=one, nrel=nrel)))
    for back in (False, True):
        r.append(("filament_long" + ("_back" if back else ""), filament, dict(rk4=False, back=back, nb=6, size=2, one=False, nrel=2)))
    for kind in ("cube", "list"):
        r.append(("read_%s" % kind, read, dict(kind=kind)))
    return r
