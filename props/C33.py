"""Time interpolation in a series of grids."""
PROPERTY = "C33"


def BOUNDS(tier):
    return "series of 4 daily grids of 4x3 nodes, uniform symbolic currents per grid (multiples in [-3, 3] of 1/64 of a cell), forward and backward, Euler and fourth order, up to %d releases of 2 to 10 steps of 6 to 24 hours which go through up to 3 dates; time interpolation at any quarter day" % (3 if tier == "quick" else 5)


OUTSIDE = "currents varying in space (covered for one grid by C05), steps of fourth order which go through the date of a grid, start times before the first grid"
ASSUMPTIONS = ["currents of a grid per step are symbolic (their computation is decided by C05)"]


def grid(S, h=None, mask=None, uv=None, nx=4, ny=3):
    """real grid, with its currents per step given if uv"""
    if h is None:
        h, mask = [[0] * ny] * nx, [[False] * ny] * nx

    def uv_for_advection(self, *a, time_step=600, backward=False, **k):
        s = -1 if backward else 1
        u, v, m = uv
        return (
            S.arr([[u * s * 0.5] * ny for _ in range(nx)], "f8"),
            S.arr([[v * s * 0.25] * ny for _ in range(nx)], "f8"),
            S.arr([[m if (i, j) == (0, 0) else False for j in range(ny)] for i in range(nx)], "?"),
        )

    extra = dict(populate=lambda self: True, clean=lambda self: None)
    if uv is not None:
        extra["uv_for_advection"] = uv_for_advection
    cls = type("Grid", (S.mod("dataset.grid").RegularGridDataset,), extra)
    return cls.with_array(("x", "y"), dict(
        x=S.arr([3.0 + 0.5 * i for i in range(nx)], "f8"),
        y=S.arr([-2.0 + 0.25 * j for j in range(ny)], "f8"),
        h=S.masked(S.arr(h, "f8"), S.arr(mask, "?")),
    ), variables_description=dict(h=dict(units="m")))


def advect(S, rk4, back, nrel, hours, t0, nb=2):
    G = S.mod("dataset.grid")
    u = [S.int("u%d" % k, -3, 3) for k in range(5)]
    v = [S.int("v%d" % k, -3, 3) for k in range(5)]
    mk = [S.bool("m%d" % k) for k in range(5)]
    c = G.GridCollection()
    for k in range(5):
        c.datasets.append((k, grid(S, uv=(u[k] / 64.0, v[k] / 64.0, mk[k]))))
    # one particle in the cell touching the possibly masked node, one far from it, one already lost
    far = (1.5, 1.5)
    near = (0.5, 0.5)
    px = [near[0], far[0]]
    py = [near[1], far[1]]
    nan = float("nan")
    x = S.arr([3.0 + 0.5 * p for p in px] + [nan], "f8")
    y = S.arr([-2.0 + 0.25 * p for p in py] + [nan], "f8")
    gen = c.advect(x, y, t0, nb_step=nb, time_step=hours * 3600, rk4=rk4, backward=back)
    s = -1 if back else 1

    def at(f, t):
        k = int(t // 1)
        w = t - k
        return f[k] if w == 0 else f[k] * (1 - w) + f[k + 1] * w

    t = t0 * 1.0
    pos = [[px[0], py[0]], [px[1], py[1]]]
    alive = [True, True]
    d = hours / 24.0
    for r in range(nrel):
        tt, xx, yy = next(gen)
        for _ in range(nb):
            a = int(t // 1) if not back else int(-((-t) // 1)) - 1
            b = a + 1
            if alive[0] and bool(S.Or(mk[a], mk[b])):
                alive[0] = False
            for q, f in ((0, u), (1, v)):
                if rk4:
                    dv = (at(f, t) + 4 * at(f, t + s * d / 2) + at(f, t + s * d)) / 6
                else:
                    dv = at(f, t)
                for p in pos:
                    p[q] = p[q] + s * dv / 64.0
            t += s * d
        S.check(S.close(tt, t * 86400, 1e-3), "time of the release")
        for k in range(2):
            if not alive[k]:
                S.check(S.And(S.isnan(xx[k]), S.isnan(yy[k])), "a particle next to a node masked at either time is dropped")
            else:
                S.check(S.Not(S.Or(S.isnan(xx[k]), S.isnan(yy[k]))), "other particles are kept")
                S.check(S.And(S.close(xx[k], 3.0 + 0.5 * pos[k][0], 1e-6), S.close(yy[k], -2.0 + 0.25 * pos[k][1], 1e-6)), "moved by the currents interpolated in time")
        S.check(S.And(S.isnan(xx[2]), S.isnan(yy[2])), "lost particles stay lost")


def interp(S, method):
    G = S.mod("dataset.grid")
    z = [[[S.int("z%d_%d%d" % (k, i, j), -8, 8) for j in range(3)] for i in range(3)] for k in range(2)]
    m = [[[S.bool("m%d_%d%d" % (k, i, j)) for j in range(3)] for i in range(3)] for k in range(2)]
    c = G.GridCollection()
    for k in range(2):
        c.datasets.append((k + 3, grid(S, z[k], m[k], nx=3, ny=3)))
    w = S.concrete(S.int("t", 0, 3)) / 4
    sub = 2 if method == "bilinear" else 4
    fx, fy = S.concrete(S.int("x", 0, sub * 2 - 1)) / sub, S.concrete(S.int("y", 0, sub * 2 - 1)) / sub
    S.assume(method == "bilinear" or (fx % 1 != 0.5 and fy % 1 != 0.5))
    v = c.interp("h", 3 + w, S.arr([3.0 + 0.5 * fx], "f8"), S.arr([-2.0 + 0.25 * fy], "f8"), method=method)[0]
    i, j = (int(fx), int(fy)) if method == "bilinear" else (round(fx), round(fy))
    a, b = fx - i, fy - j
    e, bad = 0, False
    for k, wk in ((0, 1 - w), (1, w)):
        if method == "bilinear":
            for di, wi in ((0, 1 - a), (1, a)):
                for dj, wj in ((0, 1 - b), (1, b)):
                    e = e + z[k][i + di][j + dj] * (wk * wi * wj)
                    bad = S.Or(bad, m[k][i + di][j + dj])
        else:
            e = e + z[k][i][j] * wk
            bad = S.Or(bad, m[k][i][j])
    if S.isnan(v):
        S.check(bad, "a value wherever both grids are valid")
    else:
        S.check(S.Not(bad), "no value where one of the grids is masked")
        S.check(S.close(v, e, 1e-6), "linear in time between the two grids")


def cases(tier):
    nrel = 3 if tier == "quick" else 5
    r = []
    for rk4 in (False, True):
        for back in (False, True):
            s = ("rk4" if rk4 else "euler") + ("_back" if back else "")
            r.append((s + "_12h", advect, dict(rk4=rk4, back=back, nrel=min(nrel, 3), hours=12, t0=3 if back else 1)))
            r.append((s + "_6h", advect, dict(rk4=rk4, back=back, nrel=nrel, hours=6, t0=4 if back else 0)))
    r.append(("euler_between", advect, dict(rk4=False, back=False, nrel=3, hours=6, t0=0.5)))
    r.append(("rk4_back_between", advect, dict(rk4=True, back=True, nrel=3, hours=6, t0=3.5)))
    for back in (False, True):
        s = "_back" if back else ""
        # releases which go through dates of grids
        r.append(("euler_18h" + s, advect, dict(rk4=False, back=back, nrel=2, hours=18, t0=3.5 if back else 0.5)))
        r.append(("euler_6h_long" + s, advect, dict(rk4=False, back=back, nrel=1, hours=6, t0=3.5 if back else 0.5, nb=10)))
        r.append(("rk4_24h" + s, advect, dict(rk4=True, back=back, nrel=2, hours=24, t0=4 if back else 0)))
        r.append(("rk4_12h_long" + s, advect, dict(rk4=True, back=back, nrel=1, hours=12, t0=4 if back else 0, nb=5)))
    r.append(("interp_bilinear", interp, dict(method="bilinear")))
    r.append(("interp_nearest", interp, dict(method="nearest")))
    return r
