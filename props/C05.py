"""Particle advection on one grid."""
PROPERTY = "C05"


def BOUNDS(tier):
    return "grids of 4x4 (circular) and 4x3 nodes, every mask; one Euler step from any position on a quarter cell grid (up to one cell outside), one fourth order step from every half cell position, up to 3 steps of 2 particles in any uniform current of at most 0.75 cell per step"


OUTSIDE = "larger grids, longer runs, float rounding of positions off the dyadic grid, currents varying in space over several steps"


def geom(circ):
    return (-90.0, 90.0, 4, -1.0, 0.5, 3) if circ else (3.0, 0.5, 4, -2.0, 0.25, 3)


def nodes(S, circ, m, i, j):
    """the four nodes around a cell, None when outside"""
    nx, ny = len(m), len(m[0])
    if j < 0 or j + 1 >= ny or (not circ and (i < 0 or i + 1 >= nx)):
        return None
    return [(i % nx, j), (i % nx, j + 1), ((i + 1) % nx, j), ((i + 1) % nx, j + 1)]


def value(S, circ, m, f, px, py):
    """velocity expected at a position in cells; None when not defined"""
    i, j = S.concrete(S.floor(px)), S.concrete(S.floor(py))
    c = nodes(S, circ, m, i, j)
    if c is None or bool(S.Or([m[a][b] for a, b in c])):
        return None
    fx, fy = px - i, py - j
    w = ((1 - fx) * (1 - fy), (1 - fx) * fy, fx * (1 - fy), fx * fy)
    r = []
    for g in f:
        e = 0
        for (a, b), k in zip(c, w):
            e = e + k * g[a][b]
        r.append(e)
    return r


def setup(S, circ, symmask=True):
    x0, dx, nx, y0, dy, ny = geom(circ)
    m = [[S.bool("m%d_%d" % (i, j)) if symmask else False for j in range(ny)] for i in range(nx)]
    return x0, dx, nx, y0, dy, ny, m


def run(S, fn, circ, u, v, m, px, py, mask, nb):
    x0, dx, nx, y0, dy, ny = geom(circ)
    G = S.mod("dataset.grid")
    x = S.arr([x0 + p * dx for p in px], "f8")
    y = S.arr([y0 + p * dy for p in py], "f8")
    mk = S.arr(mask, "?")
    getattr(G, fn)(
        S.arr([x0 + dx * i for i in range(nx)], "f8"), S.arr([y0 + dy * j for j in range(ny)], "f8"),
        S.arr([[c * dx for c in l] for l in u], "f8"), S.arr([[c * dy for c in l] for l in v], "f8"),
        S.arr(m, "?"), x, y, mk, nb)
    return x, y, mk


def verify(S, x, y, mk, k, e, circ):
    """e: expected position in cells or None"""
    x0, dx, nx, y0, dy, ny = geom(circ)
    if e is None:
        S.check(S.And(S.isnan(x[k]), S.isnan(y[k]), mk[k]), "a particle without valid currents around it is dropped")
    else:
        S.check(S.Not(mk[k]), "a particle with valid currents around it is kept")
        S.check(S.Not(S.Or(S.isnan(x[k]), S.isnan(y[k]))), "kept particles have a position")
        S.check(S.And(S.close(x[k], x0 + e[0] * dx, 1e-6), S.close(y[k], y0 + e[1] * dy, 1e-6)), "moved by the interpolated currents")


def uv(nx, ny):
    u = [[((3 * i + 5 * j) % 7 - 3) / 8 for j in range(ny)] for i in range(nx)]
    v = [[((5 * i + 2 * j) % 7 - 3) / 8 for j in range(ny)] for i in range(nx)]
    return u, v


def euler(S, circ):
    x0, dx, nx, y0, dy, ny, m = setup(S, circ)
    u, v = uv(nx, ny)
    px = S.fx("px", -1, nx, 4)
    py = S.fx("py", -1, ny, 4)
    x, y, mk = run(S, "advect", circ, u, v, m, [px], [py], [False], 1)
    d = value(S, circ, m, (u, v), px, py)
    verify(S, x, y, mk, 0, None if d is None else (px + d[0], py + d[1]), circ)


def rk4(S, circ, sub, nb):
    x0, dx, nx, y0, dy, ny, m = setup(S, circ)
    u, v = uv(nx, ny)
    px = S.concrete(S.int("px", -sub, nx * sub)) / sub
    py = S.concrete(S.int("py", -sub, ny * sub)) / sub
    x, y, mk = run(S, "advect_rk4", circ, u, v, m, [px], [py], [False], nb)
    p = (px, py)
    for _ in range(nb):
        p = rk4_ref(S, circ, m, (u, v), p)
        if p is None:
            break
    verify(S, x, y, mk, 0, p, circ)


def rk4_ref(S, circ, m, f, p):
    k1 = value(S, circ, m, f, *p)
    if k1 is None:
        return None
    k2 = value(S, circ, m, f, p[0] + k1[0] / 2, p[1] + k1[1] / 2)
    if k2 is None:
        return None
    k3 = value(S, circ, m, f, p[0] + k2[0] / 2, p[1] + k2[1] / 2)
    if k3 is None:
        return None
    k4 = value(S, circ, m, f, p[0] + k3[0], p[1] + k3[1])
    if k4 is None:
        return None
    return tuple(p[q] + (k1[q] + 2 * k2[q] + 2 * k3[q] + k4[q]) / 6 for q in (0, 1))


def uniform(S, circ, fn, nb, npart):
    x0, dx, nx, y0, dy, ny, m = setup(S, circ)
    if npart == 1:
        cu, cv = S.concrete(S.int("u", -3, 3)) / 4, S.concrete(S.int("v", -3, 3)) / 4
    else:
        cu, cv = S.choice("c", [(0.5, -0.75), (-1.0, 0.25)])
    u = [[cu] * ny for _ in range(nx)]
    v = [[cv] * ny for _ in range(nx)]
    px = [S.concrete(S.int("px%d" % k, 0, 4)) / 2 for k in range(npart)]
    py = [S.concrete(S.int("py%d" % k, 0, 4)) / 2 for k in range(npart)]
    dead = [S.bool("dead%d" % k) for k in range(npart)]
    x, y, mk = run(S, fn, circ, u, v, m, px, py, dead, nb)
    for k in range(npart):
        if dead[k]:
            S.check(S.And(S.close(x[k], x0 + px[k] * dx), S.close(y[k], y0 + py[k] * dy), mk[k]), "masked particles do not move")
            continue
        p = (px[k], py[k])
        for _ in range(nb):
            if fn == "advect":
                d = value(S, circ, m, (u, v), *p)
                p = None if d is None else (p[0] + d[0], p[1] + d[1])
            else:
                p = rk4_ref(S, circ, m, (u, v), p)
            if p is None:
                break
        verify(S, x, y, mk, k, p, circ)


def cases(tier):
    q = tier == "quick"
    r = []
    for circ in (False, True):
        s = "circ" if circ else "reg"
        r.append(("euler_" + s, euler, dict(circ=circ)))
        r.append(("rk4_" + s, rk4, dict(circ=circ, sub=2 if q else 4, nb=1)))
        r.append(("uniform_euler_" + s, uniform, dict(circ=circ, fn="advect", nb=2 if q else 3, npart=1)))
        r.append(("uniform_rk4_" + s, uniform, dict(circ=circ, fn="advect_rk4", nb=2 if q else 3, npart=1)))
    r.append(("pair_euler", uniform, dict(circ=False, fn="advect", nb=1, npart=2)))
    r.append(("pair_rk4", uniform, dict(circ=False, fn="advect_rk4", nb=1, npart=2)))
    if not q:
        r.append(("rk4_2steps", rk4, dict(circ=False, sub=2, nb=2)))
    return r
