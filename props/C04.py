"""Grid interpolation."""
PROPERTY = "C04"


def BOUNDS(tier):
    return "regular grids of up to 4x3 nodes (bounded in longitude and circular), every mask, integer node values in [-8, 8], up to 2 query points at quarter steps of the grid, up to one and a half cell outside of it; sequences of 3 (4 in the thorough tier) positions chosen among seven cells with two masks"


OUTSIDE = "larger grids and arbitrary real positions (float rounding is not modelled)"


def geom(circ):
    # x origin, x step, nx, y origin, y step, ny
    return (-90.0, 90.0, 4, -1.0, 0.5, 3) if circ else (3.0, 0.5, 3, -2.0, 0.25, 3)


def hat(S, d):
    a = S.If(d >= 0, d, -d)
    return S.If(a < 1, 1 - a, 0)


def bilinear(S, circ, n, symz, sub):
    x0, dx, nx, y0, dy, ny = geom(circ)
    xg = [x0 + dx * i for i in range(nx)]
    yg = [y0 + dy * j for j in range(ny)]
    if symz:
        z = [[S.int("z%d_%d" % (i, j), -8, 8) for j in range(ny)] for i in range(nx)]
    else:
        z = [[(7 * i * i + 3 * i * j + 5 * j * j) % 11 for j in range(ny)] for i in range(nx)]
    m = [[S.bool("m%d_%d" % (i, j)) for j in range(ny)] for i in range(nx)]
    lim = ((-nx, 2 * nx) if n == 1 else (-1.5, nx + 1.5)) if circ else (-1.5, nx + 0.5)
    px = [S.fx("px%d" % k, lim[0], lim[1], sub) for k in range(n)]
    py = [S.fx("py%d" % k, -1.5, ny + 0.5, sub) for k in range(n)]
    if symz:
        px = [S.concrete(p * sub) / sub for p in px]
        py = [S.concrete(p * sub) / sub for p in py]
    G = S.mod("generic")
    q = G.interp2d_geo(
        S.arr(xg, "f8"), S.arr(yg, "f8"), S.arr(z, "f8"), S.arr(m, "?"),
        S.arr([x0 + p * dx for p in px], "f8"), S.arr([y0 + p * dy for p in py], "f8"))
    S.check(len(q) == n, "one value per position")
    S.out("q", q)
    for k in range(n):
        i, j = S.concrete(S.floor(px[k])), S.concrete(S.floor(py[k]))
        out = j < 0 or j >= ny - 1 or (not circ and (i < 0 or i >= nx - 1))
        if out:
            S.check(S.isnan(q[k]), "no value outside of the grid")
            continue
        ii = [i % nx, (i + 1) % nx]
        bad = S.Or([m[a][b] for a in ii for b in (j, j + 1)])
        if S.isnan(q[k]):
            S.check(bad, "a value wherever the four surrounding nodes are valid")
            continue
        S.check(S.Not(bad), "no value next to a masked node")
        fx, fy = px[k] - i, py[k] - j
        e = 0
        for a, wa in ((0, 1 - fx), (1, fx)):
            for b, wb in ((0, 1 - fy), (1, fy)):
                e = e + z[ii[a]][j + b] * 1.0 * wa * wb
        S.check(S.eqf(q[k], e), "bilinear value of the four surrounding nodes")


def sequence(S, n, circ):
    """Several positions one after the other, each in one of a few cells: a value never depends on the positions before"""
    nx, ny = 4, 3
    x0, dx, y0, dy = (-90.0, 90.0, -1.0, 0.5) if circ else (3.0, 0.5, -1.0, 0.5)
    z = [[float((7 * i * i + 3 * i * j + 5 * j * j) % 11) for j in range(ny)] for i in range(nx)]
    m = [[False] * ny for _ in range(nx)]
    m[1][0], m[2][2] = S.bool("m0"), S.bool("m1")
    # cells (0, 0) and (1, 0) use the first node, cells (1, 1) and (2, 1) the second one
    pos = [(0.25, 0.5), (2.5, 0.25), (1.25, 1.75), (-0.5, 0.5), (2.75, 2.5), (0.75, 1.5), (6.5, 0.75)]
    k = [S.choice("k%d" % i, list(range(len(pos)))) for i in range(n)]
    G = S.mod("generic")
    q = G.interp2d_geo(
        S.arr([x0 + dx * i for i in range(nx)], "f8"), S.arr([y0 + dy * j for j in range(ny)], "f8"), S.arr(z, "f8"), S.arr(m, "?"),
        S.arr([x0 + pos[i][0] * dx for i in k], "f8"), S.arr([y0 + pos[i][1] * dy for i in k], "f8"))
    S.out("q", q)
    for r, ik in enumerate(k):
        px, py = pos[ik]
        i, j = int(px // 1), int(py // 1)
        if j < 0 or j >= ny - 1 or (not circ and (i < 0 or i >= nx - 1)):
            S.check(S.isnan(q[r]), "no value outside of the grid whatever the positions before")
            continue
        ii = [i % nx, (i + 1) % nx]
        if S.Or([m[a][b] for a in ii for b in (j, j + 1)]):
            S.check(S.isnan(q[r]), "no value next to a masked node whatever the positions before")
            continue
        fx, fy = px - i, py - j
        e = sum(z[ii[a]][j + b] * (fx if a else 1 - fx) * (fy if b else 1 - fy) for a in (0, 1) for b in (0, 1))
        S.check(S.And(S.Not(S.isnan(q[r])), S.close(q[r], e, 1e-9)), "same value whatever the positions before")


def nearest(S, circ, n):
    x0, dx, nx, y0, dy, ny = geom(circ)
    xg = [x0 + dx * i for i in range(nx)]
    yg = [y0 + dy * j for j in range(ny)]
    z = [[S.int("z%d_%d" % (i, j), -8, 8) for j in range(ny)] for i in range(nx)]
    m = [[S.bool("m%d_%d" % (i, j)) for j in range(ny)] for i in range(nx)]
    lim = (-nx, 2 * nx) if circ else (-1.25, nx + 0.25)
    px = [S.fx("px%d" % k, lim[0], lim[1], 8) for k in range(n)]
    py = [S.fx("py%d" % k, -1.25, ny + 0.25, 8) for k in range(n)]
    for p in px + py:  # ties between two nodes are left open
        S.assume(S.Or(p * 2 != S.floor(p * 2) * 1.0, p == S.floor(p) * 1.0))
    G = S.mod("generic")
    q = G.interp2d_geo(
        S.arr(xg, "f8"), S.arr(yg, "f8"), S.arr(z, "f8"), S.arr(m, "?"),
        S.arr([x0 + p * dx for p in px], "f8"), S.arr([y0 + p * dy for p in py], "f8"), True)
    S.out("q", q)
    for k in range(n):
        i, j = S.concrete(S.floor(px[k] + 0.5)), S.concrete(S.floor(py[k] + 0.5))
        if j < 0 or j >= ny or (not circ and (i < 0 or i >= nx)):
            S.check(S.isnan(q[k]), "no value outside of the grid")
        elif S.isnan(q[k]):
            S.check(m[i % nx][j], "a value wherever the nearest node is valid")
        else:
            S.check(S.Not(m[i % nx][j]), "no value from a masked node")
            S.check(S.eqf(q[k], z[i % nx][j]), "value of the nearest node")


def cases(tier):
    r = []
    for circ in (False, True):
        s = "circ" if circ else "reg"
        r.append(("bilinear_%s_1" % s, bilinear, dict(circ=circ, n=1, symz=True, sub=2 if circ else 4)))
        r.append(("bilinear_%s_2" % s, bilinear, dict(circ=circ, n=2, symz=False, sub=2 if circ else 4)))
        r.append(("nearest_%s" % s, nearest, dict(circ=circ, n=1)))
        r.append(("sequence_%s" % s, sequence, dict(n=3 if tier == "quick" else 4, circ=circ)))
    if tier != "quick":
        r.append(("bilinear_reg_3", bilinear, dict(circ=False, n=3, symz=False, sub=4)))
        r.append(("nearest_reg_2", nearest, dict(circ=False, n=2)))
    return r
