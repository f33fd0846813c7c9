"""Pixels in a contour."""
from props.geo import fan_winding, general

PROPERTY = "C07"


def BOUNDS(tier):
    return "global grid of 12 columns and regional grid of 8 columns, 6 rows; four contour shapes placed anywhere on a quarter pixel grid (crossing the edge of a global grid, touching the first and last rows), one free vertex, window margin of 1 to 3 pixels"


OUTSIDE = "contours lying a whole turn away from the grid, contours wider than the grid minus the margin, contours leaving a regional grid eastward or westward, pixels exactly on the contour"
SHAPES = {
    "tri": [(0.0, 0.0), (2.5, 0.5), (1.0, 2.25)],
    "square": [(0.0, 0.0), (0.0, 2.0), (2.25, 2.0), (2.25, 0.0)],
    "concave": [(0.0, 0.0), (3.5, 0.0), (3.5, 3.0), (1.75, 0.75), (0.0, 3.0)],
    "small": [(0.0, 0.0), (0.75, 0.0), (0.75, 0.75), (0.0, 0.75)],
}


def pixels(S, circ, shape, N, turn):
    G, P = S.mod("generic"), S.mod("poly")
    nx, ny = (12, 6) if circ else (8, 6)
    step = 30.0 if circ else 0.5
    ystep = 0.25
    x0, y0 = (0.0, -1.0) if circ else (10.0, -1.0)  # western and southern bounds
    ox = S.concrete(S.int("ox", 0, 4 * nx - 1 if circ else 4 * nx)) / 4
    oy = S.concrete(S.int("oy", -6, 4 * ny + 2)) / 4
    base = [(a + ox, b + oy) for a, b in SHAPES[shape]]
    if not circ:
        S.assume(all(0 <= a <= nx for a, _ in base))
    # a contour given with another turn has to reach the longitudes of the grid
    S.assume(turn == 0 or max(a for a, _ in base) > nx)
    v = [((x0 + a * step) + turn, y0 + b * ystep) for a, b in base]
    vert = S.arr(v + v[:1], "f8")
    xc = [x0 + (i + 0.5) * step for i in range(nx)]
    yc = [y0 + (j + 0.5) * ystep for j in range(ny)]
    xb = S.arr([x0 + i * step for i in range(nx + 1)], "f8")
    yb = S.arr([y0 + j * ystep for j in range(ny + 1)], "f8")
    (xa, xo), (ya, yo) = G.bbox_indice_regular(vert, xb, yb, step, ystep, N, circ, nx)
    i_x, i_y = P.get_pixel_in_regular(vert, S.arr(xc, "f8"), S.arr(yc, "f8"), xa, xo, ya, yo)
    got = [(S.concrete(i_x[k]), S.concrete(i_y[k])) for k in range(len(i_x))]
    S.out("got", got)
    S.check(len(set(got)) == len(got), "no pixel twice")
    S.check(all(0 <= i < nx and 0 <= j < ny for i, j in got), "pixels belong to the grid")
    for i in range(nx):
        for j in range(ny):
            cand = [(i + 0.5 + s, j + 0.5) for s in ((-nx, 0, nx) if circ else (0,))]
            if all(general(S, base, p) for p in cand):
                exp = any(fan_winding(S, base, p) != 0 for p in cand)
                S.check(((i, j) in got) == exp, "exactly the pixels whose centre is inside the contour")


def free(S, circ):
    """one free vertex: the solver moves it anywhere"""
    G, P = S.mod("generic"), S.mod("poly")
    nx, ny, step, ystep = (12, 6, 30.0, 0.25) if circ else (8, 6, 0.5, 0.25)
    x0, y0 = (0.0, -1.0) if circ else (10.0, -1.0)
    ox = 10.0 if circ else 2.0
    fx, fy = S.fx("fx", 0, 4, 4), S.fx("fy", 0, 5, 4)
    base = [(ox, 1.25), (ox + 3.25, 1.5), (ox + fx, fy)]
    xc = [x0 + (i + 0.5) * step for i in range(nx)]
    yc = [y0 + (j + 0.5) * ystep for j in range(ny)]
    v = [(x0 + a * step, y0 + b * ystep) for a, b in base]
    vert = S.arr(v + v[:1], "f8")
    xb = S.arr([x0 + i * step for i in range(nx + 1)], "f8")
    yb = S.arr([y0 + j * ystep for j in range(ny + 1)], "f8")
    (xa, xo), (ya, yo) = G.bbox_indice_regular(vert, xb, yb, step, ystep, 1, circ, nx)
    i_x, i_y = P.get_pixel_in_regular(vert, S.arr(xc, "f8"), S.arr(yc, "f8"), S.concrete(xa), S.concrete(xo), S.concrete(ya), S.concrete(yo))
    got = [(S.concrete(i_x[k]), S.concrete(i_y[k])) for k in range(len(i_x))]
    for i in range(nx):
        for j in range(ny):
            cand = [(i + 0.5 + s, j + 0.5) for s in ((0, nx) if circ else (0,))]
            g = S.And([general(S, base, p) for p in cand])
            e = S.Or([fan_winding(S, base, p) != 0 for p in cand])
            S.check(S.implies(g, e if (i, j) in got else S.Not(e)), "exactly the pixels whose centre is inside the contour")


def cases(tier):
    r = []
    for s in SHAPES:
        for circ in (True, False):
            for N in (1, 2) if tier == "quick" else (1, 2, 3):
                r.append(("%s_%s_N%d" % (s, "circ" if circ else "reg", N), pixels, dict(circ=circ, shape=s, N=N, turn=0)))
        r.append(("%s_turn" % s, pixels, dict(circ=True, shape=s, N=1, turn=-360)))
    r += [("free_circ", free, dict(circ=True)), ("free_reg", free, dict(circ=False))]
    return r
