"""Pixel path between two positions."""
PROPERTY = "C30"


def BOUNDS(tier):
    return "every segment between two positions of a global grid of %d columns, up to %d rows apart, positions anywhere within a pixel (quarter steps, western and southern bounds included), several segments at once" % ((8, 3) if tier == "quick" else (12, 6))


OUTSIDE = "larger grids; segments of regional grids spanning more than half of the grid"


def path(S, n, nb, rows):
    G = S.mod("dataset.grid")
    step = 45.0 if nb == 8 else 30.0 if nb == 12 else 60.0
    x_ori, y_ori = -180.0, -4.0
    # pixel index plus an offset inside the pixel (quarter of a pixel around the center)
    off = S.choice("off", [(0.5, 0.5, 0.5, 0.5), (0.75, 0.25, 0.75, 0.25), (0.125, 0.875, 0.875, 0.75), (0, 0.5, 0, 0)])
    a, b, c, d = [], [], [], []
    for k in range(n):
        last = k and k == n - 1
        a.append(S.concrete(S.int("x0_%d" % k, 0, nb - 1)) + off[0])
        b.append(S.concrete(S.int("x1_%d" % k, 0, 1 if last else nb - 1)) + off[1])
        c.append(S.concrete(S.int("y0_%d" % k, 0, 0 if last else rows)) + off[2])
        d.append(S.concrete(S.int("y1_%d" % k, 0, rows)) + off[3])
    turn = S.choice("turn", [0, 360, -720])
    ny = rows + 1
    g = G.RegularGridDataset.with_array(("x", "y"), dict(
        x=S.arr([x_ori + (i + 0.5) * step for i in range(nb)], "f8"), y=S.arr([y_ori + (j + 0.5) * 0.5 for j in range(max(ny, 2))], "f8")), centered=True)
    i_g, j_g, nd = g.compute_pixel_path(
        S.arr([x_ori + v * step for v in a], "f8"), S.arr([y_ori + v * 0.5 for v in c], "f8"),
        S.arr([x_ori + turn + v * step for v in b], "f8"), S.arr([y_ori + v * 0.5 for v in d], "f8"))
    S.out("i", i_g)
    S.out("j", j_g)
    rnd = lambda v: S.concrete(S.floor(v))
    ii = 0
    for k in range(n):
        i0, i1, j0, j1 = rnd(a[k]), rnd(b[k]), rnd(c[k]), rnd(d[k])
        di = (i1 - i0 + nb // 2) % nb - nb // 2
        if nb % 2 == 0 and abs(di) == nb // 2:
            di = abs(di)  # both ways round are as short
        dj = j1 - j0
        m = max(abs(di), abs(dj))
        S.check(nd[k] == m, "as many steps as the longest side")
        if ii + m >= len(i_g):
            S.fail("path holds every pixel")
        p = [(S.concrete(i_g[ii + q]), S.concrete(j_g[ii + q])) for q in range(m + 1)]
        S.check(all(0 <= i < nb for i, _ in p), "columns stay inside the grid")
        S.check(p[0] == (i0 % nb, j0), "starts at the pixel of the first position")
        S.check(p[-1] == (i1 % nb, j1), "ends at the pixel of the second position")
        for (u, v), (w, z) in zip(p, p[1:]):
            s = (w - u + nb // 2) % nb - nb // 2
            S.check(abs(s) <= 1 and abs(z - v) <= 1, "pixels of the path touch each other")
        ii += m + 1
    S.check(S.And(len(i_g) == ii, len(j_g) == ii), "nothing else in the path")


def cases(tier):
    if tier == "quick":
        return [("path_1", path, dict(n=1, nb=8, rows=3)), ("path_2", path, dict(n=2, nb=6, rows=1))]
    return [("path_1", path, dict(n=1, nb=12, rows=6)), ("path_2", path, dict(n=2, nb=6, rows=2)), ("path_1_8", path, dict(n=1, nb=8, rows=3))]
