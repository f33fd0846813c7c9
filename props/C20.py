"""Statistics of observations on grids and in bins."""
PROPERTY = "C20"


def BOUNDS(tier):
    return "grids of 4x3 (regional) and 8x3 (global) pixels, in any longitude convention; %d observations anywhere on half pixels, square contours of any place, any selection, any value and mask" % (2 if tier == "quick" else 3)


OUTSIDE = "larger grids; contours wider than the margin of one pixel around the grid; grids which leave a gap narrower than a contour around the globe; pixels exactly on a contour; percentiles other than 0, 25, 50 and 100"
ASSUMPTIONS = ["at least one observation is selected and selected observations are inside the bins for percentiles (an exception is raised otherwise)"]
# west, east, step of longitudes, south, north, step of latitudes
REG = (10, 18.5, 2, -3, 3.5, 2)
GLO = (-180, 180.5, 45, -3, 3.5, 2)


def geom(grid):
    x0, x1, dx, y0, y1, dy = grid
    return x0, dx, int((x1 - x0) / dx), y0, dy, 3


def bins(grid):
    x0, x1, dx, y0, y1, dy = grid
    return (x0, x1, dx), (y0, y1, dy)


def table(S, n, nv=0):
    O = S.mod("observations.observation")
    arr = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"] if nv else []
    return O.EddiesObservations(size=n, track_array_variables=nv, array_variables=arr)


def cell(S, grid, x, y, i, j, closed=False):
    """x (any turn), y in pixel i, j"""
    x0, dx, nx, y0, dy, ny = geom(grid)
    hx = S.Or([S.And(x + t >= x0 + i * dx, x + t < x0 + (i + 1) * dx) for t in (-720, -360, 0, 360, 720)])
    if closed and i == nx - 1:
        hx = S.Or(hx, S.Or([x + t == x0 + nx * dx for t in (-720, -360, 0, 360, 720)])) if nx * dx < 360 else hx
    hy = S.And(y >= y0 + j * dy, (y <= y0 + (j + 1) * dy) if closed and j == ny - 1 else (y < y0 + (j + 1) * dy))
    return S.And(hx, hy)


def place(S, grid, n, o, margin=1, half=2, free=9):
    x0, dx, nx, y0, dy, ny = geom(grid)
    xs, ys = [], []
    for k in range(n):
        turn = S.choice("turn%d" % k, [0, -360, 360] if k == 0 else [0])
        if k >= free:
            a, b = 5, 3
        else:
            a, b = S.int("x%d" % k, -margin * half, (nx + margin) * half), S.int("y%d" % k, -margin * half, (ny + margin) * half)
        x, y = x0 + a * dx / half + turn, y0 + b * dy / half
        o.lon[k], o.lat[k] = x, y
        xs.append(x)
        ys.append(y)
    return xs, ys


def selection(S, n, kind):
    if kind == "all":
        return {}, [True] * n
    m = S.bools("m", n)
    return dict(filter=S.arr(m, "?")), m


def checked(S, g, name, grid, expected, label):
    x0, dx, nx, y0, dy, ny = geom(grid)
    for i in range(nx):
        for j in range(ny):
            d, m = g.vars[name].data[i, j], g.vars[name].mask[i, j]
            expected(i, j, d, m)
    S.check(S.And([g.x_c[i] == x0 + dx * (i + 0.5) for i in range(nx)] + [g.y_c[j] == y0 + dy * (j + 0.5) for j in range(ny)] + [len(g.x_c) == nx, len(g.y_c) == ny]), "pixels centres")


def center(S, grid, n, kind):
    o = table(S, n, 4)
    xs, ys = place(S, grid, n, o)
    kw, m = selection(S, n, kind)
    g = o.grid_count(bins(grid), center=True, **kw)

    def exp(i, j, d, mk):
        c = S.count([S.And(m[k], cell(S, grid, xs[k], ys[k], i, j, True)) for k in range(n)])
        S.check(d == c, "number of centres in each pixel")
        S.check(S.iff(mk, c == 0), "masked where there is none")

    checked(S, g, "count", grid, exp, "")


def contour(S, grid, n, intern, kind, shift):
    """square contours: pixels whose centre is inside"""
    x0, dx, nx, y0, dy, ny = geom(grid)
    wide = nx * dx >= 360
    o = table(S, n, 4)
    boxes = []
    for k in range(n):
        turn = [0, 360, -360][shift] if k == 0 else 0
        a = S.concrete(S.int("x%d" % k, 0, 2 * nx - (1 if wide else 0)) if k == 0 else 5)
        b = S.concrete(S.int("y%d" % k, -1, 2 * ny + 1) if k == 0 else 2)
        hx, hy = [(0.75, 0.75), (0.75, 1.25), (0.25, 0.25)][S.choice("size%d" % k, [0, 1, 2]) if k == 0 else 1]
        cx, cy = a / 2, b / 2
        o.lon[k], o.lat[k] = x0 + dx * cx + turn, y0 + dy * cy
        if not wide:
            # does not leave the grid eastward nor westward by more than what it holds
            S.assume(0 <= cx - hx and cx + hx <= nx)
        for nm, f in (("s", 1 if intern else 2), ("e", 2 if intern else 1)):
            for q, (u, v) in enumerate([(-1, -1), (1, -1), (1, 1), (-1, 1)]):
                o["contour_lon_" + nm][k, q] = x0 + dx * (cx + u * hx * f) + (turn if nm == "e" else 0)
                o["contour_lat_" + nm][k, q] = y0 + dy * (cy + v * hy * f)
        boxes.append((cx, cy, hx, hy))
    kw, m = selection(S, n, kind)
    g = o.grid_count(bins(grid), intern=intern, **kw)

    def exp(i, j, d, mk):
        ins = []
        for k, (cx, cy, hx, hy) in enumerate(boxes):
            px, py = i + 0.5 - cx, j + 0.5 - cy
            near = [px + t for t in ((-nx, 0, nx) if wide else (0,))]
            ins.append(S.And(m[k], any(abs(p) < hx for p in near) and abs(py) < hy))
        S.check(d == S.count(ins), "number of contours which hold each pixel")
        S.check(S.iff(mk, S.count(ins) == 0), "masked where there is none")

    checked(S, g, "count", grid, exp, "")


def stat(S, grid, n, kind):
    """mean of observations in each pixel"""
    o = table(S, n)
    xs, ys = place(S, grid, n, o, free=1 if grid == GLO else 2)
    v = S.ints("v", n, -20, 20)
    m = [True] * n
    for k in range(n):
        o.speed_area[k] = v[k]
    data = None
    if kind == "masked":
        m = S.bools("m", n)
        data = S.masked(S.arr(v, "f8"), S.arr([S.Not(u) for u in m], "?"))
    g = o.grid_stat(bins(grid), "speed_area", data=data)

    def exp(i, j, d, mk):
        ins = [S.And(m[k], cell(S, grid, xs[k], ys[k], i, j, True)) for k in range(n)]
        c = S.concrete(S.count(ins))
        S.check(S.iff(mk, c == 0), "masked where there is none")
        if c:
            S.check(S.close(d * c, S.sum([S.If(ins[k], v[k], 0) for k in range(n)]), 1e-6), "mean of the observations of the pixel")

    checked(S, g, "speed_area", grid, exp, "")


def quant(S, vals, p):
    """percentile of a sorted list, linear interpolation"""
    r = (len(vals) - 1) * p / 100
    i = int(r)
    return vals[i] + (vals[min(i + 1, len(vals) - 1)] - vals[i]) * (r - i)


def box(S, grid, n, kind, p):
    """percentile of observations in each pixel"""
    o = table(S, n)
    x0, dx, nx, y0, dy, ny = geom(grid)
    xs, ys, cells = [], [], []
    for k in range(n):
        a = S.choice("x%d" % k, [1, 2, 7] if k else list(range(2 * nx)))
        b = S.choice("y%d" % k, [0, 3] if k else [0, 3, 5])
        turn = S.choice("turn%d" % k, [0, -360, 360] if k == 0 else [0])
        o.lon[k], o.lat[k] = x0 + dx * a / 2 + turn, y0 + dy * b / 2
        cells.append((a // 2, b // 2))
    v = S.ints("v", n, -20, 20)
    for k in range(n):
        o.speed_area[k] = v[k]
    m, kw = [True] * n, {}
    if kind != "all":
        m = [S.concrete(u) for u in S.bools("m", n)]
        S.assume(any(m))
        if kind == "masked":
            kw = dict(data=S.masked(S.arr(v, "f8"), S.arr([not u for u in m], "?")))
        else:
            kw = dict(filter=S.arr(m, "?"))
    g = o.grid_box_stat(bins(grid), "speed_area", method=p, **kw)

    def exp(i, j, d, mk):
        ins = [v[k] for k in range(n) if m[k] and cells[k] == (i, j)]
        S.check(S.iff(mk, len(ins) == 0), "masked where there is none")
        if ins:
            vals = []
            for u in ins:
                q = 0
                while q < len(vals) and bool(vals[q] <= u):
                    q += 1
                vals.insert(q, u)
            S.check(S.close(d, quant(S, vals, p), 1e-6), "percentile of the observations of the pixel")

    checked(S, g, "speed_area", grid, exp, "")


def outside(S, grid):
    """an observation out of the bins is never counted in a pixel"""
    o = table(S, 2)
    x0, dx, nx, y0, dy, ny = geom(grid)
    b = S.choice("y", [-3, -1, 2 * ny, 2 * ny + 3])
    a = S.choice("x", [0, 3, 7])
    for k, bb in enumerate((b, 1)):
        o.lon[k], o.lat[k], o.speed_area[k] = x0 + dx * a / 2, y0 + dy * bb / 2, 5 + k
    try:
        g = o.grid_box_stat(bins(grid), "speed_area", method=50)
    except Exception as e:
        S.check("flow" in str(e), "refused")
        return
    for i in range(nx):
        for j in range(ny):
            S.check(g.vars["speed_area"].mask[i, j] == ((i, j) != (a // 2, 0)), "only the observation inside")


def interp(S, grid, method, shift):
    """statistics of a grid in each contour"""
    R = S.mod("dataset.grid").RegularGridDataset
    x0, dx, nx, y0, dy, ny = geom(grid)
    wide = nx * dx >= 360
    v = [S.ints("v%d_" % i, ny, -20, 20) for i in range(nx)]
    mk = [[S.bool("m%d_%d" % (i, j)) if (i + j) % 2 else False for j in range(ny)] for i in range(nx)]
    g = R.with_array(coordinates=("x", "y"), datas=dict(
        h=S.masked(S.arr(v, "f8"), S.arr(mk, "?")),
        x=S.arr([x0 + dx * (i + 0.5) for i in range(nx)], "f8"), y=S.arr([y0 + dy * (j + 0.5) for j in range(ny)], "f8")), centered=True)
    S.check(g.is_circular() == wide, "global grid")
    o = table(S, 2, 4)
    boxes = []
    for k in range(2):
        cx = S.choice("x%d" % k, [0, 3, 6.5, 7.5] if wide else [1, 2.5]) if k == 0 else 2
        cy = S.choice("y%d" % k, [0.5, 1, 1.5]) if k == 0 else 1
        hx, hy = ((0.75, 0.75) if S.choice("size", [0, 1]) else (0.25, 0.25)) if k == 0 else (0.75, 0.25)
        t = [0, 360, -360][shift] if k == 0 else 0
        o.lon[k], o.lat[k] = x0 + dx * cx + t, y0 + dy * cy
        for q, (a, b) in enumerate([(-1, -1), (1, -1), (1, 1), (-1, 1)]):
            o.contour_lon_s[k, q], o.contour_lat_s[k, q] = x0 + dx * (cx + a * hx), y0 + dy * (cy + b * hy)
        boxes.append((cx, cy, hx, hy))
    which = S.choice("i", [None, [1], [0]])
    r = o.interp_grid(g, "h", method=method, intern=True, i=None if which is None else S.arr(which, "i8"))
    rows = [0, 1] if which is None else which
    S.check(len(r) == len(rows), "one value per observation")
    for q, k in enumerate(rows):
        cx, cy, hx, hy = boxes[k]
        px = []
        for i in range(nx):
            for j in range(ny):
                near = [i + 0.5 - cx + t for t in ((-nx, 0, nx) if wide else (0,))]
                if any(abs(p) < hx for p in near) and abs(j + 0.5 - cy) < hy:
                    px.append((i, j))
        if method == "count":
            S.check(r[q] == len(px), "number of pixels of the contour")
            continue
        ok = [(i, j) for i, j in px if not S.concrete(S.If(mk[i][j], 1, 0))]
        if not ok:
            S.check(S.isnan(r[q]), "no value without valid pixel")
        elif method == "mean":
            S.check(S.close(r[q] * len(ok), S.sum([v[i][j] for i, j in ok]), 1e-6), "mean of the valid pixels of the contour")
        else:
            s = 1 if method == "max" else -1
            S.check(S.And([s * r[q] >= s * v[i][j] for i, j in ok]), method + " of the valid pixels of the contour")
            S.check(S.Or([r[q] == v[i][j] for i, j in ok]), method + " is the value of a valid pixel of the contour")


def hist(S, n, kind):
    o = table(S, n)
    x, v = S.ints("x", n, -1, 4), S.ints("v", n, -5, 5)
    for k in range(n):
        o.amplitude[k], o.speed_area[k] = x[k], v[k]
    b = S.arr([0, 1, 2.5, 3], "f8")
    ins = [lambda u: S.And(u >= 0, u < 1), lambda u: S.And(u >= 1, u <= 2), lambda u: u == 3]
    sel = [[f(u) for u in x] for f in ins]
    if kind == "percent":
        S.assume(S.Or([S.Or(s) for s in sel]))
    kw = dict(nb=dict(nb=True), sum={}, mean=dict(mean=True), percent=dict(nb=True, percent=True))[kind]
    r = o.hist("speed_area", "amplitude", b, **kw)
    nb = [S.concrete(S.count(s)) for s in sel]
    for q in range(3):
        tot = S.sum([S.If(c, w, 0) for c, w in zip(sel[q], v)])
        if kind == "nb":
            S.check(r[q] == nb[q], "count")
        elif kind == "sum":
            S.check(S.close(r[q], tot, 1e-6), "sum")
        elif kind == "percent":
            S.check(S.close(r[q] * sum(nb), 100 * nb[q], 1e-3), "percentage of the values of the bins")
        elif nb[q]:
            S.check(S.close(r[q] * nb[q], tot, 1e-6), "mean")


def cases(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for nm, g in (("reg", REG), ("glo", GLO)):
        for kind in ("all", "mask"):
            out.append(("center-%s-%s" % (nm, kind), center, dict(grid=g, n=n, kind=kind)))
        for shift in (0, 1, 2):
            out.append(("contour-%s-%d" % (nm, shift), contour, dict(grid=g, n=n, intern=shift == 1, kind="mask" if shift == 0 else "all", shift=shift)))
        for kind in ("all", "masked"):
            out.append(("stat-%s-%s" % (nm, kind), stat, dict(grid=g, n=n, kind=kind)))
        for p in (0, 25, 50, 100):
            out.append(("box-%s-%d" % (nm, p), box, dict(grid=g, n=2 if p else 3, kind={0: "all", 25: "filter", 50: "masked", 100: "filter"}[p], p=p)))
        out.append(("outside-%s" % nm, outside, dict(grid=g)))
        for method in ("mean", "max", "min", "count"):
            out.append(("interp-%s-%s" % (nm, method), interp, dict(grid=g, method=method, shift={"mean": 0, "max": 1, "min": 2, "count": 0}[method])))
    for kind in ("nb", "sum", "mean", "percent"):
        out.append(("hist-" + kind, hist, dict(n=n, kind=kind)))
    return out
