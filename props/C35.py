"""Filters of grids."""
import math
import types

PROPERTY = "C35"


def _filter2D(src, ddepth, kernel, *a, **k):
    """correlation, anchor at the center; nodes out of the matrix are mirrored (default border of OpenCV)"""
    from vp import snp

    if a or k:
        from vp.engine import EngineUnsupported

        raise EngineUnsupported("filter2D options")
    s, w = src.a, kernel.a
    (n, m), (p, q) = s.shape, w.shape

    def mir(i, n):
        while n > 1 and not 0 <= i < n:
            i = -i if i < 0 else 2 * (n - 1) - i
        return i if n > 1 else 0

    rows = []
    for i in range(n):
        row = []
        for j in range(m):
            t = 0.0
            for a_ in range(p):
                for b in range(q):
                    v = w[a_, b]
                    if not (isinstance(v, (int, float)) and v == 0):
                        t = t + s[mir(i + a_ - p // 2, n), mir(j + b - q // 2, m)] * v
            row.append(t)
        rows.append(row)
    return snp.array(rows, "f8")


def _j1(x):
    from scipy.special import j1
    from vp import snp

    if not isinstance(x, snp.SArr):
        return float(j1(float(x)))
    return snp.array([float(j1(float(v))) for v in x.a.reshape(-1)], "f8").reshape(x.a.shape)


MODELS = {"cv2": types.SimpleNamespace(filter2D=_filter2D), "scipy.special": types.SimpleNamespace(j1=_j1)}


def BOUNDS(tier):
    return (
        "grids of 5 or 6 columns and 4 rows, bounded or around the globe, any value at every node and any mask of 4 nodes (with or without other masked ones), kernels of 3 or 5 nodes which "
        "differ along each axis and at each latitude, every kind of limit; Bessel, Lanczos and Loess kernels of order 1 (or 2: 6x4 nodes) on grids of %s nodes"
        % ("10x5, 12x3 and 18x3 (next to poles, a quarter of nodes have any value)" if tier == "quick" else "10x5, 12x3, 18x3 (next to poles, a quarter of nodes have any value) and 24x7")
    )


OUTSIDE = "global grids where the kernel goes through the pole to the opposite longitude or more than once around the globe; grids with two dimensional coordinates (Gaussian filter); larger grids (each value depends only on nodes below the kernel)"
ASSUMPTIONS = ["filter2D of OpenCV is a correlation with its anchor at the center (model when code is executed symbolically, real one when paths are replayed)"]
R = 6370.997


def grid(S, xs, ys, h, m):
    G = S.mod("dataset.grid").RegularGridDataset
    return G.with_array(("x", "y"), dict(x=S.arr(xs, "f8"), y=S.arr(ys, "f8"), h=S.masked(S.arr(h, "f8"), S.arr(m, "?"))))


def fields(S, nx, ny, sym, fixed=(), every=1):
    h = [[S.int("h%d_%d" % (i, j), -20, 20) if (2 * i + j) % every == 0 else (7 * i * i + 5 * j + 3 * i * j) % 31 - 15 for j in range(ny)] for i in range(nx)]
    m = [[(i, j) in fixed for j in range(ny)] for i in range(nx)]
    for i, j in sym:
        m[i][j] = bool(S.bool("m%d_%d" % (i, j)))
    return h, m


K = {
    -30.0: [[1, 2, 3], [4, 5, 6], [7, 8, 9]],
    -10.0: [[1, 0, 2, 5, 3], [0, 7, 1, 1, 4], [2, 6, 3, 1, 0]],
    10.0: [[2, 1, 0], [1, 3, 1], [5, 4, 2], [0, 3, 7], [1, 1, 6]],
    30.0: [[3, 0, 1], [1, 0, 2], [1, 4, 0]],
}


def expected(S, h, m, ys, kern, circ, lat_max, extend):
    """(mask, numerator, denominator) of every node"""
    nx, ny = len(h), len(ys)
    r = []
    for i in range(nx):
        row = []
        for j in range(ny):
            if abs(ys[j]) > lat_max or all(m[q][j] for q in range(nx)):
                row.append((True, 0, 0))
                continue
            k = kern(ys[j])
            p, q = len(k) // 2, len(k[0]) // 2
            num, den, tot = 0, 0, 0
            for a in range(len(k)):
                for b in range(len(k[0])):
                    w = k[a][b]
                    tot += w
                    ii, jj = i + a - p, j + b - q
                    if circ:
                        ii %= nx
                    if 0 <= ii < nx and 0 <= jj < ny and not m[ii][jj] and w:
                        num = num + h[ii][jj] * w
                        den += w
            row.append((den < extend * tot if extend else m[i][j], num, den))
        r.append(row)
    return r


def same(S, got, exp, what, tol=1e-6):
    nx, ny = len(exp), len(exp[0])
    mk, d = S.mod("dataset.grid").RegularGridDataset.get_mask(got), got.data
    S.check(got.shape == (nx, ny), "shape of %s" % what)
    ok = []
    for i in range(nx):
        for j in range(ny):
            em, num, den = exp[i][j]
            S.check(S.iff(mk[i, j], em), "%s: nodes without value" % what)
            if em:
                continue
            if den == 0:
                S.check(S.isnan(d[i, j]), "%s: undefined when no node is below the kernel" % what)
                continue
            ok.append(S.close(d[i, j] * den, num, tol * max(1, abs(den))))
    S.check(S.And(ok), "%s: average of valid nodes with weights of the kernel" % what)


def conv(S, circ, lat_max, extend, fixed, isname):
    ys = sorted(K)
    nx = 6 if circ else 5
    h, m = fields(S, nx, len(ys), ((0, 1), (nx - 1, 2), (2, 1), (2, 0)), fixed)
    xs = [60.0 * i if circ else 2.0 * i for i in range(nx)]
    g = grid(S, xs, ys, h, m)

    def kf(lat, **kw):
        S.check(kw == dict(wave_length=7), "options are given to the kernel")
        return S.arr(K[float(lat)], "f8")

    if isname:
        out = g.convolve_filter_with_dynamic_kernel("h", kf, lat_max=lat_max, extend=extend, wave_length=7)
    else:
        out = g.convolve_filter_with_dynamic_kernel(S.masked(S.arr(h, "f8"), S.arr(m, "?")), kf, lat_max=lat_max, extend=extend, wave_length=7)
    same(S, out, expected(S, h, m, ys, lambda v: K[v], circ, lat_max, extend), "filter")
    v = g.vars["h"]
    S.check(S.And([S.Or(m[i][j], v.data[i, j] == h[i][j]) for i in range(nx) for j in range(len(ys))]), "the grid itself is not changed")


def sinc(x):
    return 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)


def weight(kind, d, order):
    if d > order + 1e-9:
        return 0.0
    if kind == "bessel":
        from scipy.special import j1

        return math.pi if d == 0 else sinc(d / order) * float(j1(2 * math.pi * d)) / d
    if kind == "lanczos":
        return sinc(d / order) * sinc(d)
    return (1 - d**3) ** 3


def dist(x0, y0, x1, y1):
    a = [math.radians(v) for v in (x0, y0, x1, y1)]
    q = math.sin((a[3] - a[1]) / 2) ** 2 + math.cos(a[1]) * math.cos(a[3]) * math.sin((a[2] - a[0]) / 2) ** 2
    return 2 * R * math.asin(math.sqrt(q))


def real(S, kind, call, order, wl, circ, nx, ny, step, lat0, every=1):
    """filters with their own kernels"""
    ys = [lat0 + step * j for j in range(ny)]
    xs = [(360.0 / nx if circ else step) * i for i in range(nx)]
    h, m = fields(S, nx, ny, ((1, 1), (nx - 1, 2)), ((3, 2), (0, 0)), every)
    sx = xs[1] - xs[0]
    n = nx if circ else 0

    def weights(order, wl):
        def kern(lat):
            p = math.ceil(wl / (dist(0, lat, 1, lat) * sx)) * order
            q = math.ceil(wl / (dist(0, 0, 0, 1) * step)) * order
            return [[weight(kind, dist(0, lat, sx * a, lat + step * b) / wl, order) for b in range(-q, q + 1)] for a in range(-p, p + 1)]

        return kern

    def low(f, order, wl):
        e = expected(S, f, m, ys, weights(order, wl), circ, 85, False)
        return [[None if c[0] else c[1] / c[2] for c in row] for row in e]

    g = grid(S, xs, ys, h, m)
    {
        "bessel_low": lambda: g.bessel_low_filter("h", wl, order=order),
        "bessel_high": lambda: g.bessel_high_filter("h", wl, order=order),
        "lanczos_low": lambda: g.lanczos_low_filter("h", wl, order=order),
        "lanczos_high": lambda: g.lanczos_high_filter("h", wl, order=order),
        "low": lambda: g.low_filter("h", wl, order=order),
        "high": lambda: g.high_filter("h", wl, order=order),
        "loess": lambda: g.vars.__setitem__("h", g.convolve_filter_with_dynamic_kernel("h", g.kernel_loess, wave_length=wl, order=order)),
    }[call]()
    f = low(h, order, wl)
    e = [[(True, 0, 0) if f[i][j] is None else (False, (h[i][j] - f[i][j]) if "high" in call else f[i][j], 1) for j in range(ny)] for i in range(nx)]
    same(S, g.vars["h"], e, "%s filter" % call, 1e-5)
    try:
        g.bessel_low_filter("h", 1.9 * max(sx * dist(0, ys[1], 1, ys[1]), step * dist(0, 0, 0, 1)))
        S.check(False, "a wavelength below two pixels is refused")
    except Exception as x:
        if type(x).__name__ != "Exception":
            raise


def band(S, order):
    """difference of two low filters, the second one on the result of the first one; each low filter is the one decided
    above, here each of its runs gives an unknown field"""
    xs, ys = [1.0 * i for i in range(4)], [38.0 + j for j in range(3)]
    h, m = fields(S, 4, 3, ((1, 1), (2, 2)))
    runs = []

    def flt(g, name, kernel, **kw):
        d = g.vars[name] if isinstance(name, str) else name
        o = [[S.int("o%d_%d_%d" % (len(runs), i, j), -20, 20) for j in range(3)] for i in range(4)]
        runs.append(([[d.data[i, j] for j in range(3)] for i in range(4)], kernel, kw, o))
        return S.masked(S.arr(o, "f8"), S.arr(m, "?"))

    g = type("Grid", (S.mod("dataset.grid").RegularGridDataset,), {"convolve_filter_with_dynamic_kernel": flt}).with_array(
        ("x", "y"), dict(x=S.arr(xs, "f8"), y=S.arr(ys, "f8"), h=S.masked(S.arr(h, "f8"), S.arr(m, "?")))
    )
    g.bessel_band_filter("h", 300, 700, order=order)
    S.check(len(runs) == 2, "two low filters")
    (d0, k0, kw0, o0), (d1, k1, kw1, o1) = runs
    S.check(k0 == g.kernel_bessel and k1 == g.kernel_bessel, "kernels")
    S.check(kw0.get("wave_length") == 300 and kw1.get("wave_length") == 700 and kw0.get("order", 1) == order == kw1.get("order", 1), "wavelengths and order")
    v = g.vars["h"]
    mk = g.get_mask(v)
    for i in range(4):
        for j in range(3):
            S.check(bool(mk[i, j]) == m[i][j], "nodes without value")
            if not m[i][j]:
                S.check(S.And(d0[i][j] == h[i][j], d1[i][j] == o0[i][j], S.close(v.data[i, j], o0[i][j] - o1[i][j], 1e-9)), "what is between the two wavelengths is kept")


def cases(tier):
    r = []
    for circ in (False, True):
        for ext in (False, 0.4, True):
            for lat_max in (85, 20):
                for fixed in ((), tuple((i, 1) for i in range(6) if i not in (0, 2)) + ((1, 0), (1, 2))):
                    if lat_max == 20 and fixed:
                        continue
                    r.append(("conv_%s%s_%d_%d" % ("circ" if circ else "reg", "_ext%s" % ext if ext else "", lat_max, len(fixed)), conv, dict(circ=circ, lat_max=lat_max, extend=ext, fixed=fixed, isname=lat_max == 85)))
    r += [("band_%d" % o, band, dict(order=o)) for o in (1, 2)]
    for circ, nx, ny, step, lat0, wl in ((False, 10, 5, 1.0, 38.0, 250.0), (True, 12, 3, 20.0, -20.0, 7000.0)):
        for kind, call, order in (
            ("bessel", "bessel_low", 1), ("bessel", "bessel_high", 1), ("bessel", "low", 2 if not circ else 1), ("bessel", "high", 1),
            ("lanczos", "lanczos_low", 1), ("lanczos", "lanczos_high", 1 if circ else 2), ("loess", "loess", 1),
        ):
            r.append(("%s_%s_%d" % ("circ" if circ else "reg", call, order), real, dict(kind=kind, call=call, order=order, wl=wl, circ=circ, nx=nx if order == 1 else 6, ny=ny if order == 1 else 4, step=step, lat0=lat0)))
    for lat0 in (-75.0, 65.0):
        for call in ("bessel_low", "bessel_high") if lat0 < 0 else ("bessel_low",):
            r.append(("pole_%d_%s" % (lat0, call), real, dict(kind="bessel", call=call, order=1, wl=2224.0, circ=True, nx=18, ny=3, step=5.0, lat0=lat0, every=4)))
    if tier != "quick":
        for call in ("bessel_low", "bessel_high"):
            r.append(("circ24_%s" % call, real, dict(kind="bessel", call=call, order=1, wl=3500.0, circ=True, nx=24, ny=7, step=15.0, lat0=-45.0)))
    return r
