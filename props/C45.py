"""Circle of a contour, its radius and its shape error."""
import math

from props.C36 import MODELS as _M

PROPERTY = "C45"
MODELS = {k: v for k, v in _M.items() if k == "matplotlib.path"}


def BOUNDS(tier):
    return (
        "contours of 4 to 16 vertices of %d shapes and 3 sizes moved anywhere (multiples of 1/8 in +-1e6) ; contours of 3 or 4 vertices with vertices at any distance of the center (1 to 64) and any radius (1 to 64) of the circle; "
        "contours on the globe at %d latitudes, moved by any number of turns" % ((6, 4) if tier == "quick" else (8, 6))
    )


OUTSIDE = "contours of any shape at once (least squares are solved for each shape, on values which do not depend on the position); ellipse fit; vertices which are the center of the circle"
ASSUMPTIONS = ["solution of least squares is that of LAPACK"]
R = 6370997.0


def solve3(m, v):
    """Gauss on python floats"""
    a = [list(r) + [q] for r, q in zip(m, v)]
    for k in range(3):
        p = max(range(k, 3), key=lambda i: abs(a[i][k]))
        a[k], a[p] = a[p], a[k]
        for i in range(3):
            if i != k:
                f = a[i][k] / a[k][k]
                a[i] = [x - f * y for x, y in zip(a[i], a[k])]
    return [a[i][3] / a[i][i] for i in range(3)]


def best(pts):
    """circle which minimizes the squares of r**2 - d**2"""
    n = len(pts)
    mx, my = sum(p[0] for p in pts) / n, sum(p[1] for p in pts) / n
    s = max(math.hypot(p[0] - mx, p[1] - my) for p in pts)
    q = [((p[0] - mx) / s, (p[1] - my) / s) for p in pts]
    rows = [(2 * x, 2 * y, 1.0) for x, y in q]
    z = [x * x + y * y for x, y in q]
    x0, y0, c = solve3([[sum(r[i] * r[j] for r in rows) for j in range(3)] for i in range(3)], [sum(r[i] * k for r, k in zip(rows, z)) for i in range(3)])
    return mx + s * x0, my + s * y0, s * math.sqrt(c + x0 * x0 + y0 * y0)


def area(p):
    n = len(p)
    return abs(sum(p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1] for i in range(n))) / 2


def error(pts, x0, y0, r):
    """area out of the circle and area of the circle out of the contour, in percent of the circle"""
    q = []
    for x, y in pts:
        d = math.hypot(x - x0, y - y0)
        f = min(1, r / d)
        q.append((x0 + (x - x0) * f, y0 + (y - y0) * f))
    return 100 * (math.pi * r * r + area(pts) - 2 * area(q)) / (math.pi * r * r)


def ring(n, f, turn=1):
    return [(f(k) * math.cos(turn * 2 * math.pi * k / n), f(k) * math.sin(turn * 2 * math.pi * k / n)) for k in range(n)]


SHAPES = {
    "square": [(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)],
    "circle": ring(16, lambda k: 5.0),
    "clockwise": ring(8, lambda k: 3.0, -1),
    "long": [(x * 3, y) for x, y in ring(16, lambda k: 2.0)],
    "notch": [(0.0, 0.0), (6.0, 0.0), (6.0, 5.0), (3.0, 1.0), (0.0, 5.0)],
    "star": ring(10, lambda k: 2.0 + 2 * (k % 2)),
    "uneven": [(5.0, 0.0), (4.0, 3.0), (3.0, 4.0), (-5.0, 0.0)],
    "thin": [(0.0, 0.0), (9.0, 1.0), (9.0, 3.0), (0.0, 2.0)],
}


def fit(S, shape, size):
    """the best circle, wherever the contour is"""
    P = S.mod("poly")
    pts = [(round(x * size * 8) / 8, round(y * size * 8) / 8) for x, y in SHAPES[shape]]
    tx, ty = S.fx("tx", -10 ** 6, 10 ** 6, 8), S.fx("ty", -10 ** 6, 10 ** 6, 8)
    k = S.choice("start", [0, 1, 2])
    v = [(x + tx, y + ty) for x, y in pts[k:] + pts[:k]]
    v.append(v[0])
    x0, y0, r, err = P.fit_circle(S.arr([p[0] for p in v], "f8"), S.arr([p[1] for p in v], "f8"))
    ex, ey, er = best(pts)
    tol = 1e-7 * size + 1e-9 * 10 ** 6
    S.check(S.And(S.close(x0, ex + tx, tol), S.close(y0, ey + ty, tol)), "center of the best circle")
    S.check(S.close(r, er, 1e-7 * size), "radius of the best circle")
    S.check(S.close(err, error(pts, ex, ey, er), 1e-4), "shape error")
    if shape in ("circle", "clockwise"):
        S.check(S.close(r, math.hypot(*pts[0]), .1), "radius of a circle")


DIRS = {4: [(1, 0), (0, 1), (-1, 0), (0, -1)], 3: [(3, 4), (-4, 3), (0, -5)], 5: [(4, 3), (0, 5), (-5, 0), (-3, -4), (4, -3)]}


def misfit(S, n, moved):
    """shape error of a contour around the center of the circle"""
    P = S.mod("poly")
    d = DIRS[n]
    unit = math.isqrt(d[0][0] ** 2 + d[0][1] ** 2)
    k = [S.int("k%d" % i, 1, 64) if i in moved else 5 + 9 * i for i in range(n)]
    r = S.choice("r", [1, 10, 40, 64]) * unit
    x0, y0 = S.choice("o", [(0, 0), (1000, -250)])
    v = [(x0 + a * q, y0 + b * q) for (a, b), q in zip(d, k)]
    v.append(v[0])
    err = P.shape_error(S.arr([p[0] for p in v], "f8"), S.arr([p[1] for p in v], "f8"), float(x0), float(y0), float(r))
    m = [S.If(q * unit > r, r // unit, q) for q in k]

    def two(q):
        """twice the area"""
        t = 0
        for i in range(n):
            (a, b), (c, e) = d[i], d[(i + 1) % n]
            t = t + q[i] * q[(i + 1) % n] * (a * e - b * c)
        return t

    ref = 100 + (two(k) - 2 * two(m)) * (50 / (math.pi * r * r))
    S.check(S.close(err, ref, 1e-6), "area of difference in percent of the circle")


LATS = [0.5, -35.25, 60.0, -72.0, 20.0, 48.0]


def local(lon, lat, lon0, lat0):
    """distance and bearing from a position, as a plane"""
    a, b, c, d = map(math.radians, (lon, lat, lon0, lat0))
    v = lambda p, q: (math.cos(q) * math.cos(p), math.cos(q) * math.sin(p), math.sin(q))
    w = v(a, b)
    o = v(c, d)
    e, n = (-math.sin(c), math.cos(c), 0), (-math.sin(d) * math.cos(c), -math.sin(d) * math.sin(c), math.cos(d))
    dot = lambda p, q: sum(i * j for i, j in zip(p, q))
    x, y, z = dot(w, e), dot(w, n), dot(w, o)
    h = math.hypot(x, y)
    g = math.atan2(h, z) * R
    return (x / h * g, y / h * g) if h else (0.0, 0.0)


def back(x, y, lon0, lat0):
    g = math.hypot(x, y) / R
    if g == 0:
        return lon0, lat0
    s, c = x / (g * R), y / (g * R)
    o, p = math.radians(lon0), math.radians(lat0)
    lat = math.asin(math.sin(p) * math.cos(g) + math.cos(p) * math.sin(g) * c)
    lon = o + math.atan2(s * math.sin(g), math.cos(p) * math.cos(g) - math.sin(p) * math.sin(g) * c)
    return math.degrees(lon), math.degrees(lat)


def globe(S, shape, lat):
    """circle of a contour on the globe, whatever the turn of its longitudes"""
    G = S.mod("dataset.grid")
    size = S.choice("size", [0.03125, 0.125, 0.25])
    x0 = S.choice("lon", [0, 179.875, -90])
    base = [(x0 + round(x * size * 64) / 64, lat + round(y * size * 64) / 64) for x, y in SHAPES[shape]]
    k = S.int("turn", -3, 3) * 360
    v = [(x + k, y) for x, y in base]
    vert = S.arr(v + v[:1], "f8")
    P = G.BasePath(vert)
    lon, la, r, err = P.fit_circle()
    mx, my = sum(p[0] for p in base) / len(base), sum(p[1] for p in base) / len(base)
    c = P.mean_coordinates
    S.check(S.And(S.close(c[0], mx + k, 1e-9), S.close(c[1], my, 1e-9)), "mean of vertices, each one once")
    S.check(S.And(S.And([P.lon[i] == (v + v[:1])[i][0] for i in range(len(v) + 1)]), S.And([P.lat[i] == (v + v[:1])[i][1] for i in range(len(v) + 1)])), "coordinates of vertices")
    pts = [local(x, y, mx, my) for x, y in base]
    cx, cy, cr = best(pts)
    a, b = back(cx, cy, mx, my)
    S.check(S.And(S.close(lon, a + k, 1e-6), S.close(la, b, 1e-6)), "center of the best circle on the globe, next to the contour")
    S.check(S.close(r, cr, 0.05 + 1e-6 * cr), "radius in meters")
    S.check(S.close(err, error(pts, cx, cy, cr), 1e-3), "shape error")
    S.check(S.And([p == q for p, q in zip(P.fit_circle(), (lon, la, r, err))]), "same circle when it is asked again")
    lon, la, r, err = P.fit_circle(method="equal_area")
    S.check(S.And(S.close(lon, mx + k, 1e-9), S.close(la, my, 1e-9)), "mean position")
    S.check(S.close(r, math.sqrt(area(pts) / math.pi), 0.05 + 1e-6 * cr), "radius of the circle of same area")
    S.check(S.isnan(err), "no shape error")
    S.check(S.close(P.fit_circle()[2], cr, 0.05 + 1e-6 * cr), "each method has its own circle")


def point(S):
    """a contour reduced to one position has no circle"""
    G = S.mod("dataset.grid")
    x, y = S.fx("x", -360, 360, 8), S.choice("y", [-60, 0, 25.5])
    for m in ("fit", "equal_area"):
        a = G.BasePath(S.arr([(x, y)] * 5, "f8")).fit_circle(method=m)
        S.check(S.And(a[0] == 0, a[1] == -90, S.isnan(a[2]), S.isnan(a[3])), "no circle")


def cases(tier):
    q = tier == "quick"
    shapes = list(SHAPES)[:6] if q else list(SHAPES)
    r = [("fit_%s_%g" % (s, k), fit, dict(shape=s, size=k)) for s in shapes for k in (0.125, 1, 20000)]
    r += [("misfit%d_%d" % (n, len(m)), misfit, dict(n=n, moved=m)) for n, m in ((3, (0,)), (4, (1,)), (4, (0, 2)))]
    if not q:
        r += [("misfit%d_%d" % (n, len(m)), misfit, dict(n=n, moved=m)) for n, m in ((3, (0, 1)), (4, (0, 1, 3)), (5, (1, 3)))]
    r += [("globe_%s_%d" % (s, i), globe, dict(shape=s, lat=LATS[i])) for s in (("square", "long", "notch") if q else shapes) for i in range(4 if q else 6)]
    return r + [("point", point, {})]
