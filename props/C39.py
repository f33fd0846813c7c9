"""Search areas, costs and predictions used to link observations of two dates."""
import math
import types

from props import nc

PROPERTY = "C39"


class _Nc:
    """netCDF4 with the land mask needed to import the tracker"""


def _module():
    m = nc.module()
    real = m.Dataset

    class Dataset(real):
        def __new__(cls, filename, mode="r", **k):
            if mode == "r" and filename not in nc.FILES and filename.endswith("mask_1_60.nc"):
                from vp import snp

                h = real(filename, "w")
                for a in ("lon", "lat"):
                    h.createDimension(a, 2)
                    h.createVariable(a, "f8", (a,))[:] = snp.array([0.0, 1.0])
                h.createVariable("mask", "i1", ("lon", "lat"))
            return real.__new__(real, filename, mode, **k) if mode != "r" else nc.FILES[filename]

    m.Dataset = Dataset
    return m


MODELS = {"netCDF4": _module()}


def BOUNDS(tier):
    return "tables of 2 observations against 2; positions on eighths of degree in several turns, any amplitude, radius, land pixel; latitudes at any 64th of degree for the size of the search area"


OUTSIDE = "more observations; values of trigonometric functions and roots (taken as any function when code is executed symbolically, the real ones when paths are replayed); boundaries of search areas within 1e-6"
ASSUMPTIONS = ["in the fixed ellipse the distance is replaced by a rectilinear one, in the same way for the code and for the expected answer"]


def wrapdiff(S, a, b):
    """smallest difference of longitude"""
    return (a - b + 180) % 360 - 180


def grid_distance(S, t0, t1):
    """distances between every couple are those of the nearest turn, nothing for far couples"""
    g = S.mod("generic")
    np = S.np
    ax, ay = S.fx("x0", -180, 180, 8), S.choice("y0", [-60.0, 10.5])
    bx, by = S.fx("x1", -180, 180, 8), S.choice("y1", [-75.25, -75.0, -50.0, 10.5, 25.0])
    x0, y0, x1, y1 = [ax, 0.0], [ay, 12.0], [bx, 0.5], [by, 12.5]
    # when code is executed symbolically the arc tangent of two roots gives the first term under the roots
    with Swap(*([(g, "arctan2", lambda y, x: y * y)] if S.symbolic else [])):
        d = g.distance_grid(S.arr([v + t0 for v in x0], "f8"), S.arr(y0, "f8"), S.arr([v + t1 for v in x1], "f8"), S.arr(y1, "f8"))
    last = (lambda a: a) if S.symbolic else (lambda a: np.arctan2(a**0.5, (1 - a) ** 0.5))
    S.check(d.shape == (2, 2), "every couple")
    for i in range(2):
        for j in range(2):
            dx = abs(wrapdiff(S, x1[j], x0[i]))
            dy = abs(y1[j] - y0[i])
            far = S.Or(dy > 15, dx > 20)
            if S.isnan(d[i, j]):
                S.check(far, "a distance for close couples")
                continue
            S.check(S.Not(far), "no distance for far couples")
            r = math.pi / 180
            a = np.sin(dx * 0.5 * r) ** 2 * np.cos(y0[i] * r) * np.cos(y1[j] * r) + np.sin(dy * 0.5 * r) ** 2
            S.check(S.close(d[i, j], 6370.997 * 2 * last(a), 1e-6), "distance along the great circle in km")


def area(S, minor, majors, t1):
    """the search area goes further to the west than to the east"""
    O = S.mod("observations.observation")
    lon0 = S.choice("lon0", [0, 179.5, -179, 359])
    x1 = [lon0 + S.fx("dx%d" % k, -13, 13, 4) + t1 if k == 0 else lon0 + t1 for k in range(2)]
    y0 = [10.0, 10.5]
    y1 = [10.0 + S.concrete(S.int("dy", -4, 4)) / 2, 10.25]
    m = O.shifted_ellipsoid_degrees_mask2(S.arr([lon0, lon0 + 360], "f8"), S.arr(y0, "f8"), S.arr(x1, "f8"), S.arr(y1, "f8"), minor=minor, major=S.arr(majors, "f8"))
    for j in range(2):
        for i in range(2):
            # from lon0 - major to lon0 + minor
            a = minor + (majors[j] - minor) / 2
            c = lon0 - (majors[j] - minor) / 2
            dx, dy = wrapdiff(S, x1[i], c), y1[i] - y0[j]
            lim = (1 - dy * dy / minor**2) * a * a
            q = dx * dx
            S.check(S.Or(S.And(q > lim - 1e-6, q < lim + 1e-6), S.iff(m[j, i], q < lim)), "inside exactly in the ellipse")


def axis(S, cmin, cmax, lat1, lat2, degrees):
    """size of the search area along latitude"""
    O = S.mod("observations.observation")
    y = [S.fx("y%d" % k, -90, 90, 64) for k in range(2)]
    d = O.EddiesObservations.basic_formula_ellipse_major_axis(S.arr(y, "f8"), cmin=cmin, cmax=cmax, lat1=lat1, lat2=lat2, degrees=degrees)
    k = 1 if degrees else 111.2
    for v, w in zip(y, d):
        a = abs(v)
        S.check(S.implies(a >= lat1, S.close(w, cmin * k, 1e-6)), "smallest size at high latitudes")
        S.check(S.implies(a <= lat2, S.close(w, cmax * k, 1e-6)), "largest size near the equator")
        S.check(S.implies(S.And(a < lat1, a > lat2), S.close(w, (cmax + (cmin - cmax) * (a - lat2) / (lat1 - lat2)) * k, 1e-6)), "linear between both")
    S.check(S.And(len(d) == 2, S.implies(y[0] == -y[1], S.close(d[0], d[1], 1e-9))), "same size in both hemispheres")


def cost(S, which):
    O = S.mod("observations.observation")
    A = [S.choice("a%d" % k, [1, 0.25]) for k in range(2)]
    R = [S.choice("r%d" % k, [50, 80]) for k in range(2)]
    free = S.choice("free", [0, 1, 2])
    B = [S.int("b%d" % k, 0, 8) if free == 0 and k == 0 else 3 + k for k in range(2)]
    Q = [S.int("q%d" % k, 10, 200) if free == 1 and k == 0 else 60 + k for k in range(2)]
    D = [S.int("d%d" % k, 0, 300) if free == 2 and k == 0 else 50 + k for k in range(2)]
    mk = lambda a, r: dict(amplitude=S.arr(a, "f8"), radius_s=S.arr(r, "f8"))
    if which == "chelton":
        T = S.mod("featured_tracking.old_tracker_reference").CheltonTracker
        c = T.cost_function(mk(A, R), mk(B, Q), S.arr(D, "f8"))
        S.check(S.And(c[0] == D[0], c[1] == D[1]), "the distance is the cost")
        return
    c = O.EddiesObservations.cost_function(mk(A, R), mk(B, Q), S.arr(D, "f8"))
    for k in range(2):
        e = ((A[k] - B[k]) / A[k]) ** 2 + ((R[k] - Q[k]) / R[k]) ** 2 + (D[k] / 125) ** 2
        S.check(S.And(c[k] >= 0, S.close(c[k] * c[k], e, 1e-6)), "root of the squared relative differences and of the distance")


def ratio(S):
    """amplitudes and radius of linked observations are within a factor of 2.5"""
    T = S.mod("featured_tracking.old_tracker_reference")
    m = [[S.bool("m%d%d" % (i, j)) for j in range(2)] for i in range(2)]
    A = [S.choice("a%d" % k, [2, 5]) for k in range(2)]
    R = [S.choice("r%d" % k, [40, 100]) if k else 40 for k in range(2)]
    B = [S.int("b%d" % k, 0, 20) for k in range(2)]
    Q = [S.int("q%d" % k, 10, 300) for k in range(2)]
    mask = S.arr(m, "?")
    T.check_ratio(mask, S.arr(A, "f8"), S.arr(B, "f8"), S.arr(R, "f8"), S.arr(Q, "f8"))
    for i in range(2):
        for j in range(2):
            ok = S.And(B[j] * 5 > A[i] * 2, B[j] * 2 < A[i] * 5, Q[j] * 5 > R[i] * 2, Q[j] * 2 < R[i] * 5)
            edge = S.Or(B[j] * 5 == A[i] * 2, B[j] * 2 == A[i] * 5, Q[j] * 5 == R[i] * 2, Q[j] * 2 == R[i] * 5)
            S.check(S.Or(edge, S.iff(mask[i, j], S.And(m[i][j], ok))), "candidates with close amplitude and radius")


def ground(S, T, S_land, nx=12, ny=4):
    """land mask of 12 x 4 pixels of 30 by 1 degrees"""
    G = S.mod("dataset.grid").RegularGridDataset
    z = [[1 if (i, j) == S_land else 0 for j in range(ny)] for i in range(nx)] if not isinstance(S_land, dict) else [[S_land.get((i, j), 0) for j in range(ny)] for i in range(nx)]
    g = G.with_array(("lon", "lat"), dict(
        lon=S.arr([-165.0 + 30 * i for i in range(nx)], "f8"), lat=S.arr([9.5 + j for j in range(ny)], "f8"), mask=S.masked(S.arr(z, "i1"), S.arr([[False] * ny] * nx, "?"))), centered=True)
    return g


class Swap:
    """replaces attributes during a check"""

    def __init__(self, *l):
        self.l = [(o, n, v, getattr(o, n)) for o, n, v in l]

    def __enter__(self):
        for o, n, v, _ in self.l:
            setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, _, v in self.l:
            setattr(o, n, v)


def land(S):
    """links whose path meets land are removed"""
    T = S.mod("featured_tracking.old_tracker_reference").CheltonTracker
    cells = [(0, 1), (11, 1), (1, 1), (0, 2), (1, 2), (11, 2), (6, 1)]
    L = {c: S.int("land%d_%d" % c, 0, 1) for c in cells}
    g = ground(S, T, L)
    a = (S.choice("x0", [0, 1, 11]), S.choice("y0", [1, 2]))
    b = (S.choice("x1", [0, 1, 11]), S.choice("y1", [1, 2]))
    o, n = table(S, 2), table(S, 2)
    pos = lambda p, t: (-180 + 30 * p[0] + 12 + t, 9 + p[1] + 0.25)
    for t, p, turn in ((o, a, 0), (n, b, S.choice("turn", [0, 360]))):
        t.lon[0], t.lat[0] = pos(p, turn)
        t.lon[1], t.lat[1] = pos((6, 1), 0)
    with Swap((T, "GROUND", g)):
        m = T.across_ground(o.obs, n.obs)
    S.check(m.shape == (2,), "one answer by link")
    # pixels of the path: at most two apart
    di = (b[0] - a[0] + 6) % 12 - 6
    dj = b[1] - a[1]
    k = max(abs(di), abs(dj))
    ends = [L[a], L[b]]
    if k <= 1:
        S.check(S.iff(m[0], S.And(*[v == 0 for v in ends])), "link kept exactly when its pixels are at sea")
    else:
        mid = [L.get((0, j), 0) for j in (1, 2)]
        S.check(S.implies(m[0], S.And(*[v == 0 for v in ends])), "ends of a kept link are at sea")
        S.check(S.implies(S.And([v == 0 for v in ends + mid]), m[0]), "a link at sea is kept")
        S.check(S.implies(S.And([v == 1 for v in mid]), S.Not(m[0])), "a link through land is removed")
    S.check(S.iff(m[1], L[6, 1] == 0), "a still observation on land has no link")


def table(S, n, cls=None):
    O = S.mod("observations.observation")
    return (cls or O.EddiesObservations)(size=n)


def chelton(S, case):
    """candidates: search area, ratios and land together"""
    M = S.mod("featured_tracking.old_tracker_reference")
    T = M.CheltonTracker
    L = {c: S.int("land%d_%d" % c, 0, 1) if case == "land" else 0 for c in [(0, 1), (11, 1), (0, 2)]}
    g = ground(S, T, L)
    o, n = table(S, 2, T), table(S, 2, T)
    lon0 = -179.5
    y0 = [10.25, 11.5]
    for k in range(2):
        o.lon[k], o.lat[k], o.amplitude[k], o.radius_e[k] = lon0, y0[k], 4, 50
    dx = S.fx("dx", -2, 2, 4) if case == "area" else S.choice("dx", [0.5, -1.25, 1.25])
    dy = S.choice("dy", [0, 0.5, 1])
    amp = S.int("amp", 1, 12) if case == "ratio" else 4
    rad = S.int("rad", 10, 200) if case == "ratio" else 50
    x1, y1 = [lon0 + dx + S.choice("turn", [0, 360]), lon0], [10.25 + dy, 11.5]
    for k in range(2):
        n.lon[k], n.lat[k], n.amplitude[k], n.radius_e[k] = x1[k], y1[k], amp if k == 0 else 4, rad if k == 0 else 50
    with Swap((T, "GROUND", g)):
        m = o.mask_function(n, None)
    S.check(m.shape == (2, 2), "every couple")
    for i in range(2):
        for j in range(2):
            minor = 1.05
            major = 1.05 + 0.45 * (23 - y0[i]) / 18
            a = minor + (major - minor) / 2
            c = lon0 - (major - minor) / 2
            ex, ey = wrapdiff(S, x1[j], c), y1[j] - y0[i]
            lim = (1 - ey * ey / minor**2) * a * a
            q = ex * ex
            A, R = (amp, rad) if j == 0 else (4, 50)
            ok = S.And(q < lim, A * 5 > 8, A * 2 < 20, R * 5 > 100, R * 2 < 250)
            row = lambda y: int(y - 9)
            col = S.If(dx < -0.5, 11, 0) if j == 0 else 0
            sea0 = L[0, row(y0[i])] == 0
            sea1 = S.If(col == 11, L.get((11, row(y1[j])), 0), L[0, row(y1[j])]) == 0
            near = S.And(q > lim - 1e-6, q < lim + 1e-6)
            S.check(S.Or(near, S.iff(m[i, j], S.And(ok, sea0, sea1))), "candidates in the area, with close sizes and without land between")


def ellipse(S, east, shifted, vec):
    """fixed ellipse in km"""
    O = S.mod("observations.observation")

    def fake(lon0, lat0, lon1, lat1):
        d = (lon1 - lon0 + 180) % 360 - 180
        return (abs(d) + abs(lat1 - lat0)) * 111200.0

    def grid(lon0, lat0, lon1, lat1):
        np = S.np
        r = np.empty((len(lon0), len(lon1)))
        for i in range(len(lon0)):
            for j in range(len(lon1)):
                dx, dy = abs((lon1[j] - lon0[i] + 180) % 360 - 180), abs(lat1[j] - lat0[i])
                r[i, j] = S.If(S.Or(dx > 20, dy > 15), float("nan"), (dx + dy) * 111.2) if not S.Or(dx > 20, dy > 15) else float("nan")
        return r

    o, n = table(S, 2), table(S, 2)
    lon0 = S.choice("lon0", [0, 179.75])
    y0 = [0, 60]
    dx, dy = S.fx("dx", -2, 2, 8), S.choice("dy", [0, 0.25, -0.75])
    far = S.choice("far", [0, 30])
    x1, y1 = [lon0 + dx + S.choice("turn", [0, -360]) + far, lon0], [dy, 60.25]
    for k in range(2):
        o.lon[k], o.lat[k] = lon0, y0[k]
        n.lon[k], n.lat[k] = x1[k], y1[k]
    minor, major = ([50, 80], [120, 100]) if vec else ([50, 50], [120, 120])
    kw = dict(minor=S.arr(minor, "f8"), major=S.arr(major, "f8")) if vec else dict(minor=50, major=120)
    with Swap((O, "distance", fake), (O, "distance_grid", grid)):
        m = o.fixed_ellipsoid_mask(n, only_east=east, shifted_ellipse=shifted, **kw)
    S.check(m.shape == (2, 2), "every couple")
    for i in range(2):
        for j in range(2):
            ddx, ddy = wrapdiff(S, x1[j], lon0), y1[j] - y0[i]
            if abs(ddy) > 15 or (j == 0 and far):
                S.check(S.Not(m[i, j]), "far observations are no candidate")
                continue
            d = (abs(ddx) + abs(ddy)) * 111.2
            f = (major[i] ** 2 - minor[i] ** 2) ** 0.5 / (111.2 * math.cos(math.radians(y0[i])))
            cx = -(major[i] - minor[i]) / 2 if shifted else 0
            s = (abs(wrapdiff(S, ddx, cx - f)) + abs(wrapdiff(S, ddx, cx + f)) + 2 * abs(ddy)) * 111.2
            inside = s < 2 * major[i]
            if east:
                inside = S.And(inside, ddx >= 0)
            near = S.Or(abs(s - 2 * major[i]) < 1e-6, abs(d - minor[i]) < 1e-6, abs(d - major[i]) < 1e-6)
            S.check(S.Or(near, S.iff(m[i, j], S.Or(d < minor[i], S.And(d <= major[i], inside)))), "inside the small circle, or in the ellipse and the large circle")


def best(S, n, m):
    """each observation takes its closest candidate; the one of largest amplitude wins"""
    T = S.mod("featured_tracking.old_tracker_reference").CheltonTracker
    c = [[S.int("c%d%d" % (i, j), 1, 9) for j in range(m)] for i in range(n)]
    k = [[S.bool("k%d%d" % (i, j)) for j in range(m)] for i in range(n)]
    amp = [S.int("amp%d" % i, 1, 9) for i in range(n)]
    for i in range(n):
        for a in range(i):
            S.assume(amp[i] != amp[a])
        for j in range(m):
            for b in range(j):
                S.assume(S.Or(k[i][j], k[i][b], c[i][j] != c[i][b]))
    o, q = table(S, n, T), table(S, m, T)
    for i in range(n):
        o.amplitude[i] = amp[i]
    mat = S.masked(S.arr(c, "f8"), S.arr(k, "?"))
    a, b = o.solve_function(mat)
    a, b = o.post_process_link(q, a, b)
    got = [(int(x), int(y)) for x, y in zip(a, b)]
    S.check(len({x for x, _ in got}) == len(got) and len({y for _, y in got}) == len(got), "each observation is linked at most once")
    # first choice of each observation
    for i in range(n):
        for j in range(m):
            first = S.And([S.Not(k[i][j])] + [S.Or(k[i][b], c[i][j] < c[i][b]) for b in range(m) if b != j])
            rival = []
            for p in range(n):
                if p != i:
                    rival.append(S.And([S.Not(k[p][j]), amp[p] > amp[i]] + [S.Or(k[p][b], c[p][j] < c[p][b]) for b in range(m) if b != j]))
            win = S.And(first, S.Not(S.Or(rival)) if rival else True)
            S.check(S.iff((i, j) in got, win), "closest candidate, kept for the largest amplitude")


def predict(S, area, nd, nv):
    """virtual observations keep the speed and fields of the lost ones"""
    O = S.mod("observations.observation")
    A = S.mod("featured_tracking.area_tracker").AreaTracker
    cls = A if area else O.EddiesObservations
    kw = dict(track_array_variables=2, array_variables=["contour_lon_e", "contour_lat_e"])
    mk = lambda n: cls(size=n, **kw)
    a, b = mk(nd), mk(nd)
    v = O.VirtualEddiesObservations(size=nv, **kw)
    val = {}
    for nm, t, n in (("a", a, nd), ("b", b, nd), ("v", v, nv)):
        for i in range(n):
            for f in ("lon", "lat", "amplitude"):
                val[nm, f, i] = S.fx("%s_%s_%d" % (nm, f, i), -200, 200, 8)
                t.obs[f][i] = val[nm, f, i]
            for q in range(2):
                t.obs["contour_lon_e"][i, q] = val[nm, "c", i, q] = S.int("%sc_%d_%d" % (nm, i, q), -180, 180)
                t.obs["contour_lat_e"][i, q] = q
    seg, tr, dl = [], [], []
    for i in range(nv):
        seg.append(S.int("seg%d" % i, 1, 4))
        tr.append(S.int("tr%d" % i, 0, 50))
        dl.append((S.fx("dlon%d" % i, -2, 2, 8), S.fx("dlat%d" % i, -2, 2, 8)))
        v.obs["segment_size"][i], v.obs["track"][i], v.obs["dlon"][i], v.obs["dlat"][i] = seg[i], tr[i], *dl[i]
    dead = [S.int("dead%d" % i, 0, 50) for i in range(nd)]
    src = mk(1)
    src.sign_type = S.choice("sign", [-1, 1])
    r = src.propagate(a.obs, b.obs, v.obs if nv else None, S.arr(dead, "u4"), nd + nv, model=src)
    S.check(S.And(len(r) == nd + nv, r.sign_type == src.sign_type), "as many predictions")
    for i in range(nd + nv):
        if i < nd:
            x, y = (2 * val["b", f, i] - val["a", f, i] for f in ("lon", "lat"))
            s, t, nm, k = 1, dead[i], "b", i
            d = val["b", "lon", i] - val["a", "lon", i], val["b", "lat", i] - val["a", "lat", i]
        else:
            k = i - nd
            x, y = val["v", "lon", k] + dl[k][0], val["v", "lat", k] + dl[k][1]
            s, t, nm, d = seg[k] + 1, tr[k], "v", dl[k]
        S.check(S.And(S.close(r.obs["lon"][i], x, 1e-3), S.close(r.obs["lat"][i], y, 1e-3)), "moved by the last displacement")
        S.check(S.And(S.close(r.obs["dlon"][i], d[0], 1e-3), S.close(r.obs["dlat"][i], d[1], 1e-3)), "displacement kept")
        S.check(S.And(r.obs["segment_size"][i] == s, r.obs["track"][i] == t), "number of predictions and track")
        S.check(S.close(r.obs["amplitude"][i], val[nm, "amplitude", k], 1e-3), "fields kept")
        if area:
            S.check(S.And([S.close(r.obs["contour_lon_e"][i, q], val[nm, "c", k, q], 1e-2) for q in range(2)]), "contours kept")


def cases(tier):
    q = tier == "quick"
    r = [("distances-%d-%d" % t, grid_distance, dict(t0=t[0], t1=t[1])) for t in ((0, 0), (0, 360), (-360, 0), (720, 0))]
    for mi, ma in ((1.5, (1.5, 4.5)), (1.05, (1.5, 1.05))) + (() if q else ((2.0, (10.0, 3.0)),)):
        for t in (0, 360):
            r.append(("area-%g-%d" % (mi, t), area, dict(minor=mi, majors=list(ma), t1=t)))
    r += [("axis-%d" % k, axis, p) for k, p in enumerate([dict(cmin=1.5, cmax=10.0, lat1=13.5, lat2=5.0, degrees=True), dict(cmin=1.5, cmax=10.0, lat1=13.5, lat2=5.0, degrees=False), dict(cmin=1.05, cmax=1.5, lat1=23, lat2=5, degrees=True)])]
    r += [("cost-" + w, cost, dict(which=w)) for w in ("chelton", "default")]
    r += [("ratio", ratio, {}), ("land", land, {})]
    r += [("chelton-" + c, chelton, dict(case=c)) for c in ("area", "ratio", "land")]
    for e in (False, True):
        for s in (False, True):
            for v in (False, True):
                r.append(("ellipse-%d%d%d" % (e, s, v), ellipse, dict(east=e, shifted=s, vec=v)))
    r += [("best-%d%d" % s, best, dict(n=s[0], m=s[1])) for s in ([(2, 2), (3, 1), (1, 3)] if q else [(2, 2), (3, 2), (2, 3)])]
    for a in (False, True):
        for nd, nv in ((1, 1), (2, 0), (0, 2)) if q else ((1, 1), (2, 0), (0, 2), (2, 2)):
            r.append(("predict-%d-%d%d" % (a, nd, nv), predict, dict(area=a, nd=nd, nv=nv)))
    return r
