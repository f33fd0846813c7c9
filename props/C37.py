"""Comparison of two datasets: identical items, close tracks, matches, positions in contours, common areas."""
import types

from props.C11 import Rect

PROPERTY = "C37"


def BOUNDS(tier):
    k = "3 against 3" if tier == "quick" else "4 against 4"
    return ("identical items: up to %s networks or segments of 1 or 2 observations on 2 dates, 2 longitudes and 2 latitudes, any numbering with holes; "
            "dates: up to 3 observations against 2, or 2 against 3, on 4 dates; close tracks or networks: 3 against 4 observations on 3 dates and 3 places; "
            "centers: 2 against 2 on every degree of two turns and every whole distance up to 8 degrees; common area: rectangles on a quarter degree grid, in any of 3 turns; "
            "positions: 2 positions among 10 (any undefined) in 3 rectangles; particles: rectangles of up to 2 degrees on a mesh of 0.5 or 0.75 degree" % k)


OUTSIDE = "overlap of contours other than rectangles, larger datasets, positions exactly on an edge"


class Box(Rect):
    """union of rectangles is only used for its area"""

    def __add__(self, o):
        a, b, c = self.area(), o.area(), (self & o).area()
        return types.SimpleNamespace(area=lambda *k: a + b - c)


_m = types.ModuleType("Polygon")
_m.Polygon = Box
MODELS = {"Polygon": _m}


def net(S, sizes, nets, segs, t, x, y):
    N = S.mod("observations.network")
    o = N.NetworkObservations(size=sum(sizes), track_extra_variables=["segment", "next_obs", "previous_obs", "next_cost", "previous_cost"])
    k = 0
    for s, size in enumerate(sizes):
        for q in range(size):
            o.track[k], o.segment[k] = nets[s], segs[s]
            o.time[k], o.lon[k], o.lat[k] = t[k], x[k], y[k]
            o.next_obs[k] = k + 1 if q + 1 < size else -1
            o.previous_obs[k] = k - 1 if q else -1
            k += 1
    return o


def identify(S, a, b, segment, size_min, free):
    """a, b: (sizes, networks, segments)"""
    def build(tag, sizes, nets, segs):
        t, x, y = [], [], []
        for s, size in enumerate(sizes):
            for q in range(size):
                t.append(S.int("%st%d_%d" % (tag, s, q), 0, 1) if q == 0 else (t[-1] + 1 if segment or free != "t" else S.int("%st%d_%d" % (tag, s, q), 0, 1)))
                x.append(S.int("%sx%d_%d" % (tag, s, q), 0, 1))
                y.append(S.int("%sy%d_%d" % (tag, s, q), 0, 1) if free == "y" else 0)
        o = net(S, sizes, nets, segs, t, x, y)
        it, k = {}, 0
        for s, size in enumerate(sizes):
            key = (nets[s], segs[s]) if segment else nets[s]
            it.setdefault(key, []).extend((t[q], x[q], y[q]) for q in range(k, k + size))
            k += size
        return o, it

    A, ia = build("a", *a)
    B, ib = build("b", *b)
    ga, gb = A.identify_in(B, size_min=size_min, segment=segment)
    ga, gb = [S.concrete(v) for v in ga], [S.concrete(v) for v in gb]
    if segment:
        # segments are numbered like segment_track_array does
        na = {S.concrete(v): (S.concrete(n), S.concrete(s)) for v, n, s in zip(A.segment_track_array, A.track, A.segment)}
        nb = {S.concrete(v): (S.concrete(n), S.concrete(s)) for v, n, s in zip(B.segment_track_array, B.track, B.segment)}
        S.check(all(v in na for v in ga) and all(v in nb or v == -1 for v in gb), "numbers of existing segments")
        ga, gb = [na.get(v) for v in ga], [nb.get(v) for v in gb]
        none = None
    else:
        none = -1
    want = sorted(k for k, v in ia.items() if len(v) >= size_min)
    S.check(sorted(ga) == want, "every item with enough observations once")
    used = [v for v in gb if v != none]
    S.check(len(used) == len(set(used)) and all(v in ib for v in used), "an item of the other dataset is used once")

    def same(p, q):
        if len(p) != len(q):
            return False
        r = lambda u, v: S.And(u[0] == v[0], u[1] == v[1], u[2] == v[2])
        if len(p) == 1:
            return r(p[0], q[0])
        return S.Or(S.And(r(p[0], q[0]), r(p[1], q[1])), S.And(r(p[0], q[1]), r(p[1], q[0])))

    for k, v in zip(ga, gb):
        if v != none:
            S.check(same(ia[k], ib[v]), "paired items hold the same observations")
        else:
            for j, w in ib.items():
                if j not in used:
                    S.check(S.Not(same(ia[k], w)), "an item without pair has no free identical item")


def align(S, na, nb, all_ref, sort):
    O = S.mod("observations.observation")

    def table(tag, n):
        o = O.EddiesObservations(size=n)
        t = S.ints(tag, n, 0, 3)
        if sort:
            for p, q in zip(t, t[1:]):
                S.assume(p <= q)
        for k in range(n):
            o.time[k] = t[k]
        return o, [S.concrete(v) for v in t]

    A, ta = table("a", na)
    B, tb = table("b", nb)
    lo = S.choice("lo", [0, 1])
    hi = S.choice("hi", [2, 4])
    got = []
    idx = lambda i: list(range(S.concrete(i.start), S.concrete(i.stop))) if isinstance(i, slice) else sorted(S.concrete(v) for v in i)
    for i, j, b0, b1 in A.align_on(B, bins=S.np.arange(lo, hi + 1), all_ref=all_ref):
        got.append((S.concrete(b0), S.concrete(b1), idx(i), idx(j)))
    exp = []
    for d in range(lo, hi):
        i, j = [k for k, v in enumerate(ta) if v == d], [k for k, v in enumerate(tb) if v == d]
        if i and (j or all_ref):
            exp.append((d, d + 1, i, j))
    S.check(got == exp, "one group per date, with all the observations of both datasets")


def close(S, kind, ids_a, ids_b, nb_min, step):
    na, nb = len(ids_a), len(ids_b)
    ta, tb = S.ints("ta", na, 0, 2), S.ints("tb", nb, 0, 2)
    xa, xb = S.ints("xa", na, 0, 2), S.ints("xb", nb, 0, 2)
    for ids, t in ((ids_a, ta), (ids_b, tb)):
        for k in range(1, len(ids)):
            if ids[k] == ids[k - 1]:
                S.assume(t[k] == t[k - 1] + 1)
    if kind == "tracks":
        T = S.mod("observations.tracking")
        A, B = T.TrackEddiesObservations(size=na), T.TrackEddiesObservations(size=nb)
    else:
        N = S.mod("observations.network")
        kw = dict(track_extra_variables=["segment", "next_obs", "previous_obs", "next_cost", "previous_cost"])
        A, B = N.NetworkObservations(size=na, **kw), N.NetworkObservations(size=nb, **kw)
    for o, ids, t, x in ((A, ids_a, ta, xa), (B, ids_b, tb, xb)):
        for k in range(len(ids)):
            o.track[k], o.time[k], o.lon[k], o.lat[k] = ids[k], t[k] * step + 10, x[k], 0
            if kind != "tracks":
                o.segment[k] = 1
                o.next_obs[k] = k + 1 if k + 1 < len(ids) and ids[k + 1] == ids[k] else -1
                o.previous_obs[k] = k - 1 if k and ids[k - 1] == ids[k] else -1
            o["speed_area"][k] = k + 1
    r = (A.close_tracks if kind == "tracks" else A.close_network)(B, nb_obs_min=nb_min, method="close_center", delta=0.5)
    got = [S.concrete(v) - 1 for v in r["speed_area"]]
    S.check(got == [k for k in range(nb) if k in set(got)] and len(set(got)) == len(got), "rows of the other dataset, in order")
    for t in sorted(set(ids_b)):
        rows = [k for k in range(nb) if ids_b[k] == t]
        # each couple of close observations on the same date counts
        c = S.sum([S.If(S.And(ta[i] == tb[k], xa[i] == xb[k]), 1, 0) for k in rows for i in range(na)])
        S.check(len([k for k in rows if k in got]) in (0, len(rows)), "a track is kept whole or dropped")
        S.check(S.iff(rows[0] in got, c >= nb_min), "kept when enough observations are close on the same date")
    for q, k in enumerate(got):
        S.check(S.And(r.track[q] == ids_b[k], r.time[q] == tb[k] * step + 10, r.lon[q] == xb[k]), "fields")


def center(S, t0, t1):
    P = S.mod("poly")
    x0, y0 = S.ints("a", 2, 0, 359), S.ints("b", 2, -5, 5)
    x1, y1 = S.ints("c", 2, 0, 359), S.ints("d", 2, -5, 5)
    delta = S.int("delta", 0, 8)
    f = lambda v, s=0: S.arr([q * 1.0 + s for q in v], "f8")
    i, j, c = P.close_center(f(x0, t0), f(y0), f(x1, t1), f(y1), delta * 1.0)
    got = [(S.concrete(p), S.concrete(q)) for p, q in zip(i, j)]
    S.check(len(got) == len(set(got)) and got == sorted(got), "no couple twice")
    S.check(len(c) == len(got) and S.And([v == 1 for v in c]), "score of 1")
    for a in range(2):
        for b in range(2):
            ad = lambda d: S.And(d <= delta, -d <= delta)
            dx = S.Or([ad(x1[b] + t1 - x0[a] - t0 + s) for s in (-720, -360, 0, 360, 720)])
            S.check(S.iff((a, b) in got, S.And(dx, ad(y1[b] - y0[a]))), "exactly the couples of centers closer than delta in longitude and in latitude")


def rect(x, y, w, h):
    return [x, x + w, x + w, x, x], [y, y, y + h, y + h, y]


def match(S, intern, sub):
    """overlap of unit squares on a half degree grid; other contours are far away"""
    O = S.mod("observations.observation")
    n = 2
    av = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
    A = O.EddiesObservations(size=n + 1, track_array_variables=5, array_variables=av)
    B = O.EddiesObservations(size=n, track_array_variables=5, array_variables=av)
    pa, pb = S.ints("a", n, 0, 3), S.ints("b", n, 0, 3)
    k, far = ("s", "e") if intern else ("e", "s")
    for o, p in ((A, [0] + pa), (B, pb)):
        for q, v in enumerate(p):
            x, y = rect(v * 0.5 + 10, 0, 1.0, 1.0)
            x1, y1 = rect(100.0 + 10 * q + (50 if o is A else 0), 0, 1.0, 1.0)
            for e in range(5):
                o["contour_lon_" + k][q, e], o["contour_lat_" + k][q, e] = x[e], y[e]
                o["contour_lon_" + far][q, e], o["contour_lat_" + far][q, e] = x1[e], y1[e]
    cmin = S.choice("cmin", [0, 0.25, 0.5])
    i_self = {"index": S.arr([2, 1], "i8"), "slice": slice(1, 3), "mask": S.arr([False, True, True], "?")}[sub]
    i, j, c = A.match(B, i_self=i_self, intern=intern, cmin=cmin)
    order = [1, 0] if sub == "index" else [0, 1]
    got = {}
    for u, v, w in zip(i, j, c):
        got[(S.concrete(u), S.concrete(v))] = w
    S.check(len(got) == len(i), "no couple twice")
    for u in range(n):
        for v in range(n):
            d = pa[order[u]] - pb[v]
            d = S.If(d < 0, -d, d)
            # shared width of 1 - d / 2, over the union of 1 + d / 2
            ok = S.And(d <= 2, 2 - d >= cmin * (2 + d))
            S.check(S.iff((u, v) in got, ok), "couples with a score over the limit")
            if (u, v) in got:
                S.check(S.close(got[(u, v)] * (2 + d), 2 - d, 1e-6), "score")
    # back to the rows of the dataset
    ref = A.re_reference_index(i, i_self) if sub != "mask" else None
    if ref is not None:
        S.check(S.And([ref[q] == 1 + order[S.concrete(i[q])] for q in range(len(i))]), "rows of the dataset")


def common(S, turn, intern):
    O = S.mod("observations.observation")
    k = "s" if intern else "e"
    av = ["contour_lon_" + k, "contour_lat_" + k]
    A = O.EddiesObservations(size=2, track_array_variables=5, array_variables=av)
    B = O.EddiesObservations(size=2, track_array_variables=5, array_variables=av)
    W, H = 2.0, 2.0
    w, h = 1.0, 3.0
    dx = [S.fx("dx", -3, 3, 4), 0.5]
    dy = [S.concrete(S.int("dy", -7, 5)) / 2, 0.5]
    x0 = [S.choice("x0", [-180.0, 0.0, 179.0]), 20.0]
    for q in range(2):
        for o, (x, y) in ((A, rect(x0[q], 10.0, W, H)), (B, rect(x0[q] + dx[q] + turn, 10.0 + dy[q], w, h))):
            for e in range(5):
                o["contour_lon_" + k][q, e], o["contour_lat_" + k][q, e] = x[e], y[e]
    c = O.EddiesObservations.cost_function_common_area(A.obs, B.obs, None, intern=intern)
    S.check(len(c) == 2, "one cost by couple")
    for q in range(2):
        lo, hi = S.max(dx[q], 0), S.min(dx[q] + w, W)
        iw = S.max(hi - lo, 0)
        ih = max(min(dy[q] + h, H) - max(dy[q], 0), 0)
        inter = iw * ih
        m = S.np.ma.getmaskarray(c)[q]
        S.check(S.iff(S.concrete(m), inter <= 0), "masked without common area")
        S.check(S.close((1 - c.data[q]) * min(W * H, w * h), inter, 1e-3), "one minus the common area over the smallest area")


def positions(S, how, k, turn):
    O = S.mod("observations.observation")
    n = 2
    px, py = [S.choice("x%d" % i, [0, 1, 3, 4, 9]) for i in range(n)], [S.choice("y%d" % i, [0, 2]) for i in range(n)]
    lost = [S.concrete(S.bool("lost%d" % i)) for i in range(n)] if how in ("contains", "inside") else [False] * n
    nan = float("nan")
    X = [nan if l and i != 1 else v + 178.0 + turn for i, (v, l) in enumerate(zip(px, lost))]
    Y = [nan if l and i != 0 else v + 10.0 for i, (v, l) in enumerate(zip(py, lost))]
    b = [(178.5, 9.5, 3.0, 3.0), (180.5, 11.5, 4.0, 2.0), (186.5, 9.5, 1.0, 1.0)]
    inb = lambda i, q: S.And(px[i] + 178 > q[0], px[i] + 178 < q[0] + q[2], py[i] + 10 > q[1], py[i] + 10 < q[1] + q[3])
    if how in ("contains", "inside"):
        av = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
        o = O.EddiesObservations(size=3, track_array_variables=5, array_variables=av)
        for q, v in enumerate(b):
            for s, (x, y) in ((k, rect(*v)), ("s" if k == "e" else "e", rect(v[0], v[1] - 60, v[2], v[3]))):
                for e in range(5):
                    o["contour_lon_" + s][q, e], o["contour_lat_" + s][q, e] = x[e], y[e]
        r = getattr(o, how)(S.arr(X, "f8"), S.arr(Y, "f8"), intern=k == "s")
    else:
        o = O.EddiesObservations(size=n)
        for i in range(n):
            o.lon[i], o.lat[i] = X[i], Y[i]
        r = o.mask_from_polygons([tuple(S.arr(w, "f8") for w in rect(*v)) for v in b])
    S.check(len(r) == n, "one answer by position")
    for i in range(n):
        if lost[i]:
            S.check(r[i] == (-1 if how == "contains" else False), "an undefined position is in no contour")
            continue
        if how == "contains":
            exp = S.If(inb(i, b[0]), 0, S.If(inb(i, b[1]), 1, S.If(inb(i, b[2]), 2, -1)))
            S.check(r[i] == exp, "first contour which holds the position")
        else:
            S.check(S.iff(S.concrete(r[i]), S.Or([inb(i, v) for v in b])), "inside one of the contours")


def particles(S, step, k):
    O = S.mod("observations.observation")
    av = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
    o = O.EddiesObservations(size=2, track_array_variables=6, array_variables=av)
    x0 = S.concrete(S.int("x0", -9, 9))
    w = S.concrete(S.int("w", 1, 9))
    y0, h = S.choice("y0", [-1.0625, 3.125 - 0.0625]), S.choice("h", [0.5, 1.125])
    b = [(x0 / 4 + 0.0625, y0, w / 4 - 0.125, h), (100.0625, 20.0625, 1.0, 1.0)]
    for q, v in enumerate(b):
        for s, (x, y) in ((k, rect(*v)), ("s" if k == "e" else "e", rect(v[0], v[1] - 60, v[2], v[3]))):
            x, y = x + x[-1:], y + y[-1:]  # last position repeated
            for e in range(6):
                o["contour_lon_" + s][q, e], o["contour_lat_" + s][q, e] = x[e], y[e]
    x, y, i = o.create_particles(step, intern=k == "s")
    exp = []
    for q, v in enumerate(b):
        for a in range(int((v[0] - 5) // step), int((v[0] + v[2] + 5) // step)):
            for c in range(int((v[1] - 5) // step), int((v[1] + v[3] + 5) // step)):
                if v[0] < a * step < v[0] + v[2] and v[1] < c * step < v[1] + v[3]:
                    exp.append((q, a * step, c * step))
    got = [(S.concrete(r), p, s) for r, p, s in zip(i, x, y)]
    S.check(len(got) == len(exp), "number of particles")
    for (r, p, s), e in zip(sorted(got, key=lambda v: v[0]), exp):
        S.check(S.And(r == e[0], S.close(p, e[1], 1e-5), S.close(s, e[2], 1e-5)), "exactly the nodes of the mesh inside each contour, with its number")


def unions(S, minimal):
    P = S.mod("poly")
    x = S.ints("x", 2, 0, 8)
    mk = lambda a: P.Polygon(P.create_vertice(*[S.arr(v, "f8") for v in rect(a / 4.0, 0.0, 1.0, 1.0)]))
    r = P.polygon_overlap(mk(4), [mk(v) for v in x], minimal_area=minimal)
    for q, v in enumerate(x):
        d = S.If(v < 4, 4 - v, v - 4)
        S.check(S.close(r[q] * (1 if minimal else 1 + d / 4.0), 1 - d / 4.0, 1e-6), "shared area over the reference area")


def cases(tier):
    r = []
    one = lambda *nets: ([1] * len(nets), list(nets), [1] * len(nets))
    L = [("ones", one(1, 2, 5), one(3, 4, 6), False, 1, "y"),
         ("hole", ([1, 2], [1, 3], [1, 1]), ([2, 1], [2, 7], [1, 1]), False, 1, "t"),
         ("only_two", ([1, 2, 2], [1, 2, 3], [1, 1, 1]), ([2, 2], [1, 2], [1, 1]), False, 1, "x"),
         ("only_one", ([1, 2], [1, 2], [1, 1]), ([1, 1], [4, 5], [1, 1]), False, 1, "x"),
         ("mini", ([1, 2, 2], [1, 2, 3], [1, 1, 1]), ([2, 1, 2], [3, 4, 6], [1, 1, 1]), False, 2, "x"),
         ("two_segs", ([1, 1, 1], [1, 1, 2], [1, 2, 1]), ([2], [1], [1]), False, 1, "t"),
         ("segs", ([1, 1, 2], [1, 1, 2], [1, 3, 1]), ([1, 2, 1], [1, 1, 4], [2, 3, 1]), True, 1, "x"),
         ("segs_two", ([2, 2], [1, 1], [1, 2]), ([1, 2], [1, 1], [1, 2]), True, 1, "x")]
    if tier != "quick":
        L += [("ones4", one(1, 2, 5, 6), one(3, 4, 6, 9), False, 1, "x"), ("twos", ([2, 2, 2], [1, 2, 4], [1, 1, 1]), ([2, 2, 2], [1, 2, 4], [1, 1, 1]), False, 1, "x"),
              ("segs4", ([1, 1, 1, 1], [1, 1, 2, 3], [1, 3, 1, 1]), ([1, 1, 1, 1], [1, 4, 4, 4], [2, 3, 5, 6]), True, 1, "x")]
    r += [("identify_" + n, identify, dict(a=a, b=b, segment=s, size_min=m, free=f)) for n, a, b, s, m, f in L]
    for all_ref in (False, True):
        for sort in (False, True):
            for na, nb in ((2, 2),) if tier == "quick" else ((2, 3), (3, 2)):
                r.append(("align_%d_%d_%d%d" % (na, nb, all_ref, sort), align, dict(na=na, nb=nb, all_ref=all_ref, sort=sort)))
    for kind in ("tracks", "network"):
        for q, (ia, ib, nb_min, step) in enumerate([([1, 1], [1, 1, 2], 1, 1), ([1, 3], [2, 2, 4], 2, 1)] + ([([1, 1, 2], [1, 1, 2, 5], 2, 1)] if tier != "quick" else [])):
            r.append(("close_%s_%d" % (kind, q), close, dict(kind=kind, ids_a=ia, ids_b=ib, nb_min=nb_min, step=step)))
    r += [("center_%d_%d" % t, center, dict(t0=t[0], t1=t[1])) for t in ((0, 0), (-180, 0), (0, -360))]
    r += [("match_%d_%s" % (i, s), match, dict(intern=i, sub=s)) for i, s in ((False, "index"), (True, "slice"), (False, "mask"))]
    r += [("common_%d_%d" % t, common, dict(turn=t[0], intern=t[1])) for t in ((0, False), (-360, False), (360, True))]
    r += [("positions_%s_%s_%d" % t, positions, dict(how=t[0], k=t[1], turn=t[2])) for t in (("contains", "e", -360), ("contains", "s", 0), ("inside", "e", 0), ("inside", "s", 360), ("mask", "e", 0))]
    r += [("particles_%s_%s" % (str(s).replace(".", ""), k), particles, dict(step=s, k=k)) for s, k in ((0.5, "s"), (0.75, "e"))]
    r += [("union_%d" % m, unions, dict(minimal=m)) for m in (False, True)]
    return r
