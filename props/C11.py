"""Overlap of contours and selection of the candidate pairs."""
import types

PROPERTY = "C11"


def BOUNDS(tier):
    return "bounding boxes: 2 contours against 2 contours of 2 vertices on a degree grid, any longitude convention; overlap score: rectangle of %s sizes at every quarter degree offset of a reference rectangle, both cost conventions, any threshold, any longitude convention" % ("2" if tier == "quick" else "4")


OUTSIDE = "overlap of contours other than rectangles (area and intersection come from the compiled Polygon library, replaced by exact rectangle geometry); contours wider than 170 degrees"


class Rect:
    """exact model of Polygon.Polygon for rectangles given by their four corners in order"""

    def __init__(self, v):
        from vp import snp

        if isinstance(v, tuple):
            self.b = v
            return
        x, y = v[:, 0], v[:, 1]
        self.b = (snp.amin(x), snp.amax(x), snp.amin(y), snp.amax(y))

    def _wh(self):
        return self.b[1] - self.b[0], self.b[3] - self.b[2]

    def area(self, *a):
        w, h = self._wh()
        return w * h

    def __and__(self, o):
        from vp.engine import ite

        a, b = self.b, o.b
        mx, mn = lambda p, q: ite(p >= q, p, q), lambda p, q: ite(p <= q, p, q)
        x0, x1, y0, y1 = mx(a[0], b[0]), mn(a[1], b[1]), mx(a[2], b[2]), mn(a[3], b[3])
        return Rect((x0, mx(x1, x0), y0, mx(y1, y0)))


_m = types.ModuleType("Polygon")
_m.Polygon = Rect
MODELS = {"Polygon": _m}


def boxes(S, t0, t1):
    P = S.mod("poly")
    x0 = [[S.int("a%d%d" % (i, k), 0, 359) for k in range(2)] for i in range(2)]
    y0 = [[S.int("b%d%d" % (i, k), -80, 80) for k in range(2)] for i in range(2)]
    x1 = [[S.int("c%d%d" % (i, k), 0, 359) for k in range(2)] for i in range(2)]
    y1 = [[S.int("d%d%d" % (i, k), -80, 80) for k in range(2)] for i in range(2)]
    for x in x0 + x1:
        S.assume(S.And(x[0] - x[1] <= 80, x[1] - x[0] <= 80))
    i, j = P.bbox_intersection(S.arr([[v * 1.0 + t0 for v in r] for r in x0], "f8"), S.arr([[v * 1.0 for v in r] for r in y0], "f8"),
                               S.arr([[v * 1.0 + t1 for v in r] for r in x1], "f8"), S.arr([[v * 1.0 for v in r] for r in y1], "f8"))
    got = [(S.concrete(i[k]), S.concrete(j[k])) for k in range(len(i))]
    S.check(len(got) == len(set(got)), "no pair twice")
    for a in range(2):
        for b in range(2):
            def touch(u, v, s=0):  # [min, max] of u meets [min, max] of v + s
                return S.And(S.Or([p >= q + s for p in u for q in v]), S.Or([p <= q + s for p in u for q in v]))

            e = S.And(touch(y0[a], y1[b]), S.Or([touch([v + t0 for v in x0[a]], [v + t1 for v in x1[b]], s) for s in (-720, -360, 0, 360, 720)]))
            S.check(S.iff((a, b) in got, e), "exactly the pairs whose bounding boxes meet on the globe")


def rect(x, y, w, h):
    return [x, x + w, x + w, x, x], [y, y, y + h, y + h, y]


def overlap(S, size, turn, mode, thr):
    P = S.mod("poly")
    w, h = size
    dx = S.fx("dx", -3, 3, 4)
    dy = S.concrete(S.int("dy", -5, 5)) / 2
    W, H, X, Y = 2.0, 2.0, 359.0, 10.0
    ax, ay = rect(X, Y, W, H)
    bx, by = rect(X + dx + turn, Y + dy, w, h)
    kw = {"union": {}, "min": dict(minimal_area=True), "p1": dict(p1_area=True), "hybrid": dict(hybrid_area=True)}[mode]
    if thr:
        kw["min_overlap"] = S.fx("thr", 0, 1, 16)
    r = P.vertice_overlap(S.arr([ax], "f8"), S.arr([ay], "f8"), S.arr([bx], "f8"), S.arr([by], "f8"), **kw)
    c = r[0]
    S.out("c", c)
    lo, hi = S.max(dx, 0), S.min(dx + w, W)
    iw = S.max(hi - lo, 0)
    ih = max(min(dy + h, H) - max(dy, 0), 0)
    inter = iw * ih
    a0, a1 = W * H, w * h
    den = {"min": min(a0, a1), "p1": a1}.get(mode, a0 + a1 - inter)
    t = kw.get("min_overlap", 0)
    keep = inter >= t * den
    if mode == "hybrid":
        keep = S.Or(keep, inter >= 0.995 * min(a0, a1))
    near = S.And(keep, inter > 0)
    # the library gives areas in single rounding steps: stay off the threshold itself
    if thr:
        S.assume(S.Or(inter - t * den > 0.001, inter - t * den < -0.001))
        S.assume(S.Or(inter <= 0.98 * min(a0, a1), inter >= 0.999 * min(a0, a1)))
    S.check(S.implies(near, S.close(c * den, inter, 1e-3)), "score is the shared area over the reference area")
    S.check(S.implies(S.Not(near), S.eqf(c, 0)), "no score without overlap or under the threshold")
    S.check(S.And(c >= 0, c <= 1.0001), "score between 0 and 1")


def cases(tier):
    r = [("boxes_%d_%d" % (a, b), boxes, dict(t0=a, t1=b)) for a, b in ((0, 0), (0, -180), (-180, 0), (-360, 0), (0, -360))]
    sizes = [(1.0, 1.5), (2.0, 2.0)]
    if tier != "quick":
        sizes += [(3.0, 1.0), (0.5, 0.5)]
    for k, s in enumerate(sizes):
        for mode in ("union", "min", "p1", "hybrid"):
            for turn in (0, -360):
                r.append(("overlap_%d_%s_%d" % (k, mode, turn), overlap, dict(size=s, turn=turn, mode=mode, thr=mode == "hybrid" or turn != 0)))
    return r
