"""Isolines: closed over the edge of the grid, kept, found again."""
PROPERTY = "C32"


def BOUNDS(tier):
    return "isolines of up to %d pieces on each side of the edge of the grid, at any latitude and in several orders; up to 3 contours per level on 3 levels at any place of a grid of quarter degrees, positions anywhere on any turn" % (2 if tier == "quick" else 3)


OUTSIDE = "the isolines given by matplotlib (arbitrary lines are given instead); contours wider than a half turn; positions at the same distance of two contours; eddies located on another turn than the contours when contours with several eddies are labelled"
ASSUMPTIONS = ["two isolines of a level do not cross the edge of the grid at the same latitude"]


class Line:
    def __init__(self, S, v):
        self.vertices = S.arr([[a, b] for a, b in v], "f8")
        self.origin = v


class Collection:
    def __init__(self, paths):
        self._paths = list(paths)

    def get_paths(self):
        return self._paths


class Ax:
    def __init__(self, levels, lines):
        self.cvalues = self.levels = levels
        self.collections = [Collection(p) for p in lines]
        self.args = None

    def contour(self, x, y, z, levels, **k):
        self.args = x, y, z, levels
        return self


class patched:
    def __init__(self, S, levels, lines):
        self.F = S.mod("eddy_feature")
        self.ax = ax = Ax(levels, lines)

        class Figure:
            def add_subplot(self, *a):
                return ax

        self.fig = Figure

    def __enter__(self):
        self.old = self.F.Figure
        self.F.Figure = self.fig
        return self

    def __exit__(self, *a):
        self.F.Figure = self.old

    def build(self, S, x=(0, 120, 240), wrap_x=False, **k):
        n = len(x)
        z = S.masked(S.arr([[i * 10 + j for j in range(2)] for i in range(n)], "f8"), S.arr([[i == 0, False] for i in range(n)], "?"))
        c = self.F.Contours(S.arr(list(x), "f8"), S.arr([0, 1], "f8"), z, S.arr(self.ax.levels, "f8"), wrap_x=wrap_x, **k)
        ax, ay, az, al = self.ax.args
        nx = n + (1 if wrap_x else 0)
        S.check(len(ax) == nx and tuple(az.shape) == (2, nx), "grid given to the isolines")
        S.check(S.And([ax[i] == (x[i] if i < n else x[0] + 360) for i in range(nx)] + [ay[j] == j for j in range(2)]), "coordinates of isolines")
        S.check(S.And([az.mask[j, i] if (i % n == 0 and j == 0) else S.And(S.Not(az.mask[j, i]), az.data[j, i] == i % n * 10 + j) for i in range(nx) for j in range(2)]), "heights of isolines, the first column again at the end of a global grid")
        return c


def verts(S, p, tol=None):
    v = p.vertices
    return [(v[k, 0], v[k, 1]) for k in range(v.shape[0])]


def is_same(S, a, b):
    return len(a) == len(b) and S.concrete(S.And([S.And(S.close(p[0], q[0], 1e-9), S.close(p[1], q[1], 1e-9)) for p, q in zip(a, b)]))


def squeeze(S, v):
    out = []
    for p in v:
        if not out or not S.concrete(S.And(S.close(p[0], out[-1][0], 1e-9), S.close(p[1], out[-1][1], 1e-9))):
            out.append(p)
    return out


def consistent(S, c, levels):
    """the tables describe the kept lines"""
    k = q = 0
    for l, lines in enumerate(levels):
        S.check(c.nb_contour_per_level[l] == len(lines), "number of contours of the level")
        S.check(c.level_index[l] == k, "first contour of the level")
        for p in lines:
            v = verts(S, p)
            S.check(S.And(c.contour_index[k] == q, c.nb_pt_per_contour[k] == len(v)), "first vertex of the contour")
            S.check(S.And([S.And(c.x_value[q + i] == v[i][0], c.y_value[q + i] == v[i][1]) for i in range(len(v))]), "vertices of the contour")
            S.check(S.And([S.And(c.x_min_per_contour[k] <= x, x <= c.x_max_per_contour[k], c.y_min_per_contour[k] <= y, y <= c.y_max_per_contour[k]) for x, y in v]), "box of the contour")
            S.check(S.And(S.Or([c.x_min_per_contour[k] == x for x, y in v]), S.Or([c.x_max_per_contour[k] == x for x, y in v]), S.Or([c.y_min_per_contour[k] == y for x, y in v]), S.Or([c.y_max_per_contour[k] == y for x, y in v])), "box of the contour")
            S.check(p.used is False and p.reject == 0, "contour not used yet")
            k, q = k + 1, q + len(v)


# links between crossings: pieces on the eastern side (start, end), pieces on the western side
GRAPHS = {
    "one": ([(0, 1)], [(1, 0)]),
    "two": ([(0, 1), (2, 3)], [(1, 0), (3, 2)]),
    "four": ([(0, 1), (2, 3)], [(1, 2), (3, 0)]),
    "mixed": ([(0, 1), (2, 3), (4, 5)], [(1, 2), (3, 0), (5, 4)]),
    "six": ([(0, 1), (2, 3), (4, 5)], [(1, 2), (3, 4), (5, 0)]),
    "open": ([(0, 1)], [(1, 2)]),
    "open2": ([(0, 1), (2, 3), (4, 5)], [(1, 0), (3, 6)]),
    "alone": ([(0, 1), (2, 3)], [(1, 0)]),
}


def cycles(g):
    left, right = dict(g[0]), dict(g[1])
    out, seen = [], set()
    for s in left:
        if s in seen:
            continue
        path, k, side = [s], left[s], 1
        mine = {s}
        while True:
            path.append(k)
            if k == s and side == 0:
                break
            nxt = (right if side else left).get(k)
            if nxt is None:
                path = None
                break
            if not side:
                mine.add(k)
            k, side = nxt, 1 - side
        if path:
            seen |= mine
            out.append(path)
    return out


def join(S, graph, keep):
    """pieces of isolines on both sides of the edge of a global grid"""
    g = GRAPHS[graph]
    nb = 1 + max(max(p) for p in g[0] + g[1])
    y = [S.fx("y%d" % k, 0, 12, 4) for k in range(nb)]
    S.assume(S.distinct(y))
    left = [Line(S, [(0, y[a]), (5 + k, y[a]), (6 + k, y[b]), (0, y[b])]) for k, (a, b) in enumerate(g[0])]
    right = [Line(S, [(360, y[a]), (355 - k, y[a]), (354 - k, y[b]), (360, y[b])]) for k, (a, b) in enumerate(g[1])]
    closed = Line(S, [(100, 1), (110, 1), (110, 5), (100, 5), (100, 1)])
    zonal = Line(S, [(0, 40), (100, 41), (200, 40), (360, 40)])
    lines = left + right + [closed, zonal]
    order = S.choice("order", ["as is", "reverse", "interleaved"])
    if order == "reverse":
        lines = lines[::-1]
    elif order == "interleaved":
        lines = lines[::2] + lines[1::2]
    with patched(S, [0, 1], [lines, []]) as p:
        c = p.build(S, wrap_x=True, keep_unclose=keep)
        got = [squeeze(S, verts(S, q)) for q in p.ax.collections[0].get_paths()]
        consistent(S, c, [q.get_paths() for q in p.ax.collections])
    rest = list(got)
    for cyc in cycles(g):
        exp, L, R = [], dict(g[0]), dict(g[1])
        for k, s in enumerate(cyc[:-1]):
            if k % 2 == 0:
                i = [q[0] for q in g[0]].index(s)
                exp += [(0, y[s]), (5 + i, y[s]), (6 + i, y[L[s]])]
            else:
                i = [q[0] for q in g[1]].index(s)
                exp += [(0, y[s]), (-5 - i, y[s]), (-6 - i, y[R[s]])]
        found = []
        for q in rest:
            if len(q) != len(exp) + 1 or not is_same(S, q[:1], q[-1:]):
                continue
            # same longitudes, up to whole turns of the contour, from any start
            if any(is_same(S, [(a - t, b) for a, b in q[:-1]], exp[k:] + exp[:k]) for t in (0, 360) for k in range(len(exp))):
                found.append(q)
        S.check(len(found) == 1, "pieces of an isoline are joined in one closed contour")
        rest = [q for q in rest if not any(q is f for f in found)]
    S.check(len([q for q in rest if is_same(S, q, closed.origin)]) == 1, "closed contour kept")
    rest = [q for q in rest if not is_same(S, q, closed.origin)]
    if not keep:
        S.check(not rest, "only closed contours are kept")
        return
    S.check(len([q for q in rest if is_same(S, q, zonal.origin)]) == 1, "open line kept")
    # every piece is still drawn
    used = {s for cyc in cycles(g) for s in cyc}
    for side, pieces in enumerate(g[:2]):
        for k, (a, b) in enumerate(pieces):
            if a in used and b in used:
                continue
            mid = [((5 + k, 355 - k)[side], y[a]), ((6 + k, 354 - k)[side], y[b])]
            n = 0
            for q in rest:
                for i in range(len(q) - 1):
                    if any(is_same(S, [(u + t, v) for u, v in q[i : i + 2]], mid) for t in (0, 360, -360)):
                        n += 1
            S.check(n == 1, "open line kept")


def closing(S, keep):
    """lines which are closed, almost closed, open, short or flat"""
    lines, exp = [[], [], []], [[], [], []]
    for k, (n, gaps) in enumerate((((3, 4, 5)), (4, 5)) and (((4, [0, 1e-11, 5e-3, 0.02, 3])), ((5, [0, 0.3])), ((3, [0])), ((4, ["flat"])))):
        gap = S.choice("gap%d" % k, gaps)
        l = S.choice("level%d" % k, [0, 1, 2] if k < 2 else [1])
        x, y = S.int("x%d" % k, -20, 20), S.int("y%d" % k, -20, 20)
        pts = [(x, y), (x + 3, y), (x + 2, y + (0 if gap == "flat" else 4)), (x + 1, y + (0 if gap == "flat" else 3))][: n - 1]
        pts.append((x, y) if gap == "flat" else (x + gap, y))
        if n == 3:
            pts = [(x, y), (x + 3, y + 1), (x, y)]
        p = Line(S, pts)
        lines[l].append(p)
        if n >= 4 and gap != "flat":
            if gap <= 1e-2:
                exp[l].append(pts[:-1] + pts[:1])
            elif keep:
                exp[l].append(pts)
    S.assume(sum(len(e) for e in exp) > 0)
    with patched(S, [0, 1, 2], lines) as p:
        c = p.build(S, keep_unclose=keep)
        got = [q.get_paths() for q in p.ax.collections]
        for l in range(3):
            S.check(len(got[l]) == len(exp[l]), "closed and almost closed lines are kept, others are not")
            for a, b in zip(got[l], exp[l]):
                v = verts(S, a)
                S.check(is_same(S, v, b), "vertices of the line")
                if not keep:
                    S.check(S.And(v[0][0] == v[-1][0], v[0][1] == v[-1][1]), "closed exactly")
        consistent(S, c, got)


SHAPES = {
    "small": [(0, 0), (2, 0), (2, 2), (0, 2)],
    "big": [(0, 0), (8, 0), (8, 8), (0, 8)],
    "tall": [(0, 0), (2, 1), (1, 9), (-1, 4)],
    "flat": [(0, 0), (9, 1), (5, 2)],
}


def nearest(S, names, offset, level=1):
    """contours of 3 levels, one of them is looked at; another one could be empty"""
    rows = []
    for k, nm in enumerate(names):
        ox, oy = offset[k]
        if k == 0:
            ox, oy = ox + S.int("ox", 0, 6), oy + S.int("oy", 0, 3)
        v = [((ox + a) / 4, (oy + b) / 4) for a, b in SHAPES[nm]]
        rows.append(v + v[:1])
    px, py = S.int("px", -4, 24), S.int("py", -4, 24)
    turn = S.choice("turn", [0, 360, -720])
    other = [[(0, 0), (5, 0), (5, 5), (0, 0)], [(1, 1), (2, 1), (2, 2), (1, 1)]]
    lines = {0: [[Line(S, v) for v in rows], [], [Line(S, other[0])]], 1: [[Line(S, v) for v in other], [Line(S, v) for v in rows], [Line(S, other[0])]],
             2: [[Line(S, v) for v in other], [], [Line(S, v) for v in rows]]}[level]
    with patched(S, [0, 1, 2], lines) as p:
        p.build(S)
        coll = p.ax.collections[level]
        x, y = px / 4 + 0.0625, py / 4 + 0.0625
        r = coll.get_nearest_path_bbox_contain_pt(x + turn, y)
    paths = coll.get_paths()
    S.check(len(paths) == len(rows), "every contour kept")
    best = None
    for k, v in enumerate(rows):
        xs, ys = [a for a, b in v], [b for a, b in v]
        mm = lambda l, f: l[0] if len(l) == 1 else f(l[0], mm(l[1:], f))
        inbox = S.And(mm(xs, S.min) <= x, x <= mm(xs, S.max), mm(ys, S.min) <= y, y <= mm(ys, S.max))
        if not S.concrete(inbox):
            S.check(r is not paths[k], "the contour holds the position in its box")
            continue
        # distances in 16ths of degree, squared
        d = [(16 * a - 4 * px - 1) * (16 * a - 4 * px - 1) + (16 * b - 4 * py - 1) * (16 * b - 4 * py - 1) for a, b in v[:-1]]
        d = mm(d, S.min)
        if best is None:
            best = [(k, d)]
        else:
            best.append((k, d))
    if best is None:
        S.check(r is None, "no contour around the position")
        return
    S.check(r is not None, "a contour is found")
    for k, d in best:
        if r is paths[k]:
            S.check(S.And([d <= e for _, e in best]), "nearest contour which holds the position in its box")


class Eddies(list):
    sign_type = 1


def label(S, sign):
    """contours not used which hold several eddies of the next level"""
    sq = lambda x, y, n: [(x, y), (x + n, y), (x + n, y + n), (x, y + n), (x, y)]
    spec = [(0, sq(0, 0, 40)), (1, sq(1, 1, 20)), (1, sq(22, 1, 10)), (2, sq(2, 2, 10)), (3, sq(3, 3, 8))]
    lines = [[Line(S, v) for l, v in spec if l == k] for k in range(5)]
    with patched(S, [0, 1, 2, 3, 4], lines) as p:
        c = p.build(S)
        paths = [q for col in p.ax.collections for q in col.get_paths()]
    e = Eddies()
    e.sign_type = sign
    for k in range(3):
        x, y = S.int("x%d" % k, 0, 40), S.int("y%d" % k, 0, 40)
        e.append(dict(lon_max=x + 0.5, lat_max=y + 0.25, height_external_contour=S.choice("height%d" % k, [1, 2, 3] if k else [2, 1])))
    for k, q in enumerate(paths):
        q.used = S.choice("used%d" % k, [False, True]) if k in (1,) else False
    c.label_contour_unused_which_contain_eddies(e)
    for (l, v), q in zip(spec, paths):
        nxt = l + sign
        if not 0 <= nxt <= 4:
            continue
        (x0, y0), (x1, y1) = v[0], v[2]
        n = S.count([S.And(x0 < d["lon_max"], d["lon_max"] < x1, y0 < d["lat_max"], d["lat_max"] < y1) for d in e if d["height_external_contour"] == nxt])
        S.check(S.iff(q.contain_eddies, S.And(not q.used, n > 1)), "contour with several eddies of the next level")


def cases(tier):
    out = []
    graphs = ["one", "two", "four", "open", "open2", "alone"] + ([] if tier == "quick" else ["mixed", "six"])
    for g in graphs:
        for keep in (False, True):
            out.append(("join-%s-%d" % (g, keep), join, dict(graph=g, keep=keep)))
    for keep in (False, True):
        out.append(("closing-%d" % keep, closing, dict(keep=keep)))
    sets = [(("small",), [(3, 3)]), (("small", "big"), [(6, 6), (4, 2)]), (("big", "tall"), [(2, 2), (9, 5)]), (("small", "small", "flat"), [(4, 4), (8, 9), (3, 5)])]
    if tier != "quick":
        sets += [(("flat", "big", "tall"), [(4, 4), (1, 1), (8, 3)]), (("big", "big", "big"), [(0, 0), (5, 5), (9, 2)])]
    for names, off in sets:
        out.append(("nearest-" + "-".join(names), nearest, dict(names=names, offset=off)))
    for level in (0, 2):
        out.append(("nearest-level-%d" % level, nearest, dict(names=sets[1][0], offset=sets[1][1], level=level)))
    for sign in (1, -1):
        out.append(("label-%d" % sign, label, dict(sign=sign)))
    return out
