"""What is drawn on maps and timelines."""
import types
from contextlib import ExitStack

from props import net as N
from props.C43 import patch

PROPERTY = "C46"


def BOUNDS(tier):
    return (
        "grids of 5 or 6 columns and 3 rows with any value, any mask of 3 nodes and 7 references; 3 observations with contours of 3 points at any longitude (multiples of 22.5 degree, any turn); "
        "tracks and networks of up to 5 observations with any date, value and link; isolines of 4 levels with any state"
    )


OUTSIDE = "what matplotlib draws with the values it is given; video and html displays"
ASSUMPTIONS = ["flattening, splitting and wrapping of lines are decided by C03 and C12"]


class Axes:
    """records what is drawn"""

    def __init__(self):
        self.l = []

    def plot(self, x, y, *a, **kw):
        assert not a
        self.l.append(("plot", x, y, kw))
        return [len(self.l) - 1]

    def scatter(self, x, y, s=None, c=None, **kw):
        self.l.append(("scatter", x, y, dict(kw, **({} if c is None else dict(c=c)), **({} if s is None else dict(s=s)))))
        return len(self.l) - 1

    def pcolormesh(self, x, y, z, **kw):
        self.l.append(("mesh", x, y, z, kw))
        return "mesh"

    def contour(self, x, y, z, **kw):
        self.l.append(("contour", x, y, z, kw))
        return "contour"

    def add_collection(self, c, **kw):
        self.l.append(("collection", c))

    def update_datalim(self, *a, **kw):
        pass

    def autoscale_view(self, *a, **kw):
        pass


class Collection:
    def __init__(self, lines, **kw):
        self.lines, self.kw = list(lines), kw


MODELS = {"matplotlib.collections": types.SimpleNamespace(LineCollection=Collection, PolyCollection=Collection)}


class Norm:
    def __init__(self, vmin=None, vmax=None):
        self.vmin, self.vmax = vmin, vmax


def eqs(S, a, b):
    """same values, missing ones at the same place"""
    if len(a) != len(b):
        return False
    return S.And([S.eqf(a[k], b[k]) for k in range(len(b))])


def ground(S, what, circ, ref):
    G = S.mod("dataset.grid").RegularGridDataset
    n, m = (6, 3) if circ else (5, 3)
    step = 60 if circ else 10
    x0 = S.choice("x0", [0, -170, 350]) if ref is not None else 350
    xs = [x0 + step * i for i in range(n)]
    ys = [-1.0, 0.0, 1.0]
    h = [[S.int("h%d%d" % (i, j), -50, 50) for j in range(m)] for i in range(n)]
    mk = [[S.bool("m%d%d" % (i, j)) if (i, j) in ((0, 1), (3, 0), (n - 1, 2)) else False for j in range(m)] for i in range(n)]
    g = G.with_array(("x", "y"), dict(x=S.arr(xs, "f8"), y=S.arr(ys, "f8"), h=S.masked(S.arr(h, "f8"), S.arr(mk, "?"))), variables_description=dict(h=dict(units="m")))
    f = S.choice("factor", [1, 10])
    ax = Axes()
    name = "h" if S.choice("name", [True, False]) else g.grid("h")
    kw = S.choice("kw", [{}, dict(cmap="jet", vmin=-3)])
    kw = dict(kw)
    r = getattr(g, what)(ax, name, **({} if f == 1 else dict(factor=f)), **({} if ref is None else dict(ref=ref)), **kw)
    kind, x, y, z, got = ax.l.pop()
    S.check(not ax.l and r == kind and kind == ("mesh" if what == "display" else "contour"), "one map")
    S.check(got == (dict(dict(cmap="coolwarm"), **kw) if what == "display" else kw), "options")
    zm = z.mask
    if what == "display":
        S.check(eqs(S, y, [-1.5, -.5, .5, 1.5]), "bounds along latitude")
        nz = len(x) - 1
        ctr = [(x[k] + x[k + 1]) / 2 for k in range(nz)]
        wid = [x[k + 1] - x[k] for k in range(nz)]
        S.check(S.And([w > 0 for w in wid]), "bounds along longitude increase")
        real = [k for k in range(nz) if bool(S.close(wid[k], step, 1e-9))]
    else:
        S.check(eqs(S, y, ys), "rows")
        nz, ctr = len(x), x
        real = list(range(nz))
    S.check(z.shape == (m, nz) and len(real) == n, "every column once")
    for k in range(nz):
        if k not in real:
            S.check(S.And([zm[j, k] for j in range(m)]), "nothing out of the grid")
    seen = []
    for k in real:
        i = [q for q in range(n) if bool(S.close((ctr[k] - xs[q] + 180) % 360, 180, 1e-9))]
        S.check(len(i) == 1, "a column of the grid")
        i = i[0]
        seen.append(i)
        S.check(ctr[k] == xs[i] if ref is None else S.And(ctr[k] >= ref, ctr[k] < ref + 360), "longitude is in the turn which starts at the reference")
        for j in range(m):
            S.check(S.iff(zm[j, k], mk[i][j]), "missing nodes")
            S.check(S.Or(mk[i][j], z.data[j, k] == f * h[i][j]), "value of the node, times the factor")
    S.check(sorted(seen) == list(range(n)), "every column once")


def table(S, n, cls=None, **kw):
    cls = cls or S.mod("observations.observation").EddiesObservations
    o = cls(size=n, track_extra_variables=["height_max_speed_contour"], track_array_variables=3, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], **kw)
    d = types.SimpleNamespace(x=S.ints("x", n, -20, 20), y=S.ints("y", n, -3, 3), t=S.ints("t", n, 100, 105), v=S.ints("v", n, -9, 9))
    for k in range(n):
        o.lon[k], o.lat[k], o.time[k], o["height_max_speed_contour"][k] = d.x[k] * 22.5, d.y[k], d.t[k], d.v[k]
        for w, q in (("e", 1), ("s", 2)):
            for p in range(3):
                o["contour_lon_" + w][k, p] = d.x[k] * 22.5 + (p + 1) * q
                o["contour_lat_" + w][k, p] = d.y[k] + (p + 1) * (p + q)
    return o, d


def points(S):
    """positions of observations"""
    o, d = table(S, 3)
    ref = S.choice("ref", [None, 0, -180, 22.5])
    by = S.choice("by", ["none", "name", "array", "color"])
    kw = dict(s=4)
    if by == "color":
        kw["c"] = "r"
    a, b = Axes(), dict(kw)
    o.scatter(a, **({} if by == "none" else dict(name=S.arr(d.v, "i8") if by == "array" else "height_max_speed_contour", factor=5)), **({} if ref is None else dict(ref=ref)), **b)
    kind, x, y, got = a.l.pop()
    S.check(kind == "scatter" and not a.l and got["s"] == 4, "one group of points")
    for k in range(3):
        lon = d.x[k] * 22.5
        S.check(S.And((x[k] - lon) % 360 == 0, y[k] == d.y[k]), "place of the observation")
        S.check(x[k] == lon if ref is None else S.And(x[k] >= ref, x[k] < ref + 360), "turn of the reference")
    if by in ("name", "array"):
        S.check(S.And([got["c"][k] == 5 * d.v[k] for k in range(3)]), "value of each observation")
    else:
        S.check(got.get("c") == ("r" if by == "color" else None), "color")


class Label:
    """keeps what it is asked to hold"""

    kw = None

    def format(self, **kw):
        self.kw = kw
        return self


def lines(S, n):
    """contours of observations"""
    g = S.mod("generic")
    o, d = table(S, n)
    ref = S.choice("ref", [None, 0, -180])
    only = S.choice("only", ["", "extern_only", "intern_only"])
    st = S.choice("style", [{}, dict(color="k"), dict(ls=":")])
    st = dict(st)
    if "ls" not in st:
        st["label"] = Label()
    ax = Axes()
    r = o.display(ax, **(dict(ref=ref) if ref is not None else {}), **({only: True} if only else {}), **st)
    want = [w for w in "se" if not (w == "e" and only == "intern_only" or w == "s" and only == "extern_only")]
    S.check(len(ax.l) == len(want) == len(r), "one line by kind of contour")
    for q, w in zip(ax.l, want):
        x, y = g.flatten_line_matrix(o["contour_lon_" + w]), g.flatten_line_matrix(o["contour_lat_" + w])
        if ref is not None:
            x, y = g.wrap_longitude(x, y, ref, cut=True)
        S.check(q[0] == "plot", "a line")
        S.check(S.And(eqs(S, q[1], list(x)), eqs(S, q[2], list(y))), "contours of this kind")
        kw = dict(st)
        if "label" in kw:
            p = kw["label"].kw
            S.check(S.And(p["nb_obs"] == n, S.And([p["t0"] <= t for t in d.t]), S.Or([p["t0"] == t for t in d.t]), S.And([p["t1"] >= t for t in d.t]), S.Or([p["t1"] == t for t in d.t])), "number and dates of the label")
        if w == "e":
            if "ls" not in kw:
                kw["linestyle"] = "-."
            if only != "extern_only":
                kw.pop("label", None)
        S.check(q[3] == kw, "label on the first line, style of each kind")


def colors(S, what, intern):
    """contours with the color of a value"""
    O = S.mod("observations.observation")
    g = S.mod("generic")
    o, d = table(S, 3)
    ref = S.choice("ref", [None, 0])
    lim = S.choice("lim", [{}, dict(vmin=-10), dict(vmin=-12, vmax=12)])
    fac = S.choice("factor", [1, 3]) if what == "filled" else 1
    name = "height_max_speed_contour" if S.choice("name", [True, False]) else S.arr(d.v, "i8")
    S.assume(S.Or([v != d.v[0] for v in d.v]))
    ax = Axes()
    asked = []

    def get_cmap(c, lut=None):
        asked.append((c, lut))
        return lambda v: v

    with ExitStack() as st:
        st.enter_context(patch(O, LineCollection=Collection, PolyCollection=Collection, get_cmap=get_cmap, Normalize=Norm))
        kw = dict(lim, cmap="jet", lw=2)
        if ref is not None:
            kw["ref"] = ref
        if intern:
            kw["intern"] = True
        if fac != 1:
            kw["factor"] = fac
        c = o.filled(ax, name, **kw) if what == "filled" else o.display_color(ax, name, **kw)
    S.check(ax.l == [("collection", c)] and len(asked) == 1 and asked[0][0] == "jet", "one collection")
    v = [fac * q for q in d.v]
    lo = lim.get("vmin")
    hi = lim.get("vmax")
    if lo is None:
        lo = S.If(S.And(v[0] <= v[1], v[0] <= v[2]), v[0], S.If(v[1] <= v[2], v[1], v[2]))
    if hi is None:
        hi = S.If(S.And(v[0] >= v[1], v[0] >= v[2]), v[0], S.If(v[1] >= v[2], v[1], v[2]))
    col = c.kw.pop("facecolors" if what == "filled" else "colors")
    S.check(c.kw == dict(lw=2), "other options")
    S.check(S.And([S.close(col[k] * (hi - lo), v[k] - lo, 1e-6) for k in range(3)]), "color of each value")
    S.check(S.And(c.norm.vmin == lo, c.norm.vmax == hi), "limits of colors")
    w = "s" if intern else "e"
    for k in range(3):
        x = [o["contour_lon_" + w][k, p] for p in range(3)]
        L = c.lines[k]
        S.check(S.And([L[p, 1] == o["contour_lat_" + w][k, p] for p in range(3)]), "latitude of contours")
        for p in range(3):
            S.check(L[p, 0] == x[p] if ref is None else S.And((L[p, 0] - x[p]) % 360 == 0, L[p, 0] >= ref, L[p, 0] <= ref + 360), "longitude of contours")
    S.check(len(c.lines) == 3, "one contour by observation")


def tracks(S):
    """paths of tracks"""
    g = S.mod("generic")
    T = S.mod("observations.tracking").TrackEddiesObservations
    n = 4
    o, d = table(S, n, T)
    k = S.ints("k", n, 0, 3)
    S.assume(S.And([a <= b for a, b in zip(k, k[1:])]))
    for i in range(n):
        o.track[i] = k[i]
    ref = S.choice("ref", [None, 0, -180])
    lab = S.choice("lab", [None, Label()])
    ax = Axes()
    kw = dict(color="r")
    if lab:
        kw["label"] = lab
    o.plot(ax, **(dict(ref=ref) if ref is not None else {}), **kw)
    q = ax.l.pop()
    x, y = g.split_line(o.lon, o.lat, o.tracks)
    if ref is not None:
        x, y = g.wrap_longitude(x, y, ref, cut=True)
    S.check(not ax.l and q[0] == "plot", "one line")
    S.check(S.And(eqs(S, q[1], list(x)), eqs(S, q[2], list(y))), "path of tracks with a gap between them")
    S.check(q[3] == dict(color="r", **(dict(label=lab) if lab else {})), "label and style")
    if lab:
        p = lab.kw
        S.check(S.And(p["nb_obs"] == n, p["nb_tracks"] == 1 + S.count([a != b for a, b in zip(k, k[1:])])), "numbers of the label")
        S.check(S.And(S.And([p["t0"] <= t for t in d.t]), S.Or([p["t0"] == t for t in d.t]), S.And([p["t1"] >= t for t in d.t]), S.Or([p["t1"] == t for t in d.t])), "dates of the label")


def network(S, sizes, nets):
    o = N.Net(S, sizes, nets, hi=2)
    n = o.n
    x, y = S.ints("x", n, -20, 20), S.ints("y", n, -3, 3)
    for k in range(n):
        o.o.lon[k], o.o.lat[k] = x[k] * 22.5, y[k]
    return o, x, y


def network_plot(S, sizes, nets):
    """paths and points of segments"""
    g = S.mod("generic")
    o, x, y = network(S, sizes, nets)
    n = o.n
    ref, cyc, by = S.choice("how", [(None, None, "default"), (0, ["a", "b"], "name"), (None, ["a", "b"], "none"), (0, None, "name")])
    ax = Axes()
    r = o.o.plot(ax, **(dict(ref=ref) if ref is not None else {}), **(dict(color_cycle=cyc) if cyc else {}), lw=1)
    cols = cyc or o.o.COLORS
    S.check(len(ax.l) == len(sizes) == len(r), "one line by segment")
    for s, (q, rows) in enumerate(zip(ax.l, o.rows)):
        a, b = o.o.lon[rows[0]:rows[-1] + 1], o.o.lat[rows[0]:rows[-1] + 1]
        if ref is not None:
            a, b = g.wrap_longitude(a, b, ref, cut=True)
        S.check(q[0] == "plot" and q[3] == dict(lw=1, color=cols[s % len(cols)]), "style and color of segments")
        S.check(S.And(eqs(S, q[1], list(a)), eqs(S, q[2], list(b))), "path of the segment")
    ax = Axes()
    o.o.scatter(ax, **dict(default={}, name=dict(name="track", factor=3), none=dict(name=None))[by], **(dict(ref=ref) if ref is not None else {}), **(dict(edgecolor_cycle=cyc, linewidths=3) if cyc else {}), s=2)
    S.check(len(ax.l) == (2 if cyc else 1), "points, with edges if colors are given")
    for q in ax.l:
        S.check(q[0] == "scatter" and S.And([S.And((q[1][k] - x[k] * 22.5) % 360 == 0, q[2][k] == y[k]) for k in range(n)]), "place of points")
        S.check(S.And([q[1][k] == x[k] * 22.5 if ref is None else S.And(q[1][k] >= 0, q[1][k] < 360) for k in range(n)]), "turn of the reference")
    kw = ax.l[-1][3]
    if by == "none":
        S.check("c" not in kw, "no color")
    else:
        S.check(S.And([kw["c"][k] == (o.t[k] if by == "default" else 3 * o.net[k]) for k in range(n)]), "value of points")
    if cyc:
        S.check(kw["lw"] == 0 and "linewidths" not in kw and ax.l[0][3]["linewidths"] == 3, "edges only once")
        e, c = [], 0
        for k in range(n):
            c += k > 0 and o.seg[k] != o.seg[k - 1]
            e.append(cyc[c % 2])
        S.check(list(ax.l[0][3]["edgecolor"]) == e, "color of edges changes with segments")


def events_map(S, sizes, nets):
    """events between segments on a map"""
    o, x, y = network(S, sizes, nets)
    ax = Axes()
    o.o.event_map(ax, alpha=.5)
    M, P = o.events()
    ref = []
    at = lambda k: (x[k] * 22.5, y[k])
    for s, rows in enumerate(o.rows):
        for k, mark in ((rows[-1], "H"), (rows[0], "*")):
            for a, b in M if mark == "H" else [(q, p) for p, q in P]:
                if a == k:
                    ref.append(("line", a, b, s))
                    ref.append((mark, a, None, s))
    S.check(len(ax.l) == len(ref), "one line and one symbol by event")
    for q, (kind, a, b, s) in zip(ax.l, ref):
        S.check(q[0] == "plot" and q[3]["alpha"] == .5, "options")
        if kind == "line":
            S.check(S.And(q[1][0] == at(a)[0], q[1][1] == at(b)[0], q[2][0] == at(a)[1], q[2][1] == at(b)[1]), "line between both observations of the event")
            S.check(q[3]["color"] == o.o.COLORS[s % len(o.o.COLORS)], "color of the segment")
        else:
            S.check(S.And(q[1] == at(a)[0], q[2] == at(a)[1]), "symbol at the end of the segment")
            S.check(q[3]["marker"] == kind, "symbol of merging or splitting")


def timeline(S, sizes, method, field, what):
    """dates and values of segments with their events"""
    cls = S.mod("observations.network").NetworkObservations
    net = N.Net(S, sizes, [1] * len(sizes), hi=2)
    o, n = net.o, net.n
    v = S.ints("v", n, -12, 12)
    for k in range(n):
        o["speed_area"][k] = v[k] + 20
    v = [q + 20 for q in v]
    f = 1 if field is None else 3
    arg = None if field is None else "speed_area" if field == "name" else o["speed_area"] * 1
    ax = Axes()
    cm = S.choice("colors", ["roll", "y"]) if what == "line" else "roll"
    event = S.choice("event", [True, False])
    with patch(cls, time_datetime64=property(lambda self: self.time)):
        if what == "line":
            r = o.display_timeline(ax, **({} if event else dict(event=False)), **({} if arg is None else dict(field=arg, factor=f)), **(dict(method=method) if method else {}), colors_mode=cm, lw=7)
        else:
            r = o.scatter_timeline(ax, "speed_area", factor=2, **({} if event else dict(event=False)), **({} if arg is None else dict(yfield=arg, yfactor=f)), **(dict(method=method) if method else {}))
    col = lambda s: o.COLORS[s % len(o.COLORS)] if cm == "roll" else o.COLORS[(net.seg[net.rows[s][0]] - 1) % len(o.COLORS)]

    def val(k):
        """ordinate of an observation"""
        if field is None:
            return net.seg[k]
        if method == "all":
            return v[k] * f
        rows = net.rows[net.owner[k]]
        return sum(v[q] for q in rows) * 1.0 * f / len(rows)

    same = lambda a, b: S.close(a, b, 1e-6)
    M, P = net.events()
    if event:
        marks = dict(m=[], s=[])
        for s, rows in enumerate(net.rows):
            for kind, k, ev in (("m", rows[-1], dict(M)), ("s", rows[0], {b: a for a, b in P})):
                if k in ev:
                    q = ax.l.pop(0)
                    S.check(q[0] == "plot" and q[3]["color"] == col(s), "line of the event, color of the segment")
                    S.check(S.And(q[1][0] == net.t[k], q[1][1] == net.t[ev[k]], same(q[2][0], val(k)), same(q[2][1], val(ev[k]))), "line between both observations of the event")
                    marks[kind].append((net.t[k], val(k)))
        for kind, m in (("s", "*"), ("m", "H")):
            if marks[kind]:
                q = ax.l.pop(0)
                S.check(q[3]["marker"] == m and len(q[1]) == len(marks[kind]) == len(q[2]), "symbols of events")
                S.check(S.And([S.And(a == c, same(b, e)) for a, b, (c, e) in zip(q[1], q[2], marks[kind])]), "symbols at the events")
    if what == "line":
        S.check(len(ax.l) == len(sizes), "one line by segment")
        for s, (q, rows) in enumerate(zip(ax.l, net.rows)):
            S.check(q[0] == "plot" and q[3]["color"] == col(s) and q[3]["lw"] == 7, "style")
            S.check(len(q[1]) == len(q[2]) == len(rows), "observations of the segment")
            S.check(S.And([S.And(q[1][i] == net.t[k], same(q[2][i], val(k))) for i, k in enumerate(rows)]), "dates and values of the segment")
    else:
        S.check(len(ax.l) == 1 and ax.l[0][0] == "scatter", "one group of points")
        q = ax.l[0]
        S.check(S.And([S.And(q[1][k] == net.t[k], same(q[2][k], val(k)), q[3]["c"][k] == 2 * v[k]) for k in range(n)]), "date and value of each observation")


def isolines(S, mode):
    """isolines chosen by their state"""
    F = S.mod("eddy_feature")
    only = S.choice("only", ["", "only_used", "only_unused", "only_contain_eddies"])
    crit = mode in ("criterion", "field")
    used = [S.choice("u%d" % k, [True, False]) if not crit or k < 2 else k == 2 for k in range(4)]
    eddy = [S.choice("e%d" % k, [True, False]) if only == "only_contain_eddies" else k % 2 == 0 for k in range(4)]
    rej = [S.choice("r%d" % k, list(range(5))) if k < 2 and mode == "criterion" else k for k in range(4)]
    step = S.choice("step", [1, 2])

    class Level:
        def __init__(self, k, paths):
            self.k, self.p = k, paths

        def get_paths(self):
            return self.p

        def get_edgecolor(self):
            return "c%d" % self.k

    err = [S.int("s%d" % k, 0, 99) if mode == "field" and k < 3 else 0 for k in range(4)]

    def path(k):
        return types.SimpleNamespace(vertices="v%d" % k, used=used[k], contain_eddies=eddy[k], reject=rej[k], fit_circle=lambda: (0.0, 0.0, 10.0, err[k]))

    P = [path(k) for k in range(4)]
    levels = [Level(0, P[:2]), Level(1, []), Level(2, P[2:3]), Level(3, P[3:])]
    shown = levels[::step]
    c = F.Contours.__new__(F.Contours)
    c.contours = types.SimpleNamespace(collections=levels)
    ax = Axes()
    bins = [20, 40, 60]
    import sys
    fake = types.SimpleNamespace(LineCollection=Collection)
    kw = dict(criterion=dict(display_criterion=True), plain={}, color=dict(color="k"), field=dict(field="shape_error", bins=S.arr(bins, "i8")))[mode]
    keep = sys.modules.get("matplotlib.collections")
    sys.modules["matplotlib.collections"] = fake
    try:
        with patch(F, get_cmap=lambda n, lut=None: lambda v: v, Normalize=Norm):
            c.display(ax, **({} if step == 1 else dict(step=step)), **({only: True} if only else {}), lw=2, label="L", **kw)
    finally:
        if keep is not None:
            sys.modules["matplotlib.collections"] = keep
        else:
            del sys.modules["matplotlib.collections"]
    ok = {"": lambda p: True, "only_used": lambda p: p.used, "only_unused": lambda p: not p.used, "only_contain_eddies": lambda p: p.contain_eddies}[only]
    S.check(all(q[0] == "collection" for q in ax.l), "collections of lines")
    got = [q[1] for q in ax.l]
    if mode in ("plain", "color"):
        S.check([g.lines for g in got] == [[p.vertices for p in s.p if ok(p)] for s in shown], "isolines of the state asked, level by level")
        S.check([g.kw["color"] for g in got] == ["k" if mode == "color" else s.get_edgecolor() for s in shown], "color of the level")
        S.check([g.kw.get("label") for g in got] == (["L"] + [None] * (len(shown) - 1) if mode == "color" else [None] * len(shown)), "one label")
        return
    if mode == "criterion":
        names = ["limegreen", "red", "mediumblue", "black", "gold"]
        cls = lambda k: rej[k]
        tot, key = 5, lambda q: names[q]
    else:
        cls = lambda k: sum(1 for b in bins if bool(err[k] >= b))
        tot, key = 4, lambda q: [0.0, 0.0, 0.5, 1.0][q]
    byc = [[] for _ in range(tot)]
    for s in shown:
        for p in s.p:
            if ok(p):
                byc[cls(P.index(p))].append(p.vertices)
    S.check([g.lines for g in got] == byc, "isolines of each class")
    S.check([g.kw["colors"] for g in got] == [key(q) for q in range(tot)], "color of each class")


def cases(tier):
    r = []
    for circ in (True, False):
        for what in ("display", "contour"):
            for ref in (None, 0, -180, 10, 350, 360, -175):
                r.append(("%s_%s_%s" % (what, "circ" if circ else "reg", ref), ground, dict(what=what, circ=circ, ref=ref)))
    r += [("points", points, {}), ("lines1", lines, dict(n=1)), ("lines2", lines, dict(n=2)), ("tracks", tracks, {})]
    r += [("%s_%d" % (w, i), colors, dict(what=w, intern=i)) for w in ("filled", "color") for i in (False, True)]
    for sizes, nets in (((2, 1), (1, 1)), ((1, 2), (1, 2)), ((2, 1, 1), (1, 1, 1)), ((1, 2, 1), (1, 1, 2))):
        n = "".join(map(str, sizes)) + "_" + "".join(map(str, nets))
        r += [("plot_" + n, network_plot, dict(sizes=sizes, nets=nets)), ("map_" + n, events_map, dict(sizes=sizes, nets=nets))]
    for sizes in ((2, 1), (2, 1, 2)) if tier == "quick" else ((2, 1), (2, 1, 2), (1, 2, 2, 1)):
        n = "".join(map(str, sizes))
        for what in ("line", "points"):
            for method, field in ((None, None), (None, "name"), ("all", "name"), ("all", "array"), (None, "array")):
                r.append(("time_%s_%s_%s_%s" % (what, n, method, field), timeline, dict(sizes=sizes, method=method, field=field, what=what)))
    r += [("isolines_" + m, isolines, dict(mode=m)) for m in ("plain", "color", "criterion", "field")]
    return r
