"""Command line tools: subsets, comparisons and options."""
import contextlib
import io
import sys
from datetime import datetime

from . import net as N

PROPERTY = "C43"


def BOUNDS(tier):
    return (
        "subsets: each option alone (and numbers with removal of untracked observations) on networks of up to 3 segments and %d observations with any links and dates; "
        "groups: every couple and score (by percent) of up to %d associations between 3 and 3 eddies; comparison of networks: every pair of groupings of 4 observations, one of them moved or not; "
        "identification: every combination of filters and speeds"
        % ((5, 3) if tier == "quick" else (6, 4))
    )


OUTSIDE = "reading and writing of files (C16), plots and animations, display of tables, parsing of options by argparse, search of files by name"
ASSUMPTIONS = ["files hold dates in seconds when read raw, in days otherwise, as written by the package", "all observations of an atlas differ by date or position"]


@contextlib.contextmanager
def command(*args):
    keep = sys.argv
    sys.argv = ["tool"] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sys.argv = keep


@contextlib.contextmanager
def patch(o, **kw):
    keep = {k: getattr(o, k) for k in kw}
    for k, v in kw.items():
        setattr(o, k, v)
    try:
        yield
    finally:
        for k, v in keep.items():
            setattr(o, k, v)


def subset(S, sizes, nets, trash, option):
    A = S.mod("appli.network")
    net = N.Net(S, sizes, nets, trash, links=option[0] in ("dead", "trash"), hi=3)
    if not trash:
        S.assume(len(net.rows[0]) > 1)
    ref = net.o
    raw_table = None
    saved = []

    def load(name, raw_data=False, **kw):
        S.check(name == "in.nc" and not kw, "the input file, whole")
        if not raw_data:
            return ref.copy()
        o = A.NetworkObservations(size=net.n, raw_data=True)
        for f in ref.fields:
            for k in range(net.n):
                o[f][k] = ref[f][k] * 86400 if f == "time" else ref[f][k]
        return o

    class Out(A.NetworkObservations):
        __slots__ = ()
        load_file = staticmethod(load)

    def write(self, *a, **kw):
        saved.append((self, a, kw))

    exp = ref.copy()
    if option[0] == "length":
        a, b = S.choice("length", [(2, 4), (3, -1), (-1, 3)])
        args = ["-l", a, b]
        exp = exp.longer_than(a, b)
    elif option[0] == "dead":
        a, b = S.choice("dead", [(2, 0), (0, 3), (2, 3)])
        args = ["--remove_dead_end", a, b]
        exp.remove_dead_end(a, b)
    elif option[0] == "period":
        a, b = S.choice("period", [(101, 103), (-1, -1), (0, 102)])
        args = ["-p", a, b]
        exp = exp.extract_with_period((a, b))
    elif option[0] == "ids":
        ids = S.choice("ids", [[1], [2], [1, 2], [2, 7], [7]])
        args = ["-i"] + ids
        keep = [k for k in range(net.n) if net.net[k] in ids]
        exp = exp.extract_with_mask(S.arr([k in keep for k in range(net.n)], "?"))
        if option[1:]:
            S.assume(keep)
            args += ["--remove_trash"]
    elif option[0] == "trash":
        args = ["--remove_trash"]
        exp = exp.extract_with_mask(exp.track != 0)
    else:
        args = []
    with patch(A, NetworkObservations=Out), patch(S.mod("observations.observation").EddiesObservations, write_file=write), command("in.nc", "out.nc", *args):
        A.subset_network()
    S.check(len(saved) == 1, "one file is written")
    o, a, kw = saved[0]
    S.check(a == () and kw == dict(filename="out.nc"), "in the asked file")
    S.check(len(o) == len(exp), "number of observations kept")
    unit = 86400 if o.raw_data else 1
    S.check(N.rows(S, o) == N.rows(S, exp), "the observations which fit the options, in days and numbers of networks")
    for f in ("track", "segment", "next_obs", "previous_obs"):
        S.check(S.And([o[f][q] == exp[f][q] for q in range(len(exp))]), "with their networks and links")
    S.check(S.And([o.time[q] == exp.time[q] * unit for q in range(len(exp))]), "and their dates")


def groups(S, n1, n2, m):
    """classes of the associations of two sets of eddies"""
    A = S.mod("appli.eddies")
    inv, low, high = S.choice("limits", [(5, 20, 40), (2, 10, 60)])
    couples = []
    for k in range(m):
        free = [(i, j) for i in range(n1) for j in range(n2) if not couples or (i, j) > couples[-1]]
        if not free:
            break
        c = S.choice("c%d" % k, [None] + free)
        if c is None:
            break
        couples.append(c)
    p = [S.int("p%d" % k, 0, 100) for k in range(len(couples))]
    for v in p:
        S.assume(S.And(v != inv, v != low, v != high))  # limits are subject to rounding
    i1, i2 = [c[0] for c in couples], [c[1] for c in couples]
    g1, g2 = A.get_group([0] * n1, [0] * n2, S.arr(i1, "i4"), S.arr(i2, "i4"), S.arr([v * 0.01 for v in p], "f8"), invalid=inv, low=low, high=high)
    ok = [bool(v > inv) for v in p]
    L = [c for c, k in zip(couples, ok) if k]
    P = {c: v for c, v, k in zip(couples, p, ok) if k}
    c1, c2 = [c[0] for c in L], [c[1] for c in L]
    multi = [c for c in L if c1.count(c[0]) > 1 or c2.count(c[1]) > 1]

    def got(v):
        if len(v) and isinstance(S.concrete(v[0]), bool) or getattr(v, "dtype", None) == bool:
            return [k for k in range(len(v)) if S.concrete(v[k])]
        return [S.concrete(q) for q in v]

    names = ["nomatch", "low", "intermediate", "high", "multi_match", "parent", "twin", "complex"]
    S.check(list(g1) == names and list(g2) == names, "classes")
    S.check(got(g1["nomatch"]) == [k for k in range(n1) if k not in c1] and got(g2["nomatch"]) == [k for k in range(n2) if k not in c2], "eddies without valid association")
    for name, cond in (("low", lambda v: v < low), ("intermediate", lambda v: S.And(v > low, v < high)), ("high", lambda v: v > high)):
        e = [c for c in L if c not in multi and bool(cond(P[c]))]
        S.check(got(g1[name]) == [c[0] for c in e] and got(g2[name]) == [c[1] for c in e], "one to one associations by score: " + name)
    S.check(got(g1["multi_match"]) == sorted({c[0] for c in multi}) and got(g2["multi_match"]) == sorted({c[1] for c in multi}), "eddies of associations which are not one to one")
    # an eddy whose two partners have no other one
    t1 = [c for c in L if c1.count(c[0]) == 2 and all(c2.count(b) == 1 for a, b in L if a == c[0])]
    t2 = [c for c in L if c2.count(c[1]) == 2 and all(c1.count(a) == 1 for a, b in L if b == c[1])]
    S.check(got(g1["parent"]) == sorted({c[0] for c in t1}) and sorted(got(g2["twin"])) == sorted(c[1] for c in t1), "eddies of the first set split in two")
    S.check(got(g2["parent"]) == sorted({c[1] for c in t2}) and sorted(got(g1["twin"])) == sorted(c[0] for c in t2), "eddies of the second set split in two")
    r = [c for c in multi if c not in t1 and c not in t2]
    S.check(got(g1["complex"]) == sorted({c[0] for c in r}) and got(g2["complex"]) == sorted({c[1] for c in r}), "what is left")


SHAPES = {  # (network, segment) of 4 observations
    "all": [(1, 1)] * 4,
    "two_segments": [(1, 1), (1, 1), (1, 2), (1, 2)],
    "two_networks": [(1, 1), (1, 1), (2, 1), (2, 1)],
    "one_more": [(1, 1), (1, 1), (1, 1), (2, 4)],
    "three": [(1, 1), (1, 2), (3, 1), (3, 1)],
    "trash": [(0, 0), (0, 0), (2, 1), (2, 1)],
}


def compare(S, shape):
    """networks and segments which hold the same observations in two atlases"""
    A = S.mod("appli.network")
    n = 4
    a, b = SHAPES[shape], SHAPES[S.choice("other", sorted(SHAPES))]
    moved = S.choice("moved", [None, 0, 3])
    x = S.ints("x", n, 0, 9)
    dx = S.int("dx", 1, 3)

    def atlas(labels, k0=None):
        o = A.NetworkObservations(size=n)
        for k in range(n):
            o.track[k], o.segment[k], o.time[k] = labels[k][0], labels[k][1], 50 + k
            o.lon[k] = x[k] + (dx if k == k0 else 0)
            o.lat[k] = k
            last = k + 1 == n or labels[k + 1] != labels[k]
            first = k == 0 or labels[k - 1] != labels[k]
            out = labels[k][0] == 0
            o.next_obs[k] = -1 if last or out else k + 1
            o.previous_obs[k] = -1 if first or out else k - 1
        return o

    ref, other = atlas(a), atlas(b, moved)
    with command():
        r = A.run_compare(ref, dict(f=other))
    S.check(list(r) == ["f"], "one result by atlas")
    r = r["f"]

    def sets(labels, key):
        d = {}
        for k in range(n):
            d.setdefault(key(labels[k]), []).append(k)
        return {k: tuple(v) for k, v in d.items()}

    na, nb = sets(a, lambda v: v[0]), sets(b, lambda v: v[0])
    sa, sb = sets(a, lambda v: v), sets(b, lambda v: v)
    same = [k for k, v in na.items() if v in nb.values() and moved not in v and len(v) >= 2]
    segs = [k for k, v in sa.items() if v in sb.values() and moved not in v]
    full = [k for k in same if all(s in segs for s in sa if s[0] == k)]
    for key, e in (("same N(N)", len(same)), ("same N(Obs)", sum(len(na[k]) for k in same)), ("same NS(N)", len(full)), ("same NS(Obs)", sum(len(na[k]) for k in full)), ("same S(S)", len(segs)), ("same S(Obs)", sum(len(sa[k]) for k in segs))):
        S.check(r[key] == e, "number of identical networks and segments: " + key)


def identify(S):
    """filters and speeds asked before an identification"""
    G = S.mod("appli.grid")
    calls = []

    class Grid:
        def __init__(self, filename, x_name, y_name, centered=None, indexs=None, unset=False, nan_masking=False):
            calls.append(("open", filename, x_name, y_name, centered, indexs, unset, nan_masking))

        def add_uv(self, grid_height, uname="u", vname="v", stencil_halfwidth=4):
            calls.append(("uv", grid_height, uname, vname, stencil_halfwidth))

        def bessel_low_filter(self, grid_name, wave_length, order=1, lat_max=85, **kw):
            calls.append(("low", grid_name, wave_length, order, lat_max, kw))

        def bessel_high_filter(self, grid_name, wave_length, order=1, lat_max=85, **kw):
            calls.append(("high", grid_name, wave_length, order, lat_max, kw))

        def low_filter(self, grid_name, w_cut, **kw):
            self.bessel_low_filter(grid_name, w_cut, **kw)

        def high_filter(self, grid_name, w_cut, **kw):
            self.bessel_high_filter(grid_name, w_cut, **kw)

        def eddy_identification(self, grid_height, uname, vname, date, step=0.005, shape_error=55, presampling_multiplier=10, sampling=50,
                                sampling_method="visvalingam", pixel_limit=None, precision=None, force_height_unit=None, force_speed_unit=None, **kw):
            calls.append(("id", (grid_height, uname, vname, date), dict(
                kw, step=step, shape_error=shape_error, presampling_multiplier=presampling_multiplier, sampling=sampling, sampling_method=sampling_method,
                pixel_limit=list(pixel_limit), precision=precision, force_height_unit=force_height_unit, force_speed_unit=force_speed_unit)))
            return Eddies("a"), Eddies("c")

    class Eddies:
        def __init__(self, name):
            self.name = name

        def write_file(self, path="./", filename="%(path)s/%(sign_type)s.nc", zarr_flag=False, **kw):
            calls.append(("write", self.name, path, filename, zarr_flag, kw))

    class Other(Grid):
        def __init__(self, *a, **kw):
            calls.append(("other",))
            super().__init__(*a, **kw)

        def low_filter(self, grid_name, w_cut, factor=8.0):
            calls.append(("low", grid_name, w_cut, order, 70.0, {}))

        def high_filter(self, grid_name, w_cut, factor=8.0):
            calls.append(("high", grid_name, w_cut, order, 70.0, {}))

    Other.bessel_low_filter = Other.bessel_high_filter = property()  # grids of this kind have none
    cut = S.choice("cut", [[500], [0], [70, 600], [70, 0]])
    uv = S.choice("uv", [("None", "None"), ("uu", "vv")])
    unregular, zarr, ix = S.bool("unregular"), S.bool("zarr"), S.choice("ix", [None, ["time=2"], ["time=2", "z=10"]])
    unregular, zarr = bool(unregular), bool(zarr)
    order = S.choice("order", [1, 3])
    args = ["in.nc", S.choice("date", ["20190223", "20190223T000000", "20190223000000"]), "hh", *uv, "x", "y", "out", "--cut_wavelength", *map(str, cut), "--filter_order", str(order), "--lat_max", "70", "--isoline_step", "0.01", "--fit_errmax", "60", "--sampling", "20", "--sampling_method", "uniform", "--pixel_limit", "8", "900", "--nb_step_min", "3", "--height_unit", "cm"]
    args += ["--unregular"] * unregular + ["--zarr"] * zarr + (["--indexs"] + ix if ix else [])
    with patch(G, RegularGridDataset=Grid, UnRegularGridDataset=Other), command():
        G.eddy_id(args)
    if unregular:
        S.check(calls.pop(0) == ("other",), "kind of grid")
    S.check(calls.pop(0) == ("open", "in.nc", "x", "y", None, {k: int(v) for k, v in (q.split("=") for q in ix)} if ix else None, False, False), "grid, coordinates and indexs")
    if uv[0] == "None":
        S.check(calls.pop(0) == ("uv", "hh", "u", "v", 4), "speeds of the field which is not filtered")
    if len(cut) == 2:
        S.check(calls.pop(0) == ("low", "hh", 70.0, order, 70.0, {}), "first wavelength")
    if cut[-1]:
        S.check(calls.pop(0) == ("high", "hh", float(cut[-1]), order, 70.0, {}), "last wavelength")
    name, a, kw = calls.pop(0)
    S.check(name == "id" and a == ("hh", *(("u", "v") if uv[0] == "None" else uv), datetime(2019, 2, 23)), "identification of the filtered field")
    S.check(kw == dict(step=0.01, shape_error=60.0, pixel_limit=[8, 900], force_height_unit="cm", force_speed_unit=None, nb_step_to_be_mle=0, nb_step_min=3, sampling=20, sampling_method="uniform", presampling_multiplier=10, precision=None), "options are given")
    S.check(calls == [("write", k, "out", "%(path)s/%(sign_type)s_20190223T000000.nc", zarr, {}) for k in "ac"] or [c[1] for c in calls] == ["c", "a"] and all(c[2:] == ("out", "%(path)s/%(sign_type)s_20190223T000000.nc", zarr, {}) for c in calls), "both results are written")


def circle(S):
    """contours of circles"""
    O = S.mod("observations.observation")
    A = S.mod("appli.eddies")
    kind = S.choice("kind", ["none", "both", "e", "s"])
    names = dict(none=[], both=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], e=["contour_lon_e", "contour_lat_e"], s=["contour_lon_s", "contour_lat_s"])[kind]
    kw = dict(track_array_variables=5, array_variables=names) if names else {}
    n = 2
    o = O.EddiesObservations(size=n, track_extra_variables=["virtual"], **kw)
    x, y = S.ints("x", n, -170, 170), S.ints("y", n, -70, 70)
    re, rs = S.ints("re", n, 10, 90), S.ints("rs", n, 5, 80)
    virtual = [bool(v) for v in S.bools("v", n)]
    for k in range(n):
        o.lon[k], o.lat[k], o["radius_e"][k], o["radius_s"][k], o["virtual"][k] = x[k], y[k], re[k], rs[k], virtual[k]
        for f in names:
            o[f][k, :] = -3

    def local(dx, dy, lon0, lat0):
        return lon0 + dx / 1024, lat0 + dy / 1024

    tool = kind in ("none", "both") and S.choice("tool", [True, False])
    only, factor = (False, 1) if tool else (S.choice("only", [True, False]), S.choice("factor", [1, 2]))
    out = []
    with patch(O, local_to_coordinates=local):
        if tool:
            class Eddies(O.EddiesObservations):
                __slots__ = ()
                load_file = staticmethod(lambda name, **kw: o)

            def write(self, **kw):
                out.append((self, kw))

            with patch(A, EddiesObservations=Eddies), patch(O.EddiesObservations, write_file=write), command("in.nc", "out.nc"):
                A.eddies_add_circle()
            S.check(len(out) == 1 and out[0][1] == dict(filename="out.nc"), "one file is written")
            o = out[0][0]
        else:
            o.circle_contour(only_virtual=only, factor=factor)
    if tool:
        kind = "both"
    S.check(o.track_array_variables == (50 if not names and tool else 5 if names else 0), "number of points")
    for k in range(n):
        for f, r in (("s", rs), ("e", re)):
            if kind not in ("both", f):
                continue
            cx, cy = o["contour_lon_" + f][k], o["contour_lat_" + f][k]
            if only and not virtual[k]:
                S.check(S.And([v == -3 for v in cx]), "contours of real observations are kept")
                continue
            m = len(cx)
            dx, dy = [(v - x[k]) * 1024 for v in cx], [(v - y[k]) * 1024 for v in cy]
            S.check(S.And([S.close(dx[i] * dx[i] + dy[i] * dy[i], (r[k] * factor) * (r[k] * factor), 16) for i in range(m)]), "all points at the asked distance of the position of the observation")
            S.check(S.And(S.close(dx[0], dx[m - 1], 1e-2), S.close(dy[0], dy[m - 1], 1e-2)), "closed contour")
            S.check(S.And([dx[i] * dy[i + 1] - dx[i + 1] * dy[i] > 0 for i in range(m - 1)]), "which turns once")


def cases(tier):
    q = tier == "quick"
    r = []
    for name, opt in (("length", ["length"]), ("dead", ["dead"]), ("period", ["period"]), ("ids", ["ids"]), ("ids_trash", ["ids", 1]), ("trash", ["trash"]), ("none", ["none"])):
        for k, (sizes, nets, trash) in enumerate((([2, 1], [1, 1], 1), ([2, 2], [1, 2], 0), ([1, 2], [1, 2], 1)) + (() if q else (([2, 1, 2], [1, 1, 2], 1),))):
            if name == "trash" and not trash or name == "ids" and len(set(nets)) == 1:
                continue
            r.append(("subset_%s_%d" % (name, k), subset, dict(sizes=sizes, nets=nets, trash=trash, option=opt)))
    r.append(("groups", groups, dict(n1=3, n2=3, m=3 if q else 4)))
    for s in sorted(SHAPES):
        r.append(("compare_" + s, compare, dict(shape=s)))
    r.append(("identify", identify, {}))
    r.append(("circle", circle, {}))
    return r
