"""Writing and reading files of observations."""
import os
import shutil
import tempfile

from props import nc, za

PROPERTY = "C21"
MODELS = dict({"netCDF4": nc.module(), "zarr": za.zarr_module()}, **za.pint_modules())


def BOUNDS(tier):
    return "tables of 0 to %d observations; every field with any value its storage can hold (packed fields: any packed value and any rounding), contours of 2 vertices, netCDF and zarr, any list of variables among 5, any slice" % (2 if tier == "quick" else 3)


OUTSIDE = "larger tables; rounding of floating point beyond 1e-3 of a packing step in the model (the real build is replayed); the netCDF, zarr and pint libraries (models of them when code is executed symbolically, the real ones when paths are replayed)"
ASSUMPTIONS = ["values are in the domain of the storage type and are not its fill value"]
RANGE = {"u1": (0, 254), "i1": (-127, 127), "u2": (0, 65534), "i2": (-32766, 32767), "u4": (0, 4294967294), "i4": (-2147483646, 2147483647), "f2": (-2000, 2000), "f4": (-8388600, 8388600), "f8": (-8388600, 8388600)}
KEY = {"byte": "i1", "uint8": "u1", "uint16": "u2", "int32": "i4", "uint32": "u4", "float32": "f4", "float64": "f8"}
CONT = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile"]
EXTRA = {
    "link": ["previous_obs", "next_obs", "previous_cost", "next_cost", "segment", "virtual", "index_other", "segment_size"],
    "date": ["year", "month", "day", "n", "track", "cost_association", "dlon", "dlat", "distance_next"],
    "sea": ["chl", "dchl", "chl_bg", "eke", "i", "j", "lon_max", "lat_max", "score"],
}


def kind(t):
    return KEY.get(t, t)


class Files:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def path(self, fmt):
        return os.path.join(self.d, "a." + fmt)


def values(S, o, V, fields, n, raw):
    """packed value (or value) of each cell"""
    r = {}
    for f in fields:
        d = V[f]
        lo, hi = RANGE[kind(d["output_type"])]
        # binary32 holds 24 bits
        if not raw and kind(d.get("compute_type", d["nc_type"])) == "f4" and kind(d["output_type"])[0] == "u":
            hi = min(hi, 2**23)
        for k in range(n):
            for q in range(2) if f in CONT else [None]:
                nm = "%s_%d%s" % (f, k, "" if q is None else "_%d" % q)
                p = S.int(nm, lo, hi)
                v = p
                if not raw and "scale_factor" in d:
                    v = p * d["scale_factor"] + d.get("add_offset", 0)
                    if k == 0:
                        v = v + S.choice("shift_" + nm, [0, 0.375, -0.375] if fields.index(f) < 1 else [0.25]) * d["scale_factor"]
                elif not raw and kind(d["output_type"])[0] == "f" and k == 0 and kind(d["output_type"]) != "f2":
                    v = p / 64
                if q is None:
                    o.obs[f][k] = v
                else:
                    o.obs[f][k, q] = v
                r[f, k, q] = (p, v)
    return r


def table(S, cls, n, fields, raw):
    extra = [f for f in fields if f not in cls.ELEMENTS and f not in CONT]
    arr = [f for f in fields if f in CONT]
    base = [f for f in fields if f in cls.ELEMENTS]
    return cls(n, track_extra_variables=extra, track_array_variables=2 if arr else 0, array_variables=arr, only_variables=list(fields), raw_data=raw)


def write(S, o, fmt, F, name="a"):
    fn = os.path.join(F.d, name + "." + fmt)
    o.write_file(filename=os.path.join(F.d, name + ".nc"), zarr_flag=True) if fmt == "zarr" else o.write_file(filename=fn)
    return fn


def cell(o, f, k, q):
    return o.obs[f][k] if q is None else o.obs[f][k, q]


def trip(S, fmt, fields, n, raw):
    O, V = S.mod("observations.observation"), S.mod("").VAR_DESCR
    o = table(S, O.EddiesObservations, n, fields, raw)
    o.sign_type = S.choice("sign", [-1, 1])
    if "type_cyc" in fields:
        fields = [f for f in fields if f != "type_cyc"]
        for k in range(n):
            o.obs["type_cyc"][k] = o.sign_type
    w = values(S, o, V, fields, n, raw)
    with Files() as F:
        fn = write(S, o, fmt, F)
        a = O.EddiesObservations.load_file(fn)
        b = O.EddiesObservations.load_file(fn, raw_data=True)
    for new in (a, b):
        S.check(len(new) == n, "as many observations")
        S.check(set(o.fields) <= set(new.fields), "every field is read")
        S.check(new.sign_type == o.sign_type, "sign of rotation")
    S.check(a.raw_data is False and b.raw_data is True, "raw mode")
    for (f, k, q), (p, v) in w.items():
        d = V[f]
        S.check(S.close(cell(b, f, k, q), p if "scale_factor" in d else v, 1e-3), "packed value of " + f)
        if raw and "scale_factor" in d:
            v = p * d["scale_factor"] + d.get("add_offset", 0)
        tol = d["scale_factor"] * 0.51 if "scale_factor" in d else 1e-9
        tol += {"f2": 0.04, "f4": 0.01}.get(kind(d["nc_type"]), 0) if "scale_factor" in d and d["scale_factor"] >= 0.01 else 0
        S.check(S.close(cell(a, f, k, q), v, tol), "value of " + f)
        S.check(S.close(cell(o, f, k, q), p if raw else v, 1e-3 + tol), "table written unchanged")


def again(S, fmt, fields, n):
    """a table read then written again gives the same file"""
    O, V = S.mod("observations.observation"), S.mod("").VAR_DESCR
    o = table(S, O.EddiesObservations, n, fields, False)
    o.sign_type = 1
    w = values(S, o, V, fields, n, False)
    with Files() as F:
        fn = write(S, o, fmt, F)
        b = O.EddiesObservations.load_file(fn, raw_data=True)
        c = O.EddiesObservations.load_file(write(S, b, fmt, F, "b"), raw_data=True)
        a = O.EddiesObservations.load_file(fn)
        other = "zarr" if fmt == "nc" else "nc"
        d = O.EddiesObservations.load_file(write(S, a, other, F, "c"), raw_data=True)
    for f, k, q in w:
        S.check(cell(c, f, k, q) == cell(b, f, k, q), "same packed value of " + f)
        S.check(cell(d, f, k, q) == cell(b, f, k, q), "same packed value in the other format of " + f)


def build(S, n, cls):
    o = table(S, cls, n, ["lon", "lat", "time", "amplitude", "track", "contour_lon_e", "contour_lat_e"], False)
    o.sign_type = 1
    for k in range(n):
        o.lon[k], o.lat[k], o.time[k], o.amplitude[k], o.obs["track"][k] = 10 * k, k, 100 + k, k / 4, 5 + k
        for q in range(2):
            o.contour_lon_e[k, q], o.contour_lat_e[k, q] = 20 + k + q / 4, 4 * k + q / 4
    return o


NAMES = {"longitude": "lon", "latitude": "lat", "time": "time", "amplitude": "amplitude", "track": "track", "effective_contour_longitude": "contour_lon_e"}


def same(S, new, q, o, k, f):
    a, b = new.obs[f][q], o.obs[f][k]
    if f in CONT:
        S.check(S.And([S.close(a[j], b[j], 1e-2) for j in range(2)]), "contour of its observation")
    else:
        S.check(S.close(a, b, 1e-3), "value of its observation")


def cutting(S, fmt, n):
    """slices of a file"""
    O = S.mod("observations.observation")
    cls = O.EddiesObservations
    o = build(S, n, cls)
    a, b, c = S.choice("start", [None, 0, 1, -2, 5]), S.choice("stop", [None, 0, 2, 3, 9, -1]), S.choice("step", [None, 1, 2])
    ix = dict(obs=slice(a, b, c))
    kw = dict(buffer_size=S.choice("buffer", [1, 5000000])) if fmt == "zarr" else {}
    rows = list(range(n))[slice(a, b)]
    with Files() as F:
        fn = write(S, o, fmt, F)
        for raw in (False, True):
            new = cls.load_file(fn, indexs=ix, raw_data=raw, **kw)
            S.check(len(new) == len(rows), "number of rows of the slice")
            for q, k in enumerate(rows):
                if raw:
                    S.check(S.And(new.obs["track"][q] == 5 + k, S.close(new.obs["amplitude"][q], 2500 * k, 1e-3)), "packed row of the slice")
                    continue
                for f in NAMES.values():
                    same(S, new, q, o, k, f)


def subset(S, fmt, n):
    """some of the variables"""
    O = S.mod("observations.observation")
    cls = O.EddiesObservations
    o = build(S, n, cls)
    names = list(NAMES)
    some = [v for v in names if S.concrete(S.bool("v_" + v))]
    how = S.choice("how", ["include", "remove"])
    S.assume(len(some) > 0)
    with Files() as F:
        fn = write(S, o, fmt, F)
        new = cls.load_file(fn, **{how + "_vars": some})
    S.check(len(new) == n, "every row")
    S.check(new.sign_type == 1, "sign of rotation")
    want = some if how == "include" else [v for v in names if v not in some]
    if how == "include":
        S.check(sorted(new.fields) == sorted(NAMES[v] for v in want), "only the variables asked for")
    for v in want:
        for k in range(n):
            same(S, new, k, o, k, NAMES[v])


def units(S, fmt):
    """values given in other units"""
    O = S.mod("observations.observation")
    cls = O.EddiesObservations
    o = table(S, cls, 1, ["amplitude", "radius_e", "speed_average"], False)
    o.sign_type = 1
    u = [S.choice("u_amplitude", ["m", "cm", "mm"]), S.choice("u_radius", ["m", "km", "unknownunit"]), S.choice("u_speed", ["m/s", "cm/s"])]
    v = [S.fx("amplitude", 0, 4, 8), S.int("radius", 0, 60000), S.fx("speed", 0, 4, 8)]
    f = dict(m=1, cm=0.01, mm=0.001, km=1000)
    f.update({"m/s": 1, "cm/s": 0.01, "unknownunit": 1})
    with Files() as F:
        o.obs["amplitude"][0], o.obs["radius_e"][0], o.obs["speed_average"][0] = v[0], v[1] * 50, v[2]
        fn = write(S, o, fmt, F)
        names = ["amplitude", "effective_radius", "speed_average"]
        if fmt == "nc":
            with O.Dataset(fn, "w") as h:
                o.to_netcdf(h)
                for nm, un in zip(names, u):
                    h.variables[nm].units = un
        else:
            h = O.zarr.open(fn, "w")
            o.to_zarr(h)
            for nm, un in zip(names, u):
                h[nm].attrs["units"] = un
        new = cls.load_file(fn)
    S.check(S.close(new.amplitude[0], v[0] * f[u[0]], 1e-4), "amplitude in metres")
    S.check(S.close(new.radius_e[0], v[1] * 50 * f[u[1]], 30 * f[u[1]]), "radius in metres")
    S.check(S.close(new.speed_average[0], v[2] * f[u[2]], 1e-4), "speed in metres per second")


def network(S, fmt, n):
    N = S.mod("observations.network")
    o = N.NetworkObservations(size=n, track_extra_variables=["virtual"])
    o.sign_type = S.choice("sign", [-1, 1])
    v = {}
    for f, lo, hi in (("track", 0, 4294967294), ("segment", 0, 4294967294), ("previous_obs", -1, n - 1), ("next_obs", -1, n - 1), ("virtual", 0, 1), ("time", 0, 40000)):
        v[f] = S.ints(f, n, lo, hi)
        for k in range(n):
            o[f][k] = v[f][k]
    cost = S.fxs("cost", n, 0, 1, 256)
    for k in range(n):
        o.previous_cost[k], o.next_cost[k] = cost[k], 1 - cost[k]
    with Files() as F:
        fn = write(S, o, fmt, F)
        new = N.NetworkObservations.load_file(fn)
    S.check(isinstance(new, N.NetworkObservations), "a network")
    S.check(new.sign_type == o.sign_type, "sign of rotation")
    for f in v:
        for k in range(n):
            S.check(S.close(new[f][k], v[f][k], 1e-4) if f == "time" else new[f][k] == v[f][k], "links, numbers and dates")
    for k in range(n):
        S.check(S.And(new.previous_cost[k] == cost[k], new.next_cost[k] == 1 - cost[k]), "scores")


def tracks(S, fmt, n):
    T = S.mod("observations.tracking")
    o = T.TrackEddiesObservations(size=n, track_extra_variables=["type_cyc"] if S.choice("cyc", [0, 1]) else [])
    o.sign_type = S.choice("sign", [-1, 1])
    if "type_cyc" in o.fields:
        o.type_cyc[:] = o.sign_type
    tr, pos = S.ints("track", n, 0, 4294967294), S.ints("n", n, 0, 65534)
    vi = S.ints("virtual", n, 0, 1)
    for k in range(n):
        o.track[k], o["n"][k], o.time[k], o.virtual[k] = tr[k], pos[k], 20000 + k, vi[k]
    with Files() as F:
        fn = write(S, o, fmt, F)
        new = T.TrackEddiesObservations.load_file(fn)
    S.check(len(new) == n, "as many observations")
    S.check(n == 0 or new.sign_type == o.sign_type, "sign of rotation")
    for k in range(n):
        S.check(S.And(new.track[k] == tr[k], new["n"][k] == pos[k], S.close(new.time[k], 20000 + k, 1e-4), new.virtual[k] == vi[k]), "tracks")


def cases(tier):
    top = 2 if tier == "quick" else 3
    out = []
    groups = dict(base=["lon", "lat", "radius_s", "radius_e", "amplitude", "speed_average"], more=["time", "shape_error_e", "shape_error_s", "speed_area", "effective_area", "nb_contour_selected"],
                  number=["num_point_e", "num_point_s", "height_max_speed_contour", "height_external_contour", "height_inner_contour", "lon", "type_cyc"], cont=CONT)
    groups.update(EXTRA)
    for fmt in ("nc", "zarr"):
        for g, fields in groups.items():
            packed = [f for f in fields if f != "type_cyc"] if g in ("base", "cont", "more") or tier != "quick" else []
            for raw in (False, True):
                for n in (range(1, top + 1) if tier != "quick" else [1 if raw else top]):
                    sub = [fields] if raw or not packed else [fields[k : k + 2] for k in range(0, len(fields), 2)]
                    for k, q in enumerate(sub):
                        out.append(("trip-%s-%s%d-%d-%d" % (fmt, g, k, raw, n), trip, dict(fmt=fmt, fields=q, n=n, raw=raw)))
            for f in packed:
                out.append(("again-%s-%s" % (fmt, f), again, dict(fmt=fmt, fields=[f], n=1)))
        out.append(("trip-%s-empty" % fmt, trip, dict(fmt=fmt, fields=["lon", "time", "contour_lon_e", "contour_lat_e"], n=0, raw=False)))
        out.append(("cutting-%s" % fmt, cutting, dict(fmt=fmt, n=top + 1)))
        out.append(("subset-%s" % fmt, subset, dict(fmt=fmt, n=2)))
        out.append(("units-%s" % fmt, units, dict(fmt=fmt)))
        out.append(("network-%s" % fmt, network, dict(fmt=fmt, n=2)))
        for n in (0, 2):
            out.append(("tracks-%s-%d" % (fmt, n), tracks, dict(fmt=fmt, n=n)))
    return out
