"""Spectra of a grid and land."""
import types
from contextlib import ExitStack

from props import C38, nc
from props.C43 import patch

PROPERTY = "C47"


def BOUNDS(tier):
    return "grids of 6 columns and 5 rows with any value, any mask of %d nodes, 5 areas, both scalings; land given on 12 columns of 30 degrees with any value of 4 cells" % (4 if tier == "quick" else 6)


OUTSIDE = "estimate of the spectrum of one series by scipy (welch); areas which cross the bounds of a circular grid"
ASSUMPTIONS = ["the spectrum of a series is missing as soon as one of its values is, and linear stand-ins are given for it"]


class Line:
    """linear interpolation of the library, at places known"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        self.x, self.y, self.fill = [float(v) for v in x], y, fill_value
        if bounds_error is not False:
            raise NotImplementedError

    def __call__(self, at):
        import builtins

        from vp import snp

        r = []
        for p in at:
            p = float(p)
            k = [i for i in builtins.range(len(self.x) - 1) if self.x[i] <= p <= self.x[i + 1]]
            if not k:
                r.append(self.fill)
                continue
            k = k[0]
            w = (p - self.x[k]) / (self.x[k + 1] - self.x[k])
            r.append(self.y[k] * (1 - w) + self.y[k + 1] * w)
        return snp.array(r)


MODELS = {"netCDF4": nc.module(), "scipy.interpolate": types.SimpleNamespace(interp1d=Line, RectBivariateSpline=None)}
FREQ = (0.0, 0.25, 0.5)
GAIN = dict(density=1, spectrum=7)


def power(S, l, scaling, win):
    """stand-in of the spectrum of a series, by frequency"""
    return [sum((1 + (i * (k + 2) + k * k) % 5) * v for i, v in enumerate(l)) * (k + 1) * GAIN[scaling] * win for k in range(len(FREQ))]


def fake(S):
    def one(x, fs, scaling, window):
        p = power(S, [x[i] for i in range(len(x))], scaling, dict(hann=1, boxcar=3)[window])
        return p

    def welch(x, fs=1.0, window="hann", nperseg=None, noverlap=None, nfft=None, detrend="constant", return_onesided=True, scaling="density", axis=-1, average="mean"):
        if len(x.shape) == 2:
            if axis in (0, -2):
                x = x.T
            r = S.arr([one(x[i], fs, scaling, window) for i in range(x.shape[0])], "f8")
            r = r.T if axis in (0, -2) else r
        else:
            r = S.arr(one(x, fs, scaling, window), "f8")
        return S.arr([f * fs for f in FREQ], "f8"), r

    return welch


XS = [10 + 0.5 * i for i in range(6)]
YS = [40 + 0.25 * j for j in range(5)]


def ground(S, pre, free, sym=True):
    n, m = len(XS), len(YS)
    z = [[S.int("%s%d%d" % (pre, i, j), -99, 99) if sym else 3 + (i * 7 + j * 5) % 11 for j in range(m)] for i in range(n)]
    k = [[S.bool("%sm%d%d" % (pre, i, j)) if (i, j) in free else False for j in range(m)] for i in range(n)]
    a = S.masked(S.arr(z, "f8"), S.arr(k, "?"))
    return z, k, a


AREAS = {
    "all": ((0, 5), (0, 4)),
    "west": ((0, 3), (0, 4)),
    "north": ((0, 5), (2, 4)),
    "mid": ((1, 4), (1, 3)),
    "east": ((2, 5), (0, 3)),
}


def spectrum(S, area, mode, free):
    """mean spectra of columns and rows"""
    D = S.mod("dataset.grid")
    G = D.RegularGridDataset
    dist = S.mod("generic").distance
    z, k, a = ground(S, "z", free)
    g = G.with_array(("x", "y"), dict(x=S.arr(XS, "f8"), y=S.arr(YS, "f8"), h=a), variables_description=dict(h=dict(units="m")))
    (i0, i1), (j0, j1) = AREAS[area]
    box = dict(llcrnrlon=XS[i0] + 0.1, urcrnrlon=XS[i1] - 0.1, llcrnrlat=YS[j0] - 0.05, urcrnrlat=YS[j1] + 0.05)
    cols, rows = list(range(i0, i1)), list(range(j0, j1))
    badc = [S.Or([k[i][j] for j in rows]) for i in cols]
    badr = [S.Or([k[i][j] for i in cols]) for j in rows]
    S.assume(S.And(S.Not(S.And(badc)), S.Not(S.And(badr))))
    sc = S.choice("scaling", [None, "density", "spectrum"])
    win = S.choice("window", ["hann", "boxcar"])
    kw = dict({} if sc is None else dict(scaling=sc), **({} if win == "hann" else dict(window=win)))
    sc, win = sc or "density", dict(hann=1, boxcar=3)[win]
    ref = None
    if mode != "alone":
        zr, _, ar = ground(S, "r", (), sym=False)
        name = "h" if mode == "ref" else "other"
        ref = G.with_array(("x", "y"), {"x": S.arr(XS, "f8"), "y": S.arr(YS, "f8"), name: ar}, variables_description={name: dict(units="m")})
        kw.update(dict(ref=ref), **({} if mode == "ref" else dict(ref_grid_name="other")))
    with patch(D, welch=fake(S)):
        lon, lat = g.spectrum_lonlat("h", area=box, **kw)
    # columns
    fy = 1000.0 / (0.25 * dist(0.0, 0.0, 0.0, 1.0))

    def mean(l, bad):
        """mean of what is not missing"""
        n = S.count([S.Not(b) for b in bad])
        return lambda v, q: S.close(v * n, sum(S.If(b, 0, p[q]) for p, b in zip(l, bad)), 1e-6)

    def spectra(z, badc, badr):
        c = [power(S, [z[i][j] for j in rows], sc, win) for i in cols]
        fs = [1000.0 / (0.5 * dist(0.0, YS[j], 1.0, YS[j])) for j in rows]
        return c, [power(S, [z[i][j] for i in cols], sc, win) for j in rows], fs

    c, r, fs = spectra(z, badc, badr)
    S.check(len(lat[0]) == len(lat[1]) == len(lon[0]) == len(lon[1]) == 3, "one value by frequency")
    rc = rr = [1.0] * 3
    # rows used have several frequencies, all of them hold the lowest range : the one of the row nearest of equator
    p = 0
    while p < len(rows) - 1 and bool(badr[p]):
        p += 1
    top = fs[p]

    def at(l, f, q):
        """spectrum of a row at frequency q of the reference range"""
        v = FREQ[q] * top / f
        i = 0 if v <= 0.25 else 1
        w = (v - FREQ[i]) / 0.25
        return l[i] * (1 - w) + l[i + 1] * w

    r = [[at(l, f, q) for q in range(3)] for l, f in zip(r, fs)]
    if ref is not None:
        c0, r0, _ = spectra(zr, None, None)
        rc = [sum(l[q] for l in c0) / len(c0) for q in range(3)]
        t0 = fs[0]
        top_keep, top = top, t0
        r0 = [[at(l, f, q) for q in range(3)] for l, f in zip(r0, fs)]
        top = top_keep
        rr = [sum(l[q] for l in r0) / len(r0) for q in range(3)]
    mc, mr = mean(c, badc), mean(r, badr)
    for q in range(3):
        S.check(lat[0][q] > 1e300 if q == 0 else S.close(lat[0][q] * fy * FREQ[q], 1.0, 1e-6), "wavelength along meridians, in km")
        S.check(lon[0][q] > 1e300 if q == 0 else S.close(lon[0][q] * top * FREQ[q], 1.0, 1e-6), "wavelength along parallels, in km")
        S.check(mc(lat[1][q] * rc[q], q), "mean of columns without missing value")
        S.check(mr(lon[1][q] * rr[q], q), "mean of rows without missing value")


def land(S, x0, how):
    """values over land are removed"""
    D = S.mod("dataset.grid")
    G = D.RegularGridDataset
    lx = [30.0 * i for i in range(12)]
    ly = [-10.0, 0.0, 10.0]
    cells = [(0, 1), (11, 1), (1, 2), (0, 0)]
    L = {c: S.int("l%d_%d" % c, 0, 1) for c in cells}
    nx, ny = 5, 3
    xs, ys = [x0 + 15.0 * i + 4 for i in range(nx)], [-8.0, 0.5, 9.0]
    z = [[S.int("z%d%d" % (i, j), -9, 9) for j in range(ny)] for i in range(nx)]
    k = [[S.bool("m%d%d" % (i, j)) if (i, j) in ((1, 1), (4, 2)) else False for j in range(ny)] for i in range(nx)]
    with C38.Files() as f, ExitStack() as st:
        fn = f.path("land")
        with D.Dataset(fn, "w") as h:
            h.createDimension("lon", 12)
            h.createDimension("lat", 3)
            h.createVariable("lon", "f8", ("lon",))[:] = S.arr(lx, "f8")
            h.createVariable("lat", "f8", ("lat",))[:] = S.arr(ly, "f8")
            at = lambda i, j: L.get((i, j), 1 if (i, j) == (2, 1) else 0)
            dims = ("lon", "lat") if how else ("lat", "lon")
            h.createVariable("mask", "i1", dims)[:] = S.arr([[at(i, j) for j in range(3)] for i in range(12)] if how else [[at(i, j) for i in range(12)] for j in range(3)], "i1")
        asked = []

        def demo(n):
            asked.append(n)
            return fn

        st.enter_context(patch(D, get_demo_path=demo))
        g = G.with_array(("x", "y"), dict(x=S.arr(xs, "f8"), y=S.arr(ys, "f8"), h=S.masked(S.arr(z, "f8"), S.arr(k, "?")), o=S.masked(S.arr(z, "f8"), S.arr(k, "?"))), variables_description=dict(h=dict(units="m"), o=dict(units="m")))
        r = g.clean_land("h")
    S.check(set(asked) == {"mask_1_60.nc"}, "mask of land")
    h, o = g.grid("h"), g.grid("o")
    for i in range(nx):
        p = int(((xs[i] + 15) % 360) // 30)
        for j in range(ny):
            q = [0, 1, 2][j]
            S.check(S.iff(h.mask[i, j], S.Or(k[i][j], at(p, q) == 1)), "missing where it was and over land")
            S.check(S.Or(h.mask[i, j], h.data[i, j] == z[i][j]), "values are kept at sea")
            S.check(S.And(S.iff(o.mask[i, j], k[i][j]), S.Or(k[i][j], o.data[i, j] == z[i][j])), "other fields are unchanged")


FREE = ((1, 1), (2, 2), (1, 2), (3, 0), (4, 3), (0, 0))


def cases(tier):
    r = []
    for a in AREAS:
        for mode in ("alone", "ref", "named"):
            if mode != "alone" and tier == "quick" and a in ("north", "east"):
                continue
            r.append(("%s_%s" % (mode, a), spectrum, dict(area=a, mode=mode, free=FREE[:4] if tier == "quick" else FREE)))
    for x0 in (-30, 0, 330, -60, 300):
        for how in (0, 1):
            r.append(("land_%d_%d" % (x0, how), land, dict(x0=x0, how=how)))
    return r
