"""Files which are tracked and their dates."""
import datetime as dt
import os
import shutil
import tempfile
from contextlib import ExitStack

from props.C43 import patch

PROPERTY = "C49"


def BOUNDS(tier):
    return "%d files of any date (hours of 20 days), named in several ways, any bounds of dates and subsampling of 1 or 2" % (3 if tier == "quick" else 4)


OUTSIDE = "text of dates (read by the standard library); attributes of netCDF files"
ASSUMPTIONS = []
ORIGIN = dt.datetime(2000, 1, 1)
WAYS = {
    "current": ("f_%s.nc", {}),
    "relative": ("data_a/f_%s.nc", {}),
    "absolute": ("/data_b/g_1/f_%s.nc", {}),
    "zarr": ("x/y/f_2_%s.zarr", {}),
    "model": ("f%s_end.nc", dict(date_regexp="f([0-9]*)_end.nc", date_model="%Y")),
    "glob": (None, {}),
}


class Date:
    """standard library whose text of dates are the ones of the check"""

    def __init__(self, f):
        self.strptime = f


def browse(S, n, way, cut):
    A = S.mod("appli.eddies")
    conc = type(S).__name__ == "ConcCtx"
    h = S.ints("h", n, 0, 480)
    asked = []
    names = ["7%d" % k for k in range(n)]

    def at(v):
        return ORIGIN + dt.timedelta(hours=int(v)) if conc else v

    def read(text, model=None):
        asked.append((text, model))
        return at(h[names.index(text)])

    model, kw = WAYS[way]
    kw = dict(dict(date_regexp=".*_([0-9]*?).[nz].*"), **kw)
    folder = None
    if model is None:
        folder = tempfile.mkdtemp()
        model = os.path.join(folder, "f_%s.nc")
        open(os.path.join(folder, "other_file.nc"), "w").close()
        for q in names:
            open(model % q, "w").close()
        kw.update(data_dir=folder, files_model="f_*.nc")
    else:
        perm = S.choice("perm", [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]])
        kw.update(data_dir=None, files_model=None, files=[model % names[i] for i in perm])
    lo = hi = None
    if "s" in cut:
        lo = S.int("lo", -10, 500)
        kw["start_date"] = at(lo)
    if "e" in cut:
        hi = S.int("hi", -10, 500)
        kw["end_date"] = at(hi)
    step = S.choice("step", [1, 2])
    if step != 1:
        kw["sub_sampling_step"] = step
    if lo is not None and hi is not None:
        S.assume(lo <= hi)
    # expected order
    order = []
    for k in range(n):
        q = 0
        while q < len(order) and bool(h[order[q]] <= h[k]):
            q += 1
        order.insert(q, k)
    regular = S.And([h[order[q + 1]] - h[order[q]] == h[order[1]] - h[order[0]] for q in range(n - 1)])
    with ExitStack() as st:
        st.enter_context(patch(A, identify_time=read, datetime=Date(read)))
        if not conc and hasattr(A, "datetime64"):
            st.enter_context(patch(A, datetime64=lambda v, u=None: v))
        try:
            r = A.browse_dataset_in(**kw)
        except Exception as e:
            if "Several timesteps" not in str(e):
                raise
            r = None
        finally:
            if folder:
                shutil.rmtree(folder)
    S.check(sorted(asked) == [(q, kw.get("date_model")) for q in names], "date in the name of each file")
    if r is None:
        S.check(S.Not(regular), "refused only when the time step changes")
        return
    S.check(regular, "refused when the time step changes")
    want = [k for k in order[::step] if (lo is None or bool(h[k] >= lo)) and (hi is None or bool(h[k] <= hi))]
    S.check(len(r) == len(want), "files of the period")
    for q, k in enumerate(want):
        name = r["filename"][q]
        S.check((name.decode() if isinstance(name, bytes) else name) == model % names[k], "files in the order of dates")
        d = r["date"][q]
        if conc:
            d = (d.astype("M8[s]").astype("i8") - int((ORIGIN - dt.datetime(1970, 1, 1)).total_seconds())) // 3600
        S.check(d == h[k], "date of each file")


def unknown(S):
    """a file without date is refused"""
    A = S.mod("appli.eddies")
    bad = S.choice("bad", ["f_.nc.tmp", "/a/file20200101.nc", "f_2020a.nc"])
    try:
        A.browse_dataset_in(None, None, ".*_([0-9]+?).[nz].*", files=["/a/f_20200101.nc", bad])
        S.check(False, "a file without date is refused")
    except Exception as e:
        S.check(type(e) is Exception, "a file without date is refused")


def cases(tier):
    n = 3 if tier == "quick" else 4
    r = []
    for way in WAYS:
        for cut in ("", "s", "e", "se"):
            r.append(("%s_%s" % (way, cut or "all"), browse, dict(n=n, way=way, cut=cut)))
    r.append(("one", browse, dict(n=1, way="relative", cut="se")))
    r.append(("unknown", unknown, {}))
    return r
