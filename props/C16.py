"""Saving and resuming a tracking."""
import os
import shutil
import tempfile

from props import nc
from props.trk import World

PROPERTY = "C16"
MODELS = {"netCDF4": nc.module()}


def BOUNDS(tier):
    return "every set of one to one links (none included) between 3 dates of 2 observations and 4 to 5 dates of 1 or 2, prolongation of 0 to 2 dates, interruption after every date%s" % ("" if tier == "quick" else "; 4 dates of 2 and 6 dates of 1 observation")


OUTSIDE = "more dates or observations; the netCDF library itself (a model of it when code is executed symbolically, the real one when paths are replayed)"
ASSUMPTIONS = ["links between two dates are one to one and otherwise arbitrary (established by C13)", "the observation class can be imported by its name"]


def register(S, w):
    O = S.mod("observations.observation")
    w.Obs.__module__ = "py_eddy_tracker.observations.observation"
    w.Obs.__qualname__ = w.Obs.__name__ = "WorldObservations"
    O.WorldObservations = w.Obs


def content(S, c):
    return [[[S.concrete(x[f][q]) for f, _ in c.correspondance_dtype] for q in range(len(x))] for x in c]


def resume(S, sizes, nv, stop):
    T = S.mod("tracking")
    w = World(S, sizes, nv)
    register(S, w)
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, "correspondances.nc")
        ds = ["d%d.nc" % t for t in range(len(sizes))]
        c = T.Correspondances(datasets=ds[: stop + 1], virtual=nv, class_method=w.Obs)
        c.track()
        c.save(fn)
        table = content(S, c)
        b = T.Correspondances.load(fn)
        S.check(content(S, b) == table, "the table read is the table saved")
        S.check(b.nb_virtual == nv, "same prolongation")
        S.check(list(b.datasets) == ds[: stop + 1], "same datasets")
        b.prepare_merging()
        w.merged(b.merge(raw_data=False), w.tracks)
        c2 = T.Correspondances(datasets=ds, virtual=nv, class_method=w.Obs, previous_correspondance=fn)
        c2.track()
        S.check(w.step == len(sizes) - 1, "every date is linked once to the next one")
        S.check(c2.current_id == len(w.tracks), "one identifier per track")
        c2.prepare_merging()
        w.merged(c2.merge(raw_data=False), w.tracks)
    finally:
        shutil.rmtree(d)


def join(S, sizes, cut, first=None):
    """two trackings with two datasets in common"""
    T = S.mod("tracking")
    w = World(S, sizes, 0)
    ds = ["d%d.nc" % t for t in range(len(sizes))]
    a = T.Correspondances(datasets=ds[: cut + 1], virtual=0, class_method=w.Obs)
    a.track()
    b = T.Correspondances(datasets=ds[cut - 1 if first is None else first :], virtual=0, class_method=w.Obs)
    b.track()
    a.merge_correspondance(b)
    S.check(list(a.datasets) == ds, "datasets of both")
    S.check(a.current_id == len(w.tracks), "one identifier per track")
    a.prepare_merging()
    w.merged(a.merge(raw_data=False), w.tracks)
    register(S, w)
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, "correspondances.nc")
        a.save(fn)
        c = T.Correspondances.load(fn)
        S.check(content(S, c) == content(S, a), "the joined table read is the joined table saved")
    finally:
        shutil.rmtree(d)


def cases(tier):
    r = []
    sz = [("222", [2, 2, 2], 0), ("222v", [2, 2, 2], 1), ("1212v", [1, 2, 1, 2], 2), ("11111v", [1, 1, 1, 1, 1], 2)]
    if tier != "quick":
        sz += [("2222v", [2, 2, 2, 2], 1), ("2222v2", [2, 2, 2, 2], 2), ("111111v", [1] * 6, 2)]
    for n, s, v in sz:
        for stop in range(1, len(s) - 1):
            r.append(("resume_%s_%d" % (n, stop), resume, dict(sizes=s, nv=v, stop=stop)))
    r += [("join_2222_2", join, dict(sizes=[2, 2, 2, 2], cut=2)), ("join_1212_2", join, dict(sizes=[1, 2, 1, 2], cut=2)), ("join_222_1", join, dict(sizes=[2, 2, 2], cut=1)), ("join_2222_3", join, dict(sizes=[2, 2, 2, 2], cut=3, first=0)), ("join_12121_3", join, dict(sizes=[1, 2, 1, 2, 1], cut=3, first=0)), ("join_11221_2", join, dict(sizes=[1, 1, 2, 2, 1], cut=2))]
    return r
