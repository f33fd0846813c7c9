import sys
from mkseed import mkseed as _mk

ONLY = set(sys.argv[1:])
TR = "observations/tracking.py"
OB = "observations/observation.py"
GEN = "generic.py"
GRP = "observations/groups.py"
TRK = """
import numpy as np
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

def table(track, **fields):
    n = len(track)
    t = TrackEddiesObservations(size=n)
    t.sign_type = 1
    for f in t.obs.dtype.names:
        t.obs[f][:] = 0
    t.track[:] = track
    t.time[:] = np.arange(n)
    for k, v in fields.items():
        t.obs[k][:] = v
    return t

"""


def mkseed(id, *args):
    if not ONLY or id in ONLY:
        _mk(id, *args)


mkseed("C22-dateline", "C22", [(TR, "            lon_end = (lon_end - (lon_start - 180)) % 360 + lon_start - 180\n", "            lon_start = lon_start % 360\n            lon_end = lon_end % 360\n")],
 "a track which crosses the meridian 0", "it is taken in the opposite direction", TRK + """
t = table([1, 1, 2, 2], lon=[359, 361.5, 10, 8])
assert t.extract_in_direction("E").track.tolist() == [1, 1]
assert t.extract_in_direction("W").track.tolist() == [2, 2]
t = table([1, 1, 2, 2], lon=[1, -2, 10, 12])
assert t.extract_in_direction("W").track.tolist() == [1, 1]
assert t.extract_in_direction("E").track.tolist() == [2, 2]
""")
mkseed("C22-period", "C22", [(TR, "            mask *= self.time <= (dataset_period[1] + p_max)\n", "            mask *= self.time <= (dataset_period[0] - p_min + (dataset_period[1] - dataset_period[0] + p_max + p_min))\n" if 0 else "            mask = self.time <= (dataset_period[1] + p_max)\n")],
 "a period with a date from the end and another lower bound", "the lower bound is forgotten", TRK + """
t = table([1, 1, 1, 2, 2, 2], time=[10, 11, 12, 13, 14, 15])
assert t.extract_with_period((12, -1)).time.tolist() == [12, 13, 14]
assert t.extract_with_period((-1, -1)).time.tolist() == [11, 12, 13, 14]
assert t.extract_with_period((0, -2)).time.tolist() == [10, 11, 12, 13]
""")
mkseed("C22-first-obs", "C22", [(OB, "        m[:-1][self.n[1:] == 0] = True\n", "        m[:-1][self.n[1:] < self.n[:-1]] = True\n")],
 "a track of one observation before another track", "the only observation of a track is not given as the last one", TRK + """
t = table([1, 1, 2, 3, 3], n=[0, 1, 0, 0, 1])
assert t.last_obs().track.tolist() == [1, 2, 3]
""")
mkseed("C24-steal-all", "C24", [(TR, "                    m = ids[\"track\"][i_next_:] == ids[\"track\"][i_next_]\n                    ids[\"track\"][i_next_:][m] = track_id\n", "                    m = ids[\"track\"] == ids[\"track\"][i_next_]\n                    ids[\"track\"][m] = track_id\n")],
 "an observation is a better parent of an observation in the middle of a segment", "the part of the segment before the merging takes the number of the other segment", """
import numpy as np
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

def sq(x0, x1):
    return np.array([x0, x1, x1, x0, x0], float), np.array([0, 0, 1, 1, 0], float)

# day 0: A, B ; day 1: C ; B overlaps C better than A
t = TrackEddiesObservations(size=3, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e"])
for f in t.obs.dtype.names:
    t.obs[f][:] = 0
t.track[:] = 1
t.time[:] = [0, 0, 1]
for i, (a, b) in enumerate(((0, 1), (.4, 1.4), (.5, 1.5))):
    t.contour_lon_e[i], t.contour_lat_e[i] = sq(a, b)
# alone in time so that the first group gives the time step
ids = t.split_network(intern=False, window=2)
assert ids["track"].tolist() == [1, 2, 2], ids["track"]
""")
mkseed("C24-window-start", "C24", [(TR, "        t0, t1 = time_cur - 1 - time_ref, max(time_cur - window - time_ref, 0)\n", "        t0, t1 = time_cur - 1 - time_ref, time_cur - window - time_ref\n")],
 "an observation in the first dates of a group, without ancestor, which overlaps an observation of the last dates", "an observation of the future is given as ancestor", """
import numpy as np
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

def sq(x0, x1):
    return np.array([x0, x1, x1, x0, x0], float), np.array([0, 0, 1, 1, 0], float)

t = TrackEddiesObservations(size=5, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e"])
for f in t.obs.dtype.names:
    t.obs[f][:] = 0
t.track[:] = 1
t.time[:] = [0, 1, 2, 3, 4]
for i, a in enumerate((0, 0.1, 0.2, .1, 0)):
    t.contour_lon_e[i], t.contour_lat_e[i] = sq(a, a + 1)
ids = t.split_network(intern=False, window=3)
assert ids["previous_obs"].tolist() == [-1, 0, 1, 2, 3], ids["previous_obs"]
""")
mkseed("C23-median-order", "C23", [(TR, "            and cur_track == track[i_next]\n        ):\n", "            and cur_track >= track[i_next]\n        ):\n")],
 "tracks whose numbers decrease in the table, close in time", "the median uses observations of the following track", TRK + """
t = table([5, 5, 2, 2], lon=[1, 1, 9, 9], time=[0, 1, 1, 2])
r = t.median_filter(2, "time", "lon", inplace=False)
assert r.tolist() == [1, 1, 9, 9], r
""")
mkseed("C23-cumsum", "C23", [(GEN, "        if tr != tr_previous:\n            d_cum = 0\n", "        if tr > tr_previous:\n            d_cum = 0\n")],
 "tracks whose numbers decrease in the table", "the sum of a track continues in the following one", """
import numpy as np
from py_eddy_tracker.generic import cumsum_by_track
r = cumsum_by_track(np.array([1., 2., 3., 4.]), np.array([5, 5, 2, 2]))
assert r.tolist() == [1, 3, 3, 7], r
""")
mkseed("C18-concat", "C18", [(TR, "            last_track = new_track.max() + 1\n", "            last_track = new_track[-1] + 1\n")],
 "tables whose last observation is not of the track of highest number", "tracks of two tables get the same number", TRK + """
a, b = table([4, 4, 1, 1]), table([1, 1, 2])
c = TrackEddiesObservations.concatenate([a, b])
n = len(set(c.track.tolist()))
assert n == 4, c.track
""")
mkseed("C18-insert-end", "C18", [(OB, "        if index < 0:\n            index = self_size + index + 1\n", "        if index < 0:\n            index = self_size + (index + 1) * insert_size\n" if 0 else "        if index < 0:\n            index = self_size\n")],
 "insertion at a negative index other than -1", "observations are inserted at the end", TRK + """
a, b = table([1, 1, 1]), table([5])
a.insert_observations(b, -2)
assert a.track.tolist() == [1, 1, 5, 1], a.track
""")
mkseed("C19-unsorted-positions", "C19", [(OB, "                return filter1[filter2[filter1]]\n", "                index = where(filter2)[0]\n                return index[in1d(index, filter1)]\n")],
 "unsorted positions combined with a mask", "the order of the positions is lost", TRK + """
t = table([1] * 4)
r = t.merge_filters(np.array([3, 0, 2]), np.array([True, True, False, True]))
assert r.tolist() == [3, 0], r
""")
mkseed("C21-zarr-buffer", "C21", [(OB, "            sl_in = slice(i, min(i + buffer_size, i_stop))\n", "            sl_in = slice(i, i + buffer_size)\n"), (OB, "            handler_eddies[sl_out] = data\n", "            handler_eddies[sl_out] = data[: handler_eddies[sl_out].shape[0]]\n") ][:1],
 "a part of a zarr file, smaller than the buffer and away from the end", "reading fails or takes rows after the part", TRK + """
import tempfile, os, zarr
d = tempfile.mkdtemp()
try:
    t = table([1] * 10, lon=np.arange(10))
    h = zarr.open(os.path.join(d, "a.zarr"), "w")
    t.to_zarr(h)
    r = TrackEddiesObservations.load_file(os.path.join(d, "a.zarr"), indexs=dict(obs=slice(2, 9)), buffer_size=3)
    assert np.allclose(r.lon, np.arange(2, 9)), r.lon
    r = TrackEddiesObservations.load_file(os.path.join(d, "a.zarr"), indexs=dict(obs=slice(2, 6)), buffer_size=3)
    assert np.allclose(r.lon, np.arange(2, 6)), r.lon
finally:
    import shutil
    shutil.rmtree(d)
""")
mkseed("C20-box-group", "C20", [(OB, "        if i_ != i0 or j_ != j0:\n", "        if i_ != i0:\n")],
 "observations of two boxes of the same column only, in consecutive rows", "they are put together in one box", TRK + """
t = table([1, 1, 1], lon=[0.5, 0.5, 0.5], lat=[0.5, 1.5, 1.6], amplitude=[1, 5, 5])
g = t.grid_box_stat(((0, 4, 1), (0, 4, 1)), "amplitude", 50)
v = g.vars["amplitude"]
assert not v.mask[0, 0] and not v.mask[0, 1] and v[0, 0] == 1 and v[0, 1] == 5, v
""")
mkseed("C20-contour-turn", "C20", [(OB, "            x_ref = ((self.longitude - x0) % 360 + x0 - 180).reshape(-1, 1)\n", "            x_ref = (self.longitude % 360 - 180).reshape(-1, 1)\n")],
 "a regional grid whose longitudes are negative", "contours are not on the grid", TRK + """
from py_eddy_tracker.dataset.grid import RegularGridDataset
t = TrackEddiesObservations(size=1, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e"])
t.lon[:], t.lat[:] = 357, 2
t.contour_lon_e[:] = [355.5, 358.5, 358.5, 355.5, 355.5]
t.contour_lat_e[:] = [.5, .5, 3.5, 3.5, .5]
x, y = np.arange(-10, 1.), np.arange(0, 6.)
z = np.ma.array(x[:, None] + 0 * y[None], mask=np.zeros((11, 6), bool))
g = RegularGridDataset.with_array(coordinates=("x", "y"), datas=dict(z=z, x=x, y=y), centered=True)
m = t.interp_grid(g, "z", method="max", intern=False)
assert m[0] == -2, m
""")
mkseed("C37-inside-nan", "C37", [(OB, "        m = ~(isnan(x) + isnan(y))\n        i = -ones", "        m = ~isnan(x)\n        i = -ones")],
 "a position with a longitude and no latitude", "the position is found in a contour or the contours are not searched well", TRK + """
t = TrackEddiesObservations(size=2, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e"])
for k in range(2):
    t.contour_lon_e[k] = np.array([0, 2, 2, 0, 0]) + 10 * k
    t.contour_lat_e[k] = [0, 0, 2, 2, 0]
x, y = np.array([1., 11., 1.]), np.array([np.nan, 1., 1.])
r = t.contains(x, y, intern=False)
assert r.tolist() == [-1, 1, 0], r
x, y = np.array([1., 11.]), np.array([np.nan, 80.])
assert t.contains(x, y, intern=False).tolist() == [-1, -1]
""")
mkseed("C39-east-turn", "C39", [(OB, "                d_lon = (other.lon[index_other] - lon_self + 180) % 360 - 180\n", "                d_lon = (other.lon[index_other] - lon_self) % 360 - 180\n")],
 "an observation between the two circles, with the option to keep only eastward moves", "westward moves are kept and eastward ones rejected", TRK + """
a, b = table([1], lon=[10], lat=[0]), table([1, 1], lon=[10.6, 9.4], lat=[0, 0])
m = a.fixed_ellipsoid_mask(b, minor=50, major=100, only_east=True)
assert m.tolist() == [[True, False]], m
""")
mkseed("C39-propagate-second", "C39", [(OB, "            next_obs[\"lon\"][nb_dead:] = obs_to_extend[\"lon\"] + obs_to_extend[\"dlon\"]\n", "            next_obs[\"lon\"][nb_dead:] = obs_to_extend[\"lon\"] + obs_to_extend[\"dlon\"] * (obs_to_extend[\"segment_size\"] < 2)\n")],
 "a track lost at three dates in a row", "the expected position stops", """
import numpy as np
from py_eddy_tracker.observations.observation import EddiesObservations, VirtualEddiesObservations
t = EddiesObservations(size=1)
v = VirtualEddiesObservations(size=1)
for f in v.obs.dtype.names:
    v.obs[f][:] = 0
v.lon[:], v.obs["dlon"][:], v.obs["segment_size"][:] = 10, 1, 2
e = t.new_like(t, 0)
r = t.propagate(e, e, v, np.zeros(0, "u4"), 1, t)
assert r.lon[0] == 11 and r.obs["segment_size"][0] == 3, r.lon
""")
mkseed("C13-first-pass", "C13", [(OB, "                cost_reduce.mask[i] = True\n                cost_reduce.mask[:, j] = True\n", "                cost_reduce.mask[i] = True\n                cost_reduce.mask[: i + 1, j] = True\n")],
 "a conflict where the best link uses an observation wanted by a following row", "two observations are linked to the same one", TRK + """
c = np.ma.array([[1., 9.], [2., 3.]], mask=[[0, 1], [0, 0]])
m = TrackEddiesObservations.solve_simultaneous(c.copy())
assert m.tolist() == [[True, False], [False, True]], m
c = np.ma.array([[1., 9.], [2., 3.]], mask=[[0, 1], [0, 1]])
m = TrackEddiesObservations.solve_simultaneous(c.copy())
assert m.tolist() == [[True, False], [False, False]], m
""")
