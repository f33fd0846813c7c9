import sys
from mkseed import mkseed as _mk

ONLY = set(sys.argv[1:])
GRID = "dataset/grid.py"
NET = "observations/network.py"
OBS = "observations/observation.py"
TRK = "observations/tracking.py"


def mkseed(id, *args):
    if not ONLY or id in ONLY:
        _mk(id, *args)


G = """
import logging
import numpy as np
from py_eddy_tracker.dataset.grid import RegularGridDataset
logging.disable(50)

def grid(x, y, **f):
    return RegularGridDataset.with_array(("x", "y"), dict({k: np.ma.array(v, mask=np.zeros(v.shape, bool)) for k, v in f.items()}, x=np.asarray(x, float), y=np.asarray(y, float)),
                                         variables_description={k: dict(units="m") for k in f})

"""
mkseed("C45-equal-area-mean", "C45", [(GRID, '''    # last coordinates == first
    lon0, lat0 = lons[1:].mean(), lats[1:].mean()
    c_x, c_y = coordinates_to_local(lons, lats, lon0, lat0)
    # Sometimes, edge''', '''    # last coordinates == first
    lon0, lat0 = lons[:-1].mean(), lats.mean()
    c_x, c_y = coordinates_to_local(lons, lats, lon0, lat0)
    # Sometimes, edge''')], "a contour with few vertices, circle of equal area", "the first vertex is counted twice in the latitude of the center", """
import numpy as np
from py_eddy_tracker.dataset.grid import _circle_from_equal_area as f
v = np.array([[0, 30], [1, 30], [1, 31], [0, 31], [0, 30.]])
a = f(v)
assert abs(a[1] - 30.5) < 1e-9, a
b = f(np.concatenate((v[2:], v[1:3])))
assert abs(b[1] - 30.5) < 1e-9, b
""")
O_ = """
import numpy as np
from py_eddy_tracker.observations.observation import EddiesObservations
o = EddiesObservations(size=3, track_array_variables=3, array_variables=["contour_lon_e", "contour_lat_e"], track_extra_variables=["height_max_speed_contour"])
o.lon[:], o.lat[:] = [10, 350, -20], [1, 2, 3]
o["height_max_speed_contour"][:] = [1, 2, 5]
"""
mkseed("C46-color-limits", "C46", [(OBS, "        colors = cmap((c - cmin) / (cmax - cmin))", "        colors = cmap((c - c.min()) / (cmax - cmin))")],
 "contours colored with a lower limit which is not the lowest value", "colors do not agree with the color bar", O_ + """
from py_eddy_tracker.observations import observation as M
got = []
M.get_cmap = lambda *a: (lambda v: got.append(np.asarray(v)) or "k")
class Ax:
    def add_collection(self, c):
        pass
o.display_color(Ax(), "height_max_speed_contour", vmin=0, vmax=10)
assert np.allclose(got[0], [.1, .2, .5]), got
""")
mkseed("C46-scatter-reference", "C46", [(OBS, '''        x = self.longitude
        if ref is not None:
            x = (x - ref) % 360 + ref
        kwargs = kwargs.copy()''', '''        x = self.longitude
        if ref is not None:
            x = x % 360 + ref
        kwargs = kwargs.copy()''')], "a reference which is not a multiple of 360", "eddies are drawn elsewhere", O_ + """
class Ax:
    def scatter(self, x, y, **kw):
        self.x = np.asarray(x)
a = Ax()
o.scatter(a, ref=-180)
assert np.allclose(a.x, [10, -10, -20]), a.x
""")
mkseed("C46-split-symbol", "C46", [(NET, '''                ax.plot(x0, y0, marker="*", **symbol_kw_split)[0]

            j += 1
        return mappables''', '''                ax.plot(x1, y1, marker="*", **symbol_kw_split)[0]

            j += 1
        return mappables''')], "a map of a network with a splitting event", "the symbol is on the parent segment", """
import numpy as np
from py_eddy_tracker.observations.network import NetworkObservations
n = NetworkObservations(size=5)
n.sign_type = 1
n.track[:], n.segment[:], n.time[:] = 1, [1, 1, 1, 2, 2], [1, 2, 3, 2, 3]
n.previous_obs[:], n.next_obs[:] = [-1, 0, 1, 0, 3], [1, 2, -1, 4, -1]
n.lon[:], n.lat[:] = [0, 1, 2, 11, 12], [0, 1, 2, 11, 12]
class Ax:
    l = []
    def plot(self, x, y, **kw):
        if "marker" in kw:
            self.l.append((kw["marker"], float(x), float(y)))
        return [None]
a = Ax()
n.event_map(a)
assert a.l == [("*", 11., 11.)], a.l
""")
mkseed("C47-common-range", "C47", [(GRID, "                f_max = min(f_max, f.max())", "                f_max = max(f_max, f.max())")],
 "rows far from the first one", "rows near the equator bring zeros in the shortest wavelengths", G + """
x, y = np.arange(0, 20, .25), np.arange(50, 70, .25)
rng = np.random.default_rng(1)
g = grid(x, y, h=rng.normal(size=(80, 80)))
lon, lat = g.spectrum_lonlat("h", area=dict(llcrnrlon=0, urcrnrlon=19.75, llcrnrlat=50, urcrnrlat=69.75), nperseg=32)
assert lon[1][-3:].mean() > .5 * lon[1][6:10].mean(), lon[1]
assert abs(lon[0][-1] / (2 * .25 * 111.19 * np.cos(np.radians(50))) - 1) < .02, lon[0][-1]
""")
mkseed("C48-other-segment", "C48", [(NET, "    while abs(last_t - t[i]) < window and i != -1 and segment_follow == segment[i]:", "    while abs(last_t - t[i]) < window and i != -1 and segment_follow != -1:")],
 "an event whose segment merges in another one during the window", "the other segment is used in the statistic", """
import numpy as np
from py_eddy_tracker.observations.network import get_percentile_around_event as f
ind = np.array([[3, -1], [3, -1], [3, -1], [-1, -1]], "i4")
pct = np.array([[10, 0], [90, 0], [80, 0], [0, 0]], "f4")
t, seg, fol = np.array([1, 2, 3, 0]), np.array([1, 2, 2, 3]), np.array([1, 2, -1, -1])
a, b = f(np.array([3]), np.array([0]), np.array([0]), ind, pct, fol, t, seg, window=10)
assert a[0] == b[0] == 10, (a, b)
""")
mkseed("C48-equator", "C48", [(TRK, "            south = lat0 < 0\n", "            south = lat1 < 0\n")], "a track which crosses the equator", "sign of the azimuth of the other hemisphere", """
import numpy as np
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
o = TrackEddiesObservations(size=2)
o.track[:], o.lon[:], o.lat[:] = 1, [20, 19], [2, -1]
a = o.get_azimuth(equatorward=True)
assert a[0] < 0, a
""")
mkseed("C49-folder-order", "C49", [("appli/eddies.py", '''    dataset_list.sort(order=["date", "filename"])''', '''    dataset_list.sort(order=["filename", "date"])''')],
 "files in several folders whose names are not in the order of dates", "the series is refused or tracked in another order", """
from py_eddy_tracker.appli.eddies import browse_dataset_in
r = browse_dataset_in(None, None, ".*_([0-9]*?).[nz].*", files=["z/f_20200101.nc", "a/f_20200102.nc", "a/f_20200103.nc"])
assert [f.decode() for f in r["filename"]] == ["z/f_20200101.nc", "a/f_20200102.nc", "a/f_20200103.nc"], r
""")
mkseed("C49-subsampling-start", "C49", [("appli/eddies.py", "        dataset_list = dataset_list[::sub_sampling_step]", "        dataset_list = dataset_list[sub_sampling_step - 1 :: sub_sampling_step]")],
 "subsampling of files", "the first file is skipped", """
from py_eddy_tracker.appli.eddies import browse_dataset_in
r = browse_dataset_in(None, None, ".*_([0-9]*?).[nz].*", sub_sampling_step=2, files=["d/f_2020010%d.nc" % k for k in range(1, 6)])
assert [int(f[-4:-3]) for f in r["filename"]] == [1, 3, 5], r
""")
