import sys
from mkseed import mkseed as _mk

ONLY = set(sys.argv[1:])


def mkseed(id, *args):
    if not ONLY or id in ONLY:
        _mk(id, *args)


mkseed("C02-gap-centers", "C02", [("generic.py", "        while j_min < nb_pt and x_ > x_min:\n", "        if j_min < nb_pt and x_ > x_min:\n")],
 "several windows which start between two consecutive values (gap in the data)", "values of a window which follows a gap are not found",
"""
import numpy as np
from py_eddy_tracker.generic import window_index
x = np.array([0., 5.8, 6.])
o, a, b = window_index(x, np.array([0., 2., 3., 5.5]), 0.5)
got = [sorted(float(x[o[k]]) for k in range(a[j], b[j])) for j in range(4)]
assert got == [[0.0], [], [], [5.8, 6.0]], got
""")
mkseed("C03-cut-over-gap", "C03", [("generic.py", "            x_previous, new_x_previous = x_, new_x\n", "            if not isnan(x_):\n                x_previous, new_x_previous = x_, new_x\n")],
 "two lines separated by a gap on both sides of the bound", "a cut is added between two lines which were already separated: extra points are drawn",
"""
import numpy as np
from py_eddy_tracker.generic import wrap_longitude
x = np.array([1., 2., np.nan, -2., -1.])
y = np.arange(5.)
ox, oy = wrap_longitude(x, y, 0., cut=True)
assert len(ox) == 5 and np.allclose(ox, [1, 2, np.nan, 358, 359], equal_nan=True), ox
""")
mkseed("C04-cell-cache", "C04", [("generic.py", "            # Need to be stored only on change\n            i0_old, j0_old = i0, j0\n        if masked:\n            z[i] = nan\n        else:\n            xd = x_ - i0_\n            yd = y_ - j0\n",
"            # Need to be stored only on change\n            if not masked:\n                i0_old, j0_old = i0, j0\n        if masked:\n            z[i] = nan\n        else:\n            xd = x_ - i0_\n            yd = y_ - j0\n")],
 "a sequence of positions which comes back in the same cell after a masked one", "a valid position gives no value after a masked one",
"""
import numpy as np
from py_eddy_tracker.generic import interp2d_bilinear
x = np.arange(5.); y = np.arange(4.)
z = x[:, None] + 10 * y
m = np.zeros(z.shape, dtype=bool); m[4] = True
r = interp2d_bilinear(x, y, z, m, np.array([.5, 3.5, .5]), np.array([.5, .5, .5]))
assert np.allclose(r, [5.5, np.nan, 5.5], equal_nan=True), r
""")
mkseed("C06-last-vertex", "C06", [("poly.py", "    for i_elt in prange(nb_elt):\n        wn = winding_number_poly(x[i_elt], xy_poly_in[i_elt, 1], xy_poly_out)\n", "    for i_elt in prange(1, nb_elt):\n        wn = winding_number_poly(x[i_elt], xy_poly_in[i_elt, 1], xy_poly_out)\n")],
 "an inner contour whose first vertex is not repeated and is the only one outside", "a contour with a vertex outside is reported as contained",
"""
import numpy as np
from py_eddy_tracker.poly import poly_contain_poly
out = np.array([[0., 0.], [4., 0.], [4., 4.], [0., 4.]])
inn = np.array([[5., 2.], [2., 3.], [1., 1.]])
assert not poly_contain_poly(out, inn)
assert poly_contain_poly(out, np.array([[3., 2.], [2., 3.], [1., 1.]]))
""")
mkseed("C09-last-turn", "C09", [("poly.py", "    for i in range(2, nb):\n        # shift position", "    for i in range(2, nb - 1):\n        # shift position")],
 "a contour whose only wrong turn is at its last vertex", "a concave contour is reported convex",
"""
import numpy as np
from py_eddy_tracker.poly import convex
x = np.array([0., 4., 4., 2.]); y = np.array([0., 0., 4., 1.])
for k in range(4):
    xx, yy = np.roll(x, k), np.roll(y, k)
    xx, yy = np.append(xx, xx[0]), np.append(yy, yy[0])
    assert not convex(xx, yy), k
assert convex(np.array([0., 4., 4., 0., 0.]), np.array([0., 0., 4., 4., 0.]))
""")
mkseed("C10-padding", "C10", [("poly.py", "        if x[i] != x0 or y[i] != y0:\n            i += 1\n", "        if x[i] != x0:\n            i += 1\n")],
 "a contour whose last distinct vertices are due north or south of the first one", "vertices on the meridian of the first one are dropped as padding",
"""
import numpy as np
from py_eddy_tracker.poly import reduce_size
x = np.array([1., 3., 3., 2., 1., 1., 1.]); y = np.array([0., 0., 2., 3., 2., 0., 0.])
a, b = reduce_size(x, y)
assert 2.0 in b[np.asarray(a) == 1.], (a, b)
""")
mkseed("C12-split-decreasing", "C12", [("generic.py", "    nb_jump = len(where(i[1:] - i[:-1] != 0)[0])", "    nb_jump = len(where(i[1:] > i[:-1])[0])"), ("generic.py", "        if j < (nb_value - 1) and i[j] != i[j + 1]:", "        if j < (nb_value - 1) and i[j] < i[j + 1]:")],
 "line numbers which decrease", "two lines are joined when the number of the second is lower",
"""
import numpy as np
from py_eddy_tracker.generic import split_line
x, y = split_line(np.array([1., 2., 3.]), np.array([1., 2., 3.]), np.array([2, 1, 1]))
assert np.allclose(x, [1, np.nan, 2, 3], equal_nan=True), x
""")
mkseed("C12-simplify-west", "C12", [("generic.py", "        d2 = d_x**2 + d_y**2\n        if d2 > precision2:\n            x_previous, y_previous = x_, y_\n            continue\n", "        d2 = d_x**2 + d_y**2\n        if d2 > precision2 and (d_x != 0 or d_y > 0):\n            x_previous, y_previous = x_, y_\n            continue\n")],
 "a line that goes due south", "points of a line going due south are dropped although they are far from each other",
"""
import numpy as np
from py_eddy_tracker.generic import simplify
x, y = simplify(np.array([1., 1., 1., 2.]), np.array([5., 3., 1., 1.]), precision=0.5)
assert len(x) == 4, (x, y)
""")
mkseed("C16-join-twice", "C16", [("tracking.py", "        # We set new id available\n        self.current_id += id_new.shape[0]\n", "        # We set new id available\n        if id_new.shape[0]:\n            self.current_id = max(self.current_id, int(self[-1]['id'].max()) + 1) if len(self[-1]) else self.current_id + id_new.shape[0]\n")],
 "a second join after the last born tracks stopped before the last dates", "identifiers are given again after a join, or the number of tracks is wrong",
"""
import numpy as np
from py_eddy_tracker.tracking import Correspondances
dt = [("in", "u2"), ("out", "u2"), ("id", "u4"), ("cost_value", "f4")]
def make(datasets, steps):
    c = Correspondances(list(datasets))
    n = 0
    for s in steps:
        a = np.zeros(len(s), dtype=dt)
        for k, (i, o, d) in enumerate(s):
            a[k] = i, o, d, 0
            n = max(n, d + 1)
        c.append(a)
    c.current_id = n
    return c
a = make("abc", [[(0, 0, 0), (1, 1, 1)], [(0, 0, 0)]])
b = make("bcde", [[(0, 0, 0)], [(0, 0, 0), (3, 3, 1)], [(0, 0, 0)]])
a.merge_correspondance(b)
assert a.current_id == 3, a.current_id
a.prepare_merging()
assert list(a.nb_obs_by_tracks) == [5, 2, 2], a.nb_obs_by_tracks
""")
mkseed("C14-prolong-once-more", "C14", [("tracking.py", '                self.virtual_obs["segment_size"][i_virtual_dead_id] < self.nb_virtual\n', '                self.virtual_obs["segment_size"][i_virtual_dead_id]\n                < max(self.nb_virtual, 2)\n')],
 "a tracking with a single prolongation allowed", "tracks lost for two dates are continued although one was allowed",
"""
import os, tempfile
import numpy as np
from netCDF4 import Dataset
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.tracking import Correspondances
from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker

def square(x, y, r=1.):
    n = 20
    t = np.linspace(0, 2 * np.pi, n)
    return x + r * np.cos(t), y + r * np.sin(t)

def obs(t, pos):
    e = EddiesObservations(size=len(pos), track_extra_variables=[], array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], track_array_variables=20)
    e.sign_type = 1
    for f in e.obs.dtype.names:
        e.obs[f][:] = 1
    e.obs["time"][:] = t
    for k, (x, y) in enumerate(pos):
        e.obs["lon"][k], e.obs["lat"][k] = x, y
        for s in "es":
            cx, cy = square(x, y)
            e.obs["contour_lon_" + s][k], e.obs["contour_lat_" + s][k] = cx, cy
    return e

with tempfile.TemporaryDirectory() as d:
    names = []
    # the first eddy is not observed on dates 2 and 3
    for t in range(6):
        pos = [(10., 10.)] if t not in (2, 3) else []
        pos = pos + [(40., 10.)]
        n = os.path.join(d, "a%d.nc" % t)
        with Dataset(n, "w") as h:
            obs(t, pos).to_netcdf(h)
        names.append(n)
    c = Correspondances(names, virtual=1, class_method=AreaTracker)
    c.track()
    c.prepare_merging()
    assert sorted(int(i) for i in c.nb_obs_by_tracks) == [2, 2, 6], c.nb_obs_by_tracks
""")
mkseed("C15-unused-second", "C15", [("tracking.py", "            if has_virtual and not last_dataset:\n                m_in = ~self[i][\"virtual\"]\n", "            if has_virtual and not last_dataset:\n                m_in = (~self[i][\"virtual\"]).cumprod().astype(bool)\n")],
 "a link from a prolonged observation stored before links of observed ones", "observations which start a track are reported as untracked",
"""
import numpy as np
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.tracking import Correspondances
def obs(t, n):
    e = EddiesObservations(size=n)
    e.sign_type = 1
    for f in e.obs.dtype.names:
        e.obs[f][:] = 0
    e.obs["time"][:] = t
    e.obs["lon"][:] = np.arange(n)
    return e
data = {"a": obs(0, 2), "b": obs(1, 3), "c": obs(2, 3)}
class M:
    @staticmethod
    def load_file(f, raw_data=False, **kw):
        return data[f]
c = Correspondances(["a", "b", "c"], virtual=2, class_method=M)
dt = [("in", "u2"), ("out", "u2"), ("id", "u4"), ("cost_value", "f4"), ("virtual", "?"), ("virtual_length", "u1")]
c.append(np.array([(0, 0, 0, 0, False, 255), (1, 1, 1, 0, False, 255)], dtype=dt))
c.append(np.array([(3, 0, 0, 0, True, 1), (1, 1, 1, 0, False, 255), (2, 2, 2, 0, False, 255)], dtype=dt))
c.current_id = 3
u = c.get_unused_data()
assert len(u) == 0, (u.time, u.lon)
""")
mkseed("C31-group-merge", "C31", [("eddy_feature.py", "                        gr[gr == gr[i0]] = gr[i1]\n", "                        gr[i0] = gr[i1]\n")],
 "three or more equal neighbouring extrema met as two groups joined later", "a single flat extremum is counted twice, so the contour is rejected",
"""
import numpy as np
from py_eddy_tracker.eddy_feature import detect_local_minima_
# a flat area shaped so that two groups are joined by a later pixel
shape = [(1, 1), (2, 1), (1, 3), (2, 3), (3, 1), (3, 2), (3, 3)]
import itertools
for sub in [shape, [(1, 2), (2, 2), (2, 1), (1, 4), (2, 4), (2, 3)], [(1, 1), (2, 1), (1, 3), (2, 3), (2, 2)], [(1,3),(2,3),(3,3),(3,2),(3,1),(2,1),(1,1)]]:
    g = np.ones((6, 7))
    for i, j in sub:
        g[i, j] = 0
    m = np.zeros(g.shape, dtype=bool)
    xs, ys = detect_local_minima_(g, m, ~m, 1, 1)
    assert sum(1 for i, j in zip(xs, ys) if g[i, j] == 0) == 1, (sub, xs, ys)
""")
mkseed("C32-pop-order", "C32", [("eddy_feature.py", "                for i in polys_to_pop_left[::-1]:\n", "                for i in sorted(set(polys_to_pop_left[1:]) | set(polys_to_pop_left[:1])):\n")],
 "two eddies or more cut by the edge of the grid on one level", "an eddy joined over the edge is duplicated as an unclosed line and a line is lost",
"""
import numpy as np
from py_eddy_tracker.eddy_feature import Contours
x = np.arange(0., 360., 1.); y = np.arange(-30., 31., 1.)
X, Y = np.meshgrid(x, y, indexing="ij")
dx = (X + 180) % 360 - 180
z = np.ma.array(sum(a * np.exp(-(dx ** 2 + (Y - c) ** 2) / 20.) for a, c in ((1, -20), (1.1, 0), (1.2, 20))))
# an eddy which is not closed by one other piece: three pieces on the left
c = Contours(x, y, z, levels=[0.3, 0.6], wrap_x=True)
n = [len(i.get_paths()) for i in c.iter()]
assert n == [3, 3], n
""")
mkseed("C32-repeat-level", "C32", [("eddy_feature.py", "    i_end_c = i_start_c + nb_c_per_l[level_index]\n", "    i_end_c = l_i[level_index + 1] if level_index + 1 < l_i.shape[0] else i_start_c + 1\n")],
 "the last level holds several contours", "on the last level only the first contour is found",
"""
import numpy as np
from py_eddy_tracker.eddy_feature import Contours
x = np.arange(0., 60., 1.); y = np.arange(-20., 21., 1.)
X, Y = np.meshgrid(x, y, indexing="ij")
z = np.ma.array(sum(np.exp(-((X - a) ** 2 + Y ** 2) / 20.) for a in (15, 45)))
c = Contours(x, y, z, levels=[0.3, 0.6])
for a in (15, 45):
    for l in (0, 1):
        p = c.get_index_nearest_path_bbox_contain_pt(l, a, 0)
        assert p is not None and abs(p.vertices[:, 0].mean() - a) < 5, (a, l)
""")
mkseed("C34-second-target", "C34", [("observations/groups.py", "            elif pct_ > pct[i, 1]:\n                pct[i, 1] = pct_\n                i_target[i, 1] = j\n", "            elif pct_ > pct[i, 1] and i_target[i, 1] == -1:\n                pct[i, 1] = pct_\n                i_target[i, 1] = j\n")],
 "three targets where the second one by number of particles comes last", "the second target is not the second by number of particles",
"""
import numpy as np
from py_eddy_tracker.observations.groups import get_targets
i0 = np.zeros(10, dtype="i4"); i1 = np.array([0] * 5 + [1] + [2] * 3 + [-1], dtype="i4")
t, p = np.full((1, 2), -1, dtype="i4"), np.zeros((1, 2))
get_targets(i0, i1, t, p, 3)
assert t.tolist() == [[0, 2]] and np.allclose(p, [[50, 30]]), (t, p)
""")
mkseed("C17-missing-gap-track", "C17", [("observations/groups.py", "        if flag_untrack & (tr1 == indice_untrack):\n            continue\n", "        if flag_untrack & (tr1 == indice_untrack):\n            tr1 = tr0\n            continue\n")],
 "untracked observations between two observations of one track number", "observations are reported missing between a tracked observation and an untracked one's follower",
"""
import numpy as np
from py_eddy_tracker.observations.groups import get_missing_indices
r = get_missing_indices(np.array([1, 2, 3, 8, 10]), np.array([1, 1, 0, 1, 1]), dt=1)
assert r.tolist() == [4], r
""")
