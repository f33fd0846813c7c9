import sys
from mkseed import mkseed as _mk

ONLY = set(sys.argv[1:])
GRID = "dataset/grid.py"
NET = "observations/network.py"


def mkseed(id, *args):
    if not ONLY or id in ONLY:
        _mk(id, *args)


G = """
import logging
import numpy as np
from py_eddy_tracker.dataset.grid import RegularGridDataset, GridCollection
logging.disable(50)

def grid(x, y, **f):
    return RegularGridDataset.with_array(("x", "y"), dict({k: np.ma.array(v, mask=np.zeros(v.shape, bool)) for k, v in f.items()}, x=np.asarray(x, float), y=np.asarray(y, float)),
                                         variables_description={k: dict(units="m") for k in f})

"""
mkseed("C05-last-slope-row", "C05", [(GRID, '''            x3, y3 = x_ + u3, y_ + v3
            ii_, jj_, xd, yd = get_grid_indices(
                x_ref, y_ref, x_step, y_step, x3, y3, nb_x
            )
            if ii_ != i_cache or jj_ != j_cache:
                i_cache, j_cache = ii_, jj_
                if not is_circular and (ii_ < 0 or ii_ > nb_x_):
                    masked = True
''', '''            x3, y3 = x_ + u3, y_ + v3
            ii_, jj_, xd, yd = get_grid_indices(
                x_ref, y_ref, x_step, y_step, x3, y3, nb_x
            )
            if ii_ != i_cache:
                i_cache, j_cache = ii_, jj_
                if not is_circular and (ii_ < 0 or ii_ > nb_x_):
                    masked = True
''')], "a particle which leaves its row of cells only in the last slope of a step", "currents of the previous row are used for the last slope", G + """
x, y = np.arange(0, 5, .5), np.arange(0, 5, .5)
g = grid(x, y)
n = 10
u = np.ma.zeros((n, n)); u.mask = np.zeros((n, n), bool)
v = u.copy()
k = 600 * 180 / np.pi / g.EARTH_RADIUS
v[:, :] = .25 / k
v[:, 3:] = 1.25 / k  # stronger in the north
px, py = np.array([1.25]), np.array([.8])
f = lambda p: .25 if p <= 1 else .25 + 2 * (p - 1) if p < 1.5 else 1.25
p = .8
k1 = f(p); k2 = f(p + k1 / 2); k3 = f(p + k2 / 2); k4 = f(p + k3)
next(g.advect(px, py, u, v, nb_step=1, rk4=True))
assert abs(py[0] - (p + (k1 + 2 * k2 + 2 * k3 + k4) / 6)) < 1e-6, (py, p + (k1 + 2 * k2 + 2 * k3 + k4) / 6)
""")
mkseed("C33-last-slope-date", "C33", [(GRID, "            w_ -= half_w\n", "            w_ = w - half_w\n")],
 "currents which change in time, with the fourth order", "the last slope of a step is taken at its middle", G + """
x, y = np.arange(0, 5, .5), np.arange(0, 5, .5)
c = GridCollection()
RegularGridDataset.populate = lambda self: True
for t in range(3):
    z = np.zeros((10, 10))
    c.datasets.append((t, grid(x, y, u=z + t * .01, v=z)))
px, py = np.array([2.]), np.array([0.5])
t, a, b = next(c.advect(px, py, 0, u_name="u", v_name="v", nb_step=1, time_step=86400, rk4=True))
e = 2 + .005 * 86400 * 180 / np.pi / 6370997. / np.cos(np.radians(.5))
assert abs(a[0] - e) < 1e-5, (a, e)
""")
mkseed("C29-west-gap", "C29", [(GRID, "            if m2 or m_2 or stencil_halfwidth == 1:\n", "            if m2 or stencil_halfwidth == 1:\n")],
 "a missing node two nodes before, none after", "the missing value is used in the gradient", """
import numpy as np
from py_eddy_tracker.dataset.grid import compute_stencil
n = 12
x, y = np.arange(n) * 1., np.arange(6) * 1. + 1
h = np.repeat(np.arange(n)[:, None] * 2., 6, axis=1)
m = np.zeros(h.shape, bool)
m[3, 2] = True
h[3, 2] = 1e5
g, gm = compute_stencil(x, y, h, m, 6370997., False, 4)
e = g[5, 1] * np.cos(np.radians(y[1])) / np.cos(np.radians(y[2]))
assert not gm[5, 2] and abs(g[5, 2] / e - 1) < 1e-9, (g[5, 2], e)
""")
mkseed("C30-east-wrap", "C30", [(GRID, "    d_x = (d_x + nb_x // 2) % nb_x - (nb_x // 2)\n", "    d_x = where(d_x > nb_x // 2, d_x - nb_x, d_x)\n")],
 "a path towards the east over the edge of a grid around the globe", "the path goes around the globe", G + """
x, y = np.arange(0, 360, 10.), np.arange(-20, 30, 10.)
g = grid(x, y)
for a, b in ((350, 370), (350., 10.), (10., 350.), (350., 330.)):
    i, j, d = g.compute_pixel_path(np.array([a]), np.array([0.]), np.array([b]), np.array([0.]))
    assert len(i) == 3 and d[0] == 2, (a, b, i)
""")
mkseed("C35-lanczos-order", "C35", [(GRID, '''        kernel = sinc(dist_norm / order) * sinc(dist_norm)
        kernel[dist_norm > order] = 0
''', '''        kernel = sinc(dist_norm / order) * sinc(dist_norm)
        kernel[dist_norm > 1] = 0
''')], "an order of 2 or more", "the negative part of the kernel is lost", G + """
x, y = np.arange(0, 40, .5), np.arange(-20, 20, .5)
g = grid(x, y)
k = g.kernel_lanczos(0, 300, 2)
assert (k < 0).any() and k.shape[0] > 15, (k.shape, k.min())
k = g.kernel_lanczos(0, 300, 1)
assert (k > -1e-9).all()
""")
mkseed("C36-low-limit", "C36", [(GRID, "                        corrected_coll_index,\n                        pixel_min=pixel_limit[0],\n", "                        corrected_coll_index,\n")],
 "a lower limit of pixels which is not the default of the speed search (3)", "the fastest contour may hold fewer pixels than the limit, or those of small eddies are not looked for", G + """
import datetime
x, y = np.arange(0, 12, .5), np.arange(30, 42, .5)
X, Y = np.meshgrid(x, y, indexing="ij")
r2 = (X - 6.1) ** 2 + (Y - 36.1) ** 2
h = .5 * np.exp(-r2 / 6)
g = grid(x, y, h=h)
g.add_uv("h")
a, c = g.eddy_identification("h", "u", "v", datetime.datetime(2020, 1, 1), step=.02, shape_error=70, pixel_limit=(75, 500))
assert len(c) + len(a) == 1
g = grid(x, y, h=h); g.add_uv("h")
b, _ = g.eddy_identification("h", "u", "v", datetime.datetime(2020, 1, 1), step=.02, shape_error=70, pixel_limit=(3, 500))
a, b = (a, b) if len(a) else (c, _)
assert a.radius_s[0] > 1.1 * b.radius_s[0], (a.radius_s, b.radius_s)
""")
mkseed("C38-last-bound", "C38", [(GRID, "        bounds[-1] -= d[-1] / 2\n", "        bounds[-1] -= d[0] / 2\n")],
 "a step which changes along the axis", "the last bound is not half a step after the last node", """
import numpy as np
from py_eddy_tracker.dataset.grid import GridDataset
b = GridDataset.c_to_bounds(np.array([0., 1., 3., 7.]))
assert np.allclose(b, [-.5, 0, 1, 5, 9]) or abs(b[-1] - 9) < 1e-9, b
""")
mkseed("C40-wrap-last", "C40", [(GRID, "                data2[:schema] = data[-schema:]\n", "                data2[:schema] = data[-1:]\n")],
 "a grid around the globe and a difference over several nodes", "the first differences use a wrong node over the edge", G + """
x, y = np.arange(0, 360, 10.), np.arange(1, 40, 10.)
g = grid(x, y)
h = np.ma.array(np.repeat(np.arange(36)[:, None] ** 2. % 17, 4, axis=1), mask=np.zeros((36, 4), bool))
d = g.compute_finite_difference(h, schema=3, mode="wrap")
k = g.EARTH_RADIUS * 2 * np.pi / 360 * 10 * np.cos(np.radians(y)) * 6
for i in range(36):
    assert np.allclose(d[i], (h[(i + 3) % 36] - h[i - 3]) / k), i
""")
mkseed("C42-empty-part", "C42", [(NET, "        for i, _, _ in self.iter_on(self.segment_track_array):\n            res = method(y[i])\n", "        for i, _, _ in self.iter_on(\"segment\"):\n            res = method(y[i])\n")],
 "two networks with the same number of segment", "values of several networks are mixed", """
import numpy as np
from py_eddy_tracker.observations.network import NetworkObservations
n = NetworkObservations(size=4)
n.track[:] = [1, 1, 2, 2]
n.segment[:] = 1
n.time[:] = [0, 1, 0, 1]
r = n.mean_by_segment(np.array([1., 3., 10., 20.]))
assert r.tolist() == [2, 2, 15, 15], r
""")
mkseed("C43-group-limit", "C43", [("appli/eddies.py", "        m_ = (bincount(j2_)[j2_] == 2) * (bincount(j2)[j2_] == 2)\n", "        m_ = bincount(j2_)[j2_] == 2\n")],
 "an eddy with three partners, one of which has another partner", "it is classed as split in two", """
import numpy as np
from py_eddy_tracker.appli.eddies import get_group
a, b = get_group([0] * 2, [0] * 3, np.array([0, 0, 0, 1]), np.array([0, 1, 2, 2]), np.array([.5, .5, .5, .5]))
assert a["parent"].tolist() == [] and b["twin"].tolist() == [], (a, b)
a, b = get_group([0], [0] * 2, np.array([0, 0]), np.array([0, 1]), np.array([.5, .5]))
assert a["parent"].tolist() == [0] and b["twin"].tolist() == [0, 1]
""")
mkseed("C43-identify-filter", "C43", [("appli/grid.py", "    if cut_highwavelength != 0:\n        grid.bessel", "    if cut_highwavelength > cut_wavelength:\n        grid.bessel")],
 "two wavelengths of cut", "the field is not smoothed before", """
from py_eddy_tracker.appli import grid as G
calls = []
class E:
    def write_file(self, **kw):
        pass
class R:
    def __init__(self, *a, **kw):
        pass
    def bessel_low_filter(self, *a, **kw):
        calls.append(("low", a[1]))
    def bessel_high_filter(self, *a, **kw):
        calls.append(("high", a[1]))
    def eddy_identification(self, *a, **kw):
        return E(), E()
G.RegularGridDataset = R
G.eddy_id("in.nc 20190223 h u v x y out --cut_wavelength 100 500".split())
assert calls == [("low", 100), ("high", 500)], calls
""")
mkseed("C41-oldest-latitude", "C41", [(GRID, '''            f_y[filament_size::filament_size_] = nan

            # A release''', '''            f_y[filament_size - 1 :: filament_size_] = nan

            # A release''')], "a filament with all its positions, in a series of grids", "the oldest position is lost", G + """
x, y = np.arange(0, 5, .5), np.arange(0, 5, .5)
c = GridCollection()
RegularGridDataset.populate = lambda self: True
for t in range(6):
    z = np.zeros((10, 10))
    c.datasets.append((t, grid(x, y, u=z + .1, v=z + .1)))
px, py = np.array([1., 2.]), np.array([1., 2.])
f = c.filament(px, py, "u", "v", 0, nb_step=1, time_step=43200, filament_size=3)
for _ in range(4):
    t, a, b = next(f)
assert np.isfinite(a).tolist() == np.isfinite(b).tolist() == [True, True, True, False] * 2, (a, b)
""")
