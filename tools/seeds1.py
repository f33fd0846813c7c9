from mkseed import mkseed
mkseed("C10-heap-prev", "C10", [("poly.py", "        i_previous[i2] = i0\n", "        if i2 != 0:\n            i_previous[i2] = i0\n")],
 "the last stored vertex is removed before its neighbours", "the triangle of the first vertex is measured against a removed vertex, so vertices are ranked wrongly",
 """
import numpy as np
from py_eddy_tracker.poly import visvalingam
rng = np.random.default_rng(3)
def ref(x, y, m):
    p = list(zip(x, y))
    while len(p) > m - 1:
        n = len(p)
        a = [abs((p[i-1][0]-p[(i+1)%n][0])*(p[i][1]-p[i-1][1])-(p[i-1][0]-p[i][0])*(p[(i+1)%n][1]-p[i-1][1])) for i in range(n)]
        p.pop(int(np.argmin(a)))
    return p
for k in range(300):
    n = 9
    x, y = rng.normal(size=n), rng.normal(size=n)
    ox, oy = visvalingam(x, y, 5)
    assert np.allclose(list(zip(ox[:-1], oy[:-1])), ref(x, y, 5)), k
""")
mkseed("C08-last-row", "C08", [("poly.py", "            for i_y in range(j0, j1 + 1):\n                # Get box indices", "            for i_y in range(j0, j1 + (y_c_max - y_c_min > step)):\n                # Get box indices")],
 "a contour less than one search box high that straddles two rows of boxes", "positions in the upper row of boxes of a small contour are not found",
 """
import numpy as np
from py_eddy_tracker.poly import insidepoly
x = np.array([[10.1, 10.9, 10.9, 10.1, 10.1]])
y = np.array([[0.7, 0.7, 1.4, 1.4, 0.7]])
m = insidepoly(np.array([10.5, 10.5]), np.array([0.9, 1.2]), x, y)
assert m.all(), m
""")
mkseed("C01-last-group", "C01", [("generic.py", "first_index[group - i0 + 1 : next_group - i0 + 1] = i + 1", "first_index[group - i0 + 1 : max(next_group - i0, group - i0 + 1)] = i + 1\n            first_index[next_group - i0] = i + 1 if next_group - group != 3 else i")],
 "a gap of exactly two missing groups", "the first observation after a gap of two missing groups is preceded by one of the group before",
 """
import numpy as np
from py_eddy_tracker.generic import build_index
a, b, r = build_index(np.array([1, 1, 4, 5]))
assert [(int(i), int(j)) for i, j in zip(a, b)] == [(0, 2), (2, 2), (2, 2), (2, 3), (3, 4)]
""")
mkseed("C11-wrap-max", "C11", [("poly.py", "                x1_max_ = (x1_max_ - ref) % 360 + ref\n            if x_in_max", "                x1_max_ = (x1_max_ - x_in_min) % 360 + x_in_min\n            if x_in_max")],
 "a second contour starting west of the first one but described one turn away", "the eastern bound of a contour described on the other turn is put a turn too far east: far contours become candidates",
 """
import numpy as np
from py_eddy_tracker.poly import bbox_intersection
y = np.array([[0., 1., 1.]])
i, j = bbox_intersection(np.array([[2., 4., 3.]]), y, np.array([[351., 353., 352.]]), y)
assert len(i) == 0, (i, j)
i, j = bbox_intersection(np.array([[2., 4., 3.]]), y, np.array([[359., 363., 361.]]), y)
assert len(i) == 1
""")
