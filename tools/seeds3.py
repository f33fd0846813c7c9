import sys
from mkseed import mkseed as _mk

ONLY = set(sys.argv[1:])
NET = "observations/network.py"
BASE = """
import numpy as np
from py_eddy_tracker.observations.network import NetworkObservations

def build(rows, segs=None):
    # rows: (network, segment, time, previous, next)
    n = NetworkObservations(size=len(rows))
    n.sign_type = 1
    for f in n.obs.dtype.names:
        n.obs[f][:] = 0
    for k, (t, s, d, p, x) in enumerate(rows):
        n.track[k], n.segment[k], n.time[k], n.previous_obs[k], n.next_obs[k] = t, s, d, p, x
        n.lon[k] = k
    return n

"""


def mkseed(id, *args):
    if not ONLY or id in ONLY:
        _mk(id, *args)


mkseed("C25-translate", "C25", [(NET, "            if gr_i != gr_j:\n                apply_replace(translate, gr_i, gr_j)\n", "            if gr_i < gr_j:\n                apply_replace(translate, gr_i, gr_j)\n")],
 "groups joined through a group which was already joined to one of a higher number", "two groups connected by overlaps keep different numbers",
"""
from py_eddy_tracker.observations.network import Network
t = Network.group_translator(6, {(0, 2), (0, 5), (2, 3)})
assert len({int(t[k]) for k in (0, 2, 3, 5)}) == 1, t
assert len({int(t[k]) for k in (0, 1, 4)}) == 3, t
""")
mkseed("C25-unique-pair", "C25", [(NET, "        if id1_ != id1_previous or id2_ != id2_previous:\n", "        if id1_ != id1_previous or id2_ > id2_previous + 1:\n")],
 "two networks with consecutive numbers, the last segment of the first one has the number of the first segment of the second", "segments of two networks get the same number",
"""
import numpy as np
from py_eddy_tracker.observations.network import build_unique_array
r = build_unique_array(np.array([0, 1, 0, 1, 2]), np.array([3, 3, 4, 4, 4]))
r = build_unique_array(np.array([0, 0, 1, 1, 2, 0]), np.array([3, 3, 3, 3, 3, 4]))
assert r.tolist() == [0, 0, 1, 1, 2, 3], r
r = build_unique_array(np.array([0, 1, 0]), np.array([1, 1, 2]))
assert r.tolist() == [0, 1, 2], r
r = build_unique_array(np.array([3, 3, 3]), np.array([0, 1, 2]))
assert r.tolist() == [0, 1, 2], r
""")
mkseed("C27-relative-order", "C27", [(NET, "            if d_son == -1 or d_son > d_target:\n", "            if d_son == -1:\n")],
 "segments connected by a long and a short way", "the relative order of a segment is not the smallest number of events",
BASE + """
# a ring of segments: 0-1, 1-2, 2-3, 3-0, explored from 0
import itertools
bad = 0
for perm in itertools.permutations((1, 2, 3)):
    a, b, c = perm
    # 0 splits in a, a splits in b, b merges in c, c comes from 0
    t0 = {0: (0, 9), a: (1, 9), b: (2, 3), c: (1, 9)}
    rows, idx = [], {}
    for s in range(4):
        for d in range(t0[s][0], t0[s][1] + 1):
            idx[s, d] = len(rows)
            rows.append([1, s, d, idx.get((s, d - 1), -1), -1])
            if (s, d - 1) in idx:
                rows[idx[s, d - 1]][4] = idx[s, d]
    rows[idx[a, 1]][3] = idx[0, 0]
    rows[idx[b, 2]][3] = idx[a, 1]
    rows[idx[b, 3]][4] = idx[c, 4]
    rows[idx[c, 1]][3] = idx[0, 0]
    n = build(rows)
    d = n.segment_relative_order(0)
    got = {s: int(d[idx[s, t0[s][0]]]) for s in range(4)}
    assert got == {0: 0, a: 1, b: 2, c: 1}, (perm, got)
    for s, e in ((a, {0: 1, a: 0, b: 1, c: 2}), (b, {0: 2, a: 1, b: 0, c: 1})):
        d = n.segment_relative_order(s)
        got = {q: int(d[idx[q, t0[q][0]]]) for q in range(4)}
        assert got == e, (perm, s, got)
""")
mkseed("C27-link-at-event", "C27", [(NET, "                if i_begin < indice:\n                    continue\n", "                if i_begin < indice or (i_begin == indice and i_end < i_begin):\n                    continue\n")],
 "a search from the observation which merges in a segment stored before", "what an observation becomes is not found when it merges in a segment stored before",
BASE + """
n = build([(1, 0, 0, -1, 1), (1, 0, 1, 0, 2), (1, 0, 2, 1, 3), (1, 0, 3, 2, -1), (1, 1, 0, -1, 5), (1, 1, 1, 4, 2)])
assert sorted(n.find_link(5).lon) == [2, 3, 5], n.find_link(5).lon
assert sorted(n.find_link(4).lon) == [2, 3, 4, 5]
""")
mkseed("C28-triplet-order", "C28", [(NET, "            idx_m0_stop = i_stop[m][i]\n", "            idx_m0_stop = i_stop[m]\n")],
 "several merging events which are not stored in the order of time", "the stopped observation given for an event belongs to another event",
BASE + """
n = build([(1, 0, t, t - 1, t + 1 if t < 9 else -1) for t in range(10)] + [(1, 1, 5, -1, 6), (1, 2, 2, -1, 3)])
a, b, c = n.merging_event(triplet=True, only_index=True)
assert [(int(i), int(j), int(k)) for i, j, k in zip(a, b, c)] == [(3, 2, 11), (6, 5, 10)], (a, b, c)
""")
mkseed("C28-chained-close", "C28", [(NET, "                segments_connexion[seg_corrected][0] = my_slice\n", "                segments_connexion[seg_corrected][0] = (\n                    seg_slice if seg_slice.stop == my_slice.start else my_slice\n                )\n")],
 "close events met one after the other on the same segment, whose rows follow each other", "the second of two close events on one segment is corrected from the wrong end",
BASE + """
# segment 0 on [0, 3], merges in 1; 1 splits from 0 at 1, on [2, 7], merges in 2; 2 splits from 1 at 5, on [6, 10]
rows, idx = [], {}
for s, (a, b) in enumerate(((0, 3), (2, 7), (6, 10))):
    for d in range(a, b + 1):
        idx[s, d] = len(rows)
        rows.append([1, s, d, idx.get((s, d - 1), -1), -1])
        if (s, d - 1) in idx:
            rows[idx[s, d - 1]][4] = idx[s, d]
rows[idx[1, 2]][3] = idx[0, 1]
rows[idx[0, 3]][4] = idx[1, 4]
rows[idx[2, 6]][3] = idx[1, 5]
rows[idx[1, 7]][4] = idx[2, 8]
n = build(rows)
n.correct_close_events(nb_days_max=20)
got = {}
for k in range(len(n)):
    got.setdefault(int(n.segment[k]), []).append(int(n.time[k]))
assert sorted(got.values()) == sorted([list(range(0, 11)), [2, 3], [6, 7]]), got
""")
mkseed("C28-dead-end-dates", "C28", [(NET, "        dt = self.time[i1 - 1] - self.time[i0] + 1\n", "        dt = self.time[i1 - 1] - self.time[i0] + int(nobs > 0)\n")],
 "removal of dead ends by days only", "segments which last exactly the minimal number of days are removed",
BASE + """
n = build([(1, 0, t, t - 1, t + 1 if t < 9 else -1) for t in range(10)] + [(1, 1, 3, 2, 11), (1, 1, 4, 10, -1)])
n.remove_dead_end(nobs=0, ndays=2)
assert (n.track == 1).all(), n.track
n.remove_dead_end(nobs=0, ndays=3)
assert (n.track == 0).sum() == 2, n.track
""")
mkseed("C26-merge-oneway", "C26", [(NET, "        for s1, s2 in zip(segment[i_next[m_n]], segment[i1[m_n]]):\n            add_seg(s1, s2)\n", "        for s1, s2 in zip(segment[i_next[m_n]], segment[i1[m_n]]):\n            if s2 in segments_connexion and s1 > s2:\n                segments_connexion.setdefault(s1, set())\n                segments_connexion[s1].add(s2)\n            else:\n                add_seg(s1, s2)\n")],
 "a segment which comes from a splitting and merges in a segment stored later, without other connexion", "connected segments are put in different networks",
BASE + """
rows, idx = [], {}
for s, (a, b) in enumerate(((0, 5), (2, 4), (0, 9))):
    for d in range(a, b + 1):
        idx[s, d] = len(rows)
        rows.append([1, s, d, idx.get((s, d - 1), -1), -1])
        if (s, d - 1) in idx:
            rows[idx[s, d - 1]][4] = idx[s, d]
rows[idx[1, 2]][3] = idx[0, 1]
rows[idx[1, 4]][4] = idx[2, 5]
n = build(rows)
n.dissociate_network()
assert len(set(n.track.tolist())) == 1, n.track
""")
mkseed("C26-period-shift", "C26", [(NET, "            mask *= self.time <= (dataset_period[1] + p_max)\n", "            mask *= self.time <= (self.time[mask].max() + p_max)\n")],
 "a period given from the end where the first bound leaves no observation, or an unusual combination of bounds", "the last date of the dataset is searched in selected rows only",
BASE + """
n = build([(1, 0, t, t - 1, t + 1 if t < 9 else -1) for t in range(10)])
assert len(n.extract_with_period((100, -2))) == 0
assert n.extract_with_period((3, -2)).time.tolist() == [3, 4, 5, 6, 7]
""")
mkseed("C37-same-prefix", "C37", [(NET, "            if test:\n                i_target[j0] = j1\n                used1[j1] = True\n                break\n", "            if test:\n                i_target[j0] = j1\n                used1[min(j0, j1)] = True\n                break\n")],
 "two identical segments in a dataset and a single one, stored later, in the other", "one segment is paired with two segments",
"""
import numpy as np
from numba.typed import List
from py_eddy_tracker.observations.network import same_position
a = np.array([1., 1.]); t = np.array([5, 5])
b = np.array([9., 1.]); tb = np.array([5, 5])
l0, l1 = List(), List()
for l in (l0, l1):
    l.append(np.array([0])); l.append(np.array([0]))
r = same_position(a, a, t, b, b, tb, np.array([0, 1]), np.array([0, 1]), l0, l1)
assert r.tolist() == [1, -1], r
""")
