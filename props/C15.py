"""Selection of tracks by length, and observations left without track."""
from props.trk import World

PROPERTY = "C15"


def BOUNDS(tier):
    return "every set of one to one links (none included) between 3 dates of 2 observations and 4 or 5 dates of 1 or 2, prolongation of 0 to 2 dates, links listed in both orders, every threshold from 1 to one more than the longest track%s" % ("" if tier == "quick" else "; 4 dates of 2 and 6 dates of 1 observation")


OUTSIDE = "more dates or observations; files on disk; raw (packed) copies"
ASSUMPTIONS = ["links between two dates are one to one and otherwise arbitrary (established by C13)"]


def build(S, sizes, nv, backward=False):
    T = S.mod("tracking")
    w = World(S, sizes, nv, backward=backward)
    c = T.Correspondances(datasets=list(range(len(sizes))), virtual=nv, class_method=w.Obs)
    c.track()
    c.prepare_merging()
    return w, c


def select(S, sizes, nv, backward=False):
    w, c = build(S, sizes, nv, backward)
    size = S.choice("threshold", list(range(1, len(sizes) + 2)))
    short = c._copy()
    short.shorter_than(size_max=size)
    w.merged(short.merge(raw_data=False), [tr for tr in w.tracks if len(tr) < size])
    long_ = [tr for tr in w.tracks if len(tr) >= size]
    r = c.longer_than(size_min=size)
    if long_:
        S.check(r is not False, "some tracks are long enough")
        w.merged(c.merge(raw_data=False), long_)
    else:
        S.check(r is False, "no track is long enough")


def unused(S, sizes, nv, backward=False):
    w, c = build(S, sizes, nv, backward)
    used = {u for tr in w.tracks for _, u, _ in tr}
    o = c.get_unused_data()
    got = [(S.concrete(o["speed_area"][k]), S.concrete(o.time[k])) for k in range(len(o))]
    exp = [(w.uid(t, k), 100 + t) for t, n in enumerate(sizes) for k in range(n) if w.uid(t, k) not in used]
    S.check(sorted(got) == sorted(exp), "exactly the observations of no track")
    for k, (u, _) in enumerate(got):
        x, y = w.pos(*w.date_of(u))
        S.check(S.And(S.close(o.lon[k], x), S.close(o.lat[k], y)), "with their fields")


def cases(tier):
    sz = [("222", [2, 2, 2], 0), ("222v", [2, 2, 2], 1), ("1212v", [1, 2, 1, 2], 2), ("11111v", [1, 1, 1, 1, 1], 2)]
    if tier != "quick":
        sz += [("2222v", [2, 2, 2, 2], 1), ("2222v2", [2, 2, 2, 2], 2), ("111111v", [1] * 6, 2), ("2121", [2, 1, 2, 1], 0), ("21212v", [2, 1, 2, 1, 2], 2)]
    r = []
    for n, s, v in sz:
        r.append(("select_" + n, select, dict(sizes=s, nv=v)))
        r.append(("unused_" + n, unused, dict(sizes=s, nv=v)))
    for n, s, v in [("122v", [1, 2, 2], 1), ("1122v", [1, 1, 2, 2], 1)] + ([("222v", [2, 2, 2], 1), ("1222v", [1, 2, 2, 2], 2)] if tier != "quick" else []):
        r.append(("select_back_" + n, select, dict(sizes=s, nv=v, backward=True)))
        r.append(("unused_back_" + n, unused, dict(sizes=s, nv=v, backward=True)))
    return r
