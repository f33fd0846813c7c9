"""Tracks built from the links."""
from props.trk import World

PROPERTY = "C14"


def BOUNDS(tier):
    return "every set of one to one links (none included): 4 dates of 2 observations with and without prolongation, 3 dates of 3 observations, 5 dates of 1 or 2, 6 and 7 dates of 1 observation with prolongation of 1 to 3 dates%s" % ("" if tier == "quick" else "; 5 dates of 2, 4 dates of 3, 6 dates of 1 or 2, 8 dates of 1")


OUTSIDE = "more dates or observations; reading the files (datasets are objects)"
ASSUMPTIONS = ["links between two dates are one to one and otherwise arbitrary (established by C13)"]


def track(S, sizes, nv):
    T = S.mod("tracking")
    w = World(S, sizes, nv)
    c = T.Correspondances(datasets=list(range(len(sizes))), virtual=nv, class_method=w.Obs)
    c.track()
    S.check(w.step == len(sizes) - 1, "every date is linked to the next one")
    S.check(c.current_id == len(w.tracks), "one identifier per track")
    c.prepare_merging()
    w.merged(c.merge(raw_data=False), w.tracks)


def cases(tier):
    r = [("plain_2222", track, dict(sizes=[2, 2, 2, 2], nv=0)), ("virtual1_1212", track, dict(sizes=[1, 2, 1, 2], nv=1)),
         ("virtual2_2121", track, dict(sizes=[2, 1, 2, 1], nv=2)), ("virtual2_long", track, dict(sizes=[1, 1, 1, 1, 1, 1], nv=2)), ("virtual1_long", track, dict(sizes=[1, 1, 1, 1, 1, 2], nv=1)),
         ("virtual2_2222", track, dict(sizes=[2, 2, 2, 2], nv=2)), ("plain_333", track, dict(sizes=[3, 3, 3], nv=0)), ("virtual3_long", track, dict(sizes=[1, 1, 1, 1, 1, 1, 1], nv=3)),
         ("virtual2_21212", track, dict(sizes=[2, 1, 2, 1, 2], nv=2))]
    if tier != "quick":
        r += [("virtual3_12121", track, dict(sizes=[1, 2, 1, 2, 1, 2], nv=3)), ("virtual1_22222", track, dict(sizes=[2, 2, 2, 2, 2], nv=1)), ("plain_3333", track, dict(sizes=[3, 3, 3, 3], nv=0)), ("virtual2_8", track, dict(sizes=[1] * 8, nv=2)), ("virtual2_3232", track, dict(sizes=[3, 2, 3, 2], nv=2))]
    return r
