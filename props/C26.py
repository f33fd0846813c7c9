"""Networks stay consistent when they are selected, sorted or renumbered."""
from . import net as N

PROPERTY = "C26"


def BOUNDS(tier):
    return "networks of up to %d segments, %d observations, in one or two networks, any links between segments, with and without untracked observations" % ((3, 6) if tier == "quick" else (4, 9))


OUTSIDE = "larger networks; contours"
ASSUMPTIONS = ["rows are sorted by network, segment and date (except before a sort)", "links between segments stay in a network and follow time"]


def fields(S, net, new, kept):
    for q, k in enumerate(kept):
        S.check(S.And(new.time[q] == net.t[k], new.track[q] == net.net[k], new.segment[q] == net.seg[k]), "fields of kept rows")


def mask(S, sizes, nets, trash):
    net = N.Net(S, sizes, nets, trash)
    m = [S.concrete(v) for v in S.bools("m", net.n)]
    new = net.o.extract_with_mask(S.arr(m, "?"))
    kept = [k for k in range(net.n) if m[k]]
    S.check(N.rows(S, new) == kept, "exactly the selected rows, in order")
    fields(S, net, new, kept)
    N.check_links(S, net, new, kept)
    S.check(N.rows(S, net.o) == list(range(net.n)), "the dataset itself is unchanged")
    N.check_links(S, net, net.o, list(range(net.n)), "dataset unchanged")


def light(S, sizes, nets, trash):
    net = N.Net(S, sizes, nets, trash)
    m = [S.concrete(v) for v in S.bools("m", net.n)]
    S.assume(any(m))
    new = net.o.extract_light_with_mask(S.arr(m, "?"), track_extra_variables=["next_obs", "previous_obs"])
    kept = [k for k in range(net.n) if m[k]]
    S.check(len(new) == len(kept), "number of rows")
    for q, k in enumerate(kept):
        S.check(new.time[q] == net.t[k], "dates of kept rows")
    N.check_links(S, net, new, kept)


def select(S, sizes, nets, trash, what):
    net = N.Net(S, sizes, nets, trash)
    o = net.o
    if what == "network":
        i = S.choice("id", sorted(set(net.net)))
        new = o.network(i)
        kept = [k for k in range(net.n) if net.net[k] == i]
    elif what == "networks":
        ids = [i for i in sorted(set(net.net)) if S.concrete(S.bool("w%d" % i))]
        ids += S.choice("absent", [[], [3], [9]])
        S.assume(ids)
        new = o.networks(ids[::-1])
        kept = [k for k in range(net.n) if net.net[k] in ids]
    elif what == "segment":
        off = 1 if trash else 0
        ids = [s for s in range(len(sizes) + off) if S.concrete(S.bool("w%d" % s))]
        ids += S.choice("absent", [[], [len(sizes) + off], [9]])
        S.assume(ids)
        new = o.extract_segment(ids, absolute=True)
        kept = [k for k in range(net.n) if (0 if net.owner[k] is None else net.owner[k] + off) in ids]
    elif what == "trash":
        new = o.remove_trash()
        kept = [k for k in range(net.n) if net.net[k] != 0]
    S.check(N.rows(S, new) == kept, "exactly the wanted rows")
    fields(S, net, new, kept)
    N.check_links(S, net, new, kept)


def longer(S, sizes, nets, trash):
    net = N.Net(S, sizes, nets, trash, hi=3)
    a, b = S.choice("min", [-1, 3, 5]), S.choice("max", [-1, 4])
    new = net.o.longer_than(a, b)
    got = N.rows(S, new)
    for i in sorted(set(net.net)):
        r = [k for k in range(net.n) if net.net[k] == i]
        t0, t1 = net.t[r[0]], net.t[r[0]]
        for k in r:
            t0, t1 = S.min(t0, net.t[k]), S.max(t1, net.t[k])
        d = t1 - t0 + 1
        ok = S.And(d >= a, d <= b if b >= 0 else True)
        for k in r:
            S.check(S.iff(k in got, ok), "networks with a duration between the bounds")
    S.check(got == sorted(got), "in order")
    N.check_links(S, net, new, got)


def period(S, sizes, nets):
    net = N.Net(S, sizes, nets)
    p0, p1 = S.choice("b0", [0, 101, 103, -1]), S.choice("b1", [0, 102, 103, -1])
    new = net.o.extract_with_period((p0, p1))
    got = N.rows(S, new)
    t0, t1 = net.t[0], net.t[0]
    for v in net.t:
        t0, t1 = S.min(t0, v), S.max(t1, v)
    for k in range(net.n):
        a = True if p0 == 0 else net.t[k] >= (p0 if p0 > 0 else t0 - p0)
        b = True if p1 == 0 else net.t[k] <= (p1 if p1 > 0 else t1 + p1)
        S.check(S.iff(k in got, S.And(a, b)), "observations of the period")
    N.check_links(S, net, new, got)


def sort(S, sizes, nets):
    """any order of the rows"""
    net = N.Net(S, sizes, nets, concrete=True)
    o, n = net.o, net.n
    left, perm = list(range(n)), []
    for q in range(n):
        k = S.choice("r%d" % q, left)
        left = [v for v in left if v != k]
        perm.append(k)
    back = {k: q for q, k in enumerate(perm)}
    back[-1] = -1
    for q, k in enumerate(perm):
        o.track[q], o.segment[q], o.time[q], o["speed_area"][q] = net.net[k], net.seg[k], net.t[k], 1 + k
        o.next_obs[q], o.previous_obs[q] = back[net.nxt[k]], back[net.prv[k]]
    order, translate = o.sort()
    S.check(N.rows(S, o) == list(range(n)), "rows are sorted by network, segment and date")
    fields(S, net, o, list(range(n)))
    N.check_links(S, net, o, list(range(n)))
    S.check([S.concrete(v) for v in order] == [back[k] for k in range(n)], "order")
    S.check([S.concrete(translate[q]) for q in range(n)] == perm and S.concrete(translate[-1]) == -1, "translation of the previous row numbers")


def numbers(S, sizes, nets, trash):
    # numbers with gaps
    segs, ids = [], []
    for s in range(len(sizes)):
        new_net = s == 0 or nets[s] != nets[s - 1]
        ids.append((ids[-1] if s else 0) + ((1 + S.choice("gn%d" % s, [0, 1])) if new_net else 0))
        segs.append((0 if new_net else segs[-1]) + 1 + S.choice("gs%d" % s, [0, 1]))
    net = N.Net(S, sizes, ids, trash, links=False, segs=segs)
    o, n = net.o, net.n
    if S.concrete(S.bool("used")):  # indexes already computed with the previous numbers
        S.check(S.concrete(o.nb_network) == len(set(ids)) + (1 if trash else 0), "number of networks")
        S.check(S.concrete(o.nb_segment) == len(sizes) + (1 if trash else 0), "number of segments")
    if S.concrete(S.bool("network")):
        start = S.choice("start", [0, 1, 5])
        o.numbering_network(start)
        num = {i: start + q for q, i in enumerate(sorted(set(net.net)))}
        S.check([S.concrete(o.track[k]) for k in range(n)] == [num[net.net[k]] for k in range(n)], "networks are numbered without gap")
        S.check([S.concrete(o.segment[k]) for k in range(n)] == net.seg, "segments keep their number")
        for i, v in num.items():
            kept = [k for k in range(n) if net.net[k] == i]
            S.check(N.rows(S, o.network(v)) == kept, "a network is found with its new number")
            S.check(S.concrete(o.network_size(S.arr([v], "i8"))[0]) == len(kept), "size of a network")
    else:
        start = S.choice("start", [0, 1, 5])
        o.numbering_segment(start)
        for i in set(net.net):
            kept = [k for k in range(n) if net.net[k] == i]
            num = {v: start + q for q, v in enumerate(sorted({net.seg[k] for k in kept}))}
            S.check([S.concrete(o.segment[k]) for k in kept] == [num[net.seg[k]] for k in kept], "segments of each network are numbered without gap")
        S.check([S.concrete(o.track[k]) for k in range(n)] == net.net, "networks keep their number")


def sizes_(S, sizes, nets, trash):
    net = N.Net(S, sizes, nets, trash, links=False)
    o = net.o
    lo, hi = min(net.net), max(net.net)
    S.check([S.concrete(v) for v in o.network_size()] == [net.net.count(i) for i in range(lo, hi + 1)], "observations by network")
    have = ([0] if trash else []) + list(nets)
    S.check([S.concrete(v) for v in o.network_segment_size()] == [have.count(i) for i in range(lo, hi + 1)], "segments by network")
    S.check([S.concrete(v) for v in o.segment_size()] == ([trash] if trash else []) + list(sizes), "observations by segment")
    i = S.choice("id", sorted(set(net.net)))
    S.check(S.concrete(o.network_size(S.arr([i], "i8"))[0]) == net.net.count(i), "size of a network")
    S.check(S.concrete(o.network_segment_size(S.arr([i], "i8"))[0]) == have.count(i), "segments of a network")
    u = S.choice("u", list(range(len(have))))
    a, b = o.unique_segment_to_id(u)
    S.check(S.And(a == have[u], b == (net.seg[[k for k in range(net.n) if (0 if net.owner[k] is None else net.owner[k] + (1 if trash else 0)) == u][0]])), "network and number of a segment")


def dissociate(S, sizes, trash):
    net = N.Net(S, sizes, [1] * len(sizes), trash)
    o = net.o
    o.dissociate_network()
    got = N.rows(S, o)
    comp = net.components()
    S.check(sorted(got) == list(range(net.n)), "every observation is kept once")
    by = {k: S.concrete(o.track[q]) for q, k in enumerate(got)}
    for a in range(net.n):
        for b in range(a):
            ca, cb = [None if net.owner[k] is None else comp[net.owner[k]] for k in (a, b)]
            S.check((by[a] == by[b]) == (ca == cb), "networks are the groups of segments linked by events")
        if trash:
            S.check((by[a] == 0) == (a < trash), "untracked observations stay in network 0")
    key = [(by[k], net.seg[k], k) for k in got]
    S.check(key == sorted(key), "sorted by network, segment, date")
    for q, k in enumerate(got):
        S.check(S.And(o.segment[q] == net.seg[k], o.time[q] == net.t[k]), "other fields")
    N.check_links(S, net, o, got)


def cases(tier):
    r = [("mask_32", mask, dict(sizes=[3, 2], nets=[1, 1], trash=0)), ("mask_121", mask, dict(sizes=[1, 2, 1], nets=[1, 1, 2], trash=1)),
         ("light_22", light, dict(sizes=[2, 2], nets=[1, 1], trash=0)),
         ("network", select, dict(sizes=[2, 1, 2], nets=[2, 2, 4], trash=1, what="network")), ("networks", select, dict(sizes=[2, 1, 1], nets=[1, 2, 4], trash=1, what="networks")),
         ("segment", select, dict(sizes=[2, 1, 2], nets=[1, 1, 3], trash=1, what="segment")), ("segment_notrash", select, dict(sizes=[1, 2, 1], nets=[1, 1, 2], trash=0, what="segment")),
         ("trash", select, dict(sizes=[2, 2], nets=[1, 2], trash=2, what="trash")), ("no_trash", select, dict(sizes=[2, 2], nets=[1, 2], trash=0, what="trash")),
         ("longer", longer, dict(sizes=[2, 1, 2], nets=[1, 1, 3], trash=1)), ("period", period, dict(sizes=[2, 2], nets=[1, 1])),
         ("sort_21", sort, dict(sizes=[2, 1], nets=[1, 1])), ("sort_112", sort, dict(sizes=[1, 1, 2], nets=[1, 1, 2])),
         ("numbers", numbers, dict(sizes=[1, 2, 1], nets=[1, 1, 2], trash=0)), ("numbers_trash", numbers, dict(sizes=[1, 2, 1], nets=[1, 1, 2], trash=1)),
         ("sizes", sizes_, dict(sizes=[1, 2, 1], nets=[1, 1, 3], trash=0)), ("sizes_trash", sizes_, dict(sizes=[1, 2, 1], nets=[1, 1, 3], trash=2)),
         ("dissociate_212", dissociate, dict(sizes=[2, 1, 2], trash=0)), ("dissociate_trash", dissociate, dict(sizes=[1, 2, 1], trash=1))]
    if tier != "quick":
        r += [("mask_222", mask, dict(sizes=[2, 2, 2], nets=[1, 1, 1], trash=0)), ("dissociate_2222", dissociate, dict(sizes=[1, 2, 1, 2], trash=1)),
              ("segment_big", select, dict(sizes=[2, 1, 2, 2], nets=[1, 1, 3, 3], trash=2, what="segment")), ("sort_122", sort, dict(sizes=[1, 2, 2], nets=[1, 1, 2])),
              ("longer_big", longer, dict(sizes=[2, 2, 2, 1], nets=[1, 1, 3, 3], trash=1)), ("period_big", period, dict(sizes=[2, 2, 2], nets=[1, 1, 2]))]
    return r
