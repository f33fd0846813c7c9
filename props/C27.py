"""Relations between the segments of a network."""
from . import net as N

PROPERTY = "C27"


def BOUNDS(tier):
    return "networks of up to %d segments, %d observations, any links between segments that follow time, any choice of observations and orders" % ((4, 7) if tier == "quick" else (5, 9))


OUTSIDE = "larger networks"
ASSUMPTIONS = ["rows are sorted by network, segment and date", "links between segments stay in a network and follow time"]


def reach(net, start, forward):
    nxt = {k: set() for k in range(net.n)}
    for r in net.rows:
        for a, b in zip(r, r[1:]):
            nxt[a].add(b)
    m, s = net.events()
    for a, b in m + s:
        nxt[a].add(b)
    if not forward:
        inv = {k: set() for k in nxt}
        for a, v in nxt.items():
            for b in v:
                inv[b].add(a)
        nxt = inv
    seen, todo = set(), [start]
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += nxt[k]
    return seen


def link(S, sizes, nets, mode, nb=1):
    net = N.Net(S, sizes, nets)
    i = [S.choice("i%d" % q, list(range(net.n))) for q in range(nb)]
    forward, backward = mode != "backward", mode != "forward"
    new = net.o.find_link(i if nb > 1 else i[0], forward=forward, backward=backward)
    exp = set()
    for k in i:
        exp |= reach(net, k, True) if forward else set()
        exp |= reach(net, k, False) if backward else set()
    S.check(N.rows(S, new) == sorted(exp), "exactly the observations which can be reached following time")
    N.check_links(S, net, new, sorted(exp))


def orders(net, sources):
    e = net.edges()
    d = {s: 0 for s in sources}
    while True:
        more = {y: d[x] + 1 for a, b in e for x, y in ((a, b), (b, a)) if x in d and (y not in d or d[y] > d[x] + 1)}
        if not more:
            return d
        d.update(more)


def relatives(S, sizes, nets, nb=1):
    net = N.Net(S, sizes, nets)
    i = [S.choice("i%d" % q, list(range(net.n))) for q in range(nb)]
    order = S.choice("order", [0, 1, 2, 3])
    new = net.o.relatives(i if nb > 1 else i[0], order=order)
    d = orders(net, {net.owner[k] for k in i})
    exp = [k for k in range(net.n) if net.owner[k] in d and d[net.owner[k]] <= order]
    S.check(N.rows(S, new) == exp, "exactly the segments separated by at most this number of events")
    N.check_links(S, net, new, exp)


def order(S, sizes, first):
    segs = [first]
    for s in range(1, len(sizes)):
        segs.append(segs[-1] + 1 + S.choice("g%d" % s, [0, 1]))
    net = N.Net(S, sizes, [3] * len(sizes), segs=segs)
    s = S.choice("s", list(range(len(sizes))))
    d = orders(net, {s})
    got = net.o.segment_relative_order(segs[s])
    S.check([S.concrete(v) for v in got] == [d.get(net.owner[k], -1) for k in range(net.n)], "number of events between segments, -1 when they are not related")
    got = net.o.obs_relative_order(net.rows[s][0])
    S.check([S.concrete(v) for v in got] == [d.get(net.owner[k], -1) for k in range(net.n)], "same for an observation")


def connexions(S, sizes, nets, multi):
    net = N.Net(S, sizes, nets)
    c = net.o.connexions(multi_network=multi)
    name = (lambda s: s) if multi else (lambda s: s + 1)
    exp = {}
    for a, b in net.edges():
        exp.setdefault(name(a), set()).add(name(b))
        exp.setdefault(name(b), set()).add(name(a))
    got = {S.concrete(k): {S.concrete(x) for x in v} for k, v in c.items()}
    S.check(got == exp, "segments which share an event")


def event(S, sizes, nets):
    """relatives of an observation in its own network only"""
    net = N.Net(S, sizes, nets)
    k = S.choice("k", list(range(net.n)))
    stopped = S.choice("stopped", [None] + [q for q in range(net.n) if net.net[q] == net.net[k]])
    order = S.choice("order", [0, 1])
    new = net.o.find_segments_relative(k, stopped, order=order)
    d = orders(net, {net.owner[k]} | ({net.owner[stopped]} if stopped is not None else set()))
    S.check(N.rows(S, new) == [q for q in range(net.n) if net.owner[q] in d and d[net.owner[q]] <= order], "relatives of the event")


def cases(tier):
    r = [("forward_222", link, dict(sizes=[2, 2, 2], nets=[1, 1, 1], mode="forward")), ("backward_222", link, dict(sizes=[2, 2, 2], nets=[1, 1, 1], mode="backward")),
         ("both_31", link, dict(sizes=[3, 1], nets=[1, 1], mode="both")), ("several_122", link, dict(sizes=[1, 2, 1], nets=[1, 1, 1], mode="both", nb=2)), ("forward_nets", link, dict(sizes=[2, 1, 2, 1], nets=[1, 1, 2, 2], mode="forward")),
         ("relatives_121", relatives, dict(sizes=[1, 2, 1], nets=[1, 1, 1])), ("relatives_2", relatives, dict(sizes=[1, 1, 1], nets=[1, 1, 1], nb=2)),
         ("order_121", order, dict(sizes=[1, 2, 1], first=1)), ("order_0", order, dict(sizes=[2, 1], first=0)),
         ("connexions", connexions, dict(sizes=[2, 1, 2], nets=[1, 1, 1], multi=False)), ("connexions_multi", connexions, dict(sizes=[2, 1, 1, 2], nets=[1, 1, 2, 2], multi=True)), ("event", event, dict(sizes=[1, 2, 1, 1], nets=[1, 1, 2, 2]))]
    if tier != "quick":
        r += [("relatives_1111", relatives, dict(sizes=[1, 1, 1, 1], nets=[1, 1, 1, 1])), ("relatives_22", relatives, dict(sizes=[1, 1, 2], nets=[1, 1, 1], nb=2)), ("forward_big", link, dict(sizes=[2, 1, 2, 1], nets=[1] * 4, mode="forward")), ("several_222", link, dict(sizes=[2, 2, 1], nets=[1] * 3, mode="both", nb=2)),
              ("relatives_big", relatives, dict(sizes=[1, 2, 1, 1], nets=[1] * 4)), ("order_big", order, dict(sizes=[1, 1, 2, 1], first=1))]
    return r
