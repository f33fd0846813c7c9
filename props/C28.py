"""Events of networks: merging, splitting, start, end; corrections built on them."""
from . import net as N

PROPERTY = "C28"


def BOUNDS(tier):
    return "networks of up to %d segments, %d observations, any links between segments that follow time" % ((3, 6) if tier == "quick" else (4, 8))


OUTSIDE = "larger networks; a first network of lonely observations which is not network 0"
ASSUMPTIONS = ["rows are sorted by network, segment and date", "links between segments stay in a network and follow time", "untracked observations are in network 0"]


def bag(S, o):
    return sorted(N.rows(S, o))


def events(S, sizes, nets, trash):
    net = N.Net(S, sizes, nets, trash)
    o = net.o
    if not trash:
        S.assume(len(net.rows[0]) > 1 or net.prv[0] != -1 or net.nxt[0] != -1)
    m, s = net.events()
    S.check(N.rows(S, o.merging_event()) == sorted({b for _, b in m}), "observations which follow a merging, once each")
    S.check([S.concrete(v) for v in o.merging_event(only_index=True)] == sorted({b for _, b in m}), "their rows")
    after, before, stopped = o.merging_event(triplet=True, only_index=True)
    got = [(S.concrete(a), S.concrete(b), S.concrete(c)) for a, b, c in zip(after, before, stopped)]
    S.check(sorted(got) == sorted((b, net.prv[b], a) for a, b in m), "one triplet by segment which stops in another one")
    S.check(S.And([net.t[a[0]] <= net.t[b[0]] for a, b in zip(got, got[1:])]), "merging events in time order")
    S.check(N.rows(S, o.splitting_event()) == sorted({a for a, _ in s}), "observations which precede a splitting, once each")
    S.check([S.concrete(v) for v in o.splitting_event(only_index=True)] == sorted({a for a, _ in s}), "their rows")
    before, after, started = o.splitting_event(triplet=True, only_index=True)
    got = [(S.concrete(a), S.concrete(b), S.concrete(c)) for a, b, c in zip(before, after, started)]
    S.check(sorted(got) == sorted((a, net.nxt[a], b) for a, b in s), "one triplet by segment which starts from another one")
    S.check(S.And([net.t[a[0]] <= net.t[b[0]] for a, b in zip(got, got[1:])]), "splitting events in time order")
    S.check(bag(S, o.birth_event()) == [r[0] for r in net.rows if net.prv[r[0]] == -1], "first observation of segments without origin")
    S.check(bag(S, o.death_event()) == [r[-1] for r in net.rows if net.nxt[r[-1]] == -1], "last observation of segments without continuation")
    if all(net.prv[b] != -1 for _, b in m):
        e = o.merging_event(triplet=True)
        S.check(sorted(zip(*[N.rows(S, x) for x in e])) == sorted((b, net.prv[b], a) for a, b in m), "observations of the triplets")


def close(S, sizes, nets):
    """observations close in time to an event"""
    net = N.Net(S, sizes, nets)
    dt = S.choice("dt", [1, 2, 3])
    merging, splitting = S.choice("what", [(True, True), (True, False), (False, True)])
    m, s = net.events()
    mask = net.o.mask_obs_close_event(merging, splitting, dt)
    exp = [False] * net.n

    def follow(k, link):
        k0, ok = k, True
        while k != -1:
            exp[k] = S.Or(exp[k], ok)
            k = link[k]
            if k != -1:
                d = net.t[k] - net.t[k0]
                ok = S.And(ok, d < dt, d > -dt)

    if merging:
        for a, b in m:
            follow(a, net.prv)
            follow(net.prv[b], net.prv)
            follow(b, net.nxt)
    if splitting:
        for a, b in s:
            follow(b, net.nxt)
            follow(net.nxt[a], net.nxt)
            follow(a, net.prv)
    for k in range(net.n):
        S.check(S.iff(mask[k], exp[k]), "observations linked to an event, within the delay")


def correct(S, sizes):
    net = N.Net(S, sizes, [1] * len(sizes), hi=3)
    o = net.o
    days = S.choice("days", [2, 4, 20])
    e0 = {(a, net.nxt[a]) for a in range(net.n)} | {(net.prv[a], a) for a in range(net.n)}
    e0 = {(a, b) for a, b in e0 if -1 not in (a, b)}
    o.correct_close_events(nb_days_max=days)
    got = N.rows(S, o)
    S.check(sorted(got) == list(range(net.n)), "every observation is kept once")
    nx, pv = N.links(S, o)
    nx, pv = {got[q]: got[nx[q]] if nx[q] != -1 else -1 for q in range(net.n)}, {got[q]: got[pv[q]] if pv[q] != -1 else -1 for q in range(net.n)}
    seg = {got[q]: S.concrete(o.segment[q]) for q in range(net.n)}
    for q in range(net.n):
        S.check(o.time[q] == net.t[got[q]], "dates are kept")
        if q and seg[got[q]] == seg[got[q - 1]]:
            S.check(net.t[got[q]] > net.t[got[q - 1]], "one observation by date in a segment")
            S.check(nx[got[q - 1]] == got[q] and pv[got[q]] == got[q - 1], "a segment is a chain of links")
    S.check([seg[k] for k in got] == sorted(seg[k] for k in got), "sorted by segment")
    S.check(nx == {a: net.nxt[a] for a in range(net.n)}, "continuations are kept")
    e1 = {(a, nx[a]) for a in nx} | {(pv[a], a) for a in pv}
    S.check({(a, b) for a, b in e1 if -1 not in (a, b)} <= e0, "no link is created between observations which were not linked")
    if len(sizes) == 2:
        # what must change
        for s in (0, 1):
            a, b = net.rows[s], net.rows[1 - s]
            j = net.nxt[a[-1]]
            c = j != -1 and net.prv[b[0]] != -1 and net.owner[net.prv[b[0]]] == s
            closed = S.And(net.t[j] - net.t[net.prv[b[0]]] < days) if c else False
            both = net.nxt[b[-1]] != -1
            for k in b:
                moved = seg[k] == s + 1
                if c and k >= j:
                    S.check(S.iff(closed, moved), "the end of the segment which leaves and comes back goes to the main one")
                elif not both:
                    S.check(not moved, "others are kept")


def swap(S, sizes, kw, hi):
    """short branches give their place to the long one born from the same observation"""
    net = N.Net(S, sizes, [1] * len(sizes), hi=hi, trash=1)
    o = net.o
    cost = [S.fx("c%d" % k, 0, 1, 8) if k else 0 for k in range(net.n)]
    for k in range(net.n):
        o.previous_cost[k] = cost[k]
    o.swap_track(**kw)
    main_max, second_min, delta = (kw.get(k, v) for k, v in (("length_main_max_after_event", 2), ("length_secondary_min_after_event", 10), ("delta_pct_max", -0.2)))
    nx, seg = list(net.nxt), list(net.seg)
    ev = [(net.prv[r[0]], r[0]) for r in net.rows if net.prv[r[0]] != -1]
    # in the order of dates
    for i in range(len(ev)):
        j = i
        while j and bool(net.t[ev[j][0]] < net.t[ev[j - 1][0]]):
            ev[j], ev[j - 1] = ev[j - 1], ev[j]
            j -= 1
    for m, i2 in ev:
        i1 = nx[m]
        if i1 == -1 or seg[i1] != seg[m]:
            continue
        end = [[k for k in net.rows[net.owner[i]]][-1] for i in (i1, i2)]
        d = cost[i2] - cost[i1] - delta
        if nx[end[0]] != -1:
            continue
        if bool(S.And(net.t[end[0]] - net.t[m] <= main_max, net.t[end[1]] - net.t[i2] >= second_min, d > 0)):
            nx[m] = i2
            a, b = seg[i2], seg[m]
            for k in range(i1, end[0] + 1):
                seg[k] = a
            for k in range(i2, end[1] + 1):
                seg[k] = b
    got = N.rows(S, o)
    S.check(sorted(got) == list(range(net.n)), "every observation is kept once")
    S.check([S.concrete(v) for v in o.segment] == [seg[k] for k in got], "a short dead end and the long branch born at the same observation exchange their segments")
    S.check([seg[k] for k in got] == sorted(seg), "sorted by segment")
    gn, gp = N.links(S, o)
    gn, gp = {got[q]: got[v] if v != -1 else -1 for q, v in enumerate(gn)}, {got[q]: got[v] if v != -1 else -1 for q, v in enumerate(gp)}
    S.check(gp == dict(enumerate(net.prv)), "origins are kept")
    S.check(gn == dict(enumerate(nx)), "the main segment goes on with the long branch")
    for q in range(1, net.n):
        if seg[got[q]] == seg[got[q - 1]]:
            S.check(net.t[got[q]] > net.t[got[q - 1]], "one observation by date in a segment")
            S.check(gn[got[q - 1]] == got[q] and gp[got[q]] == got[q - 1], "a segment is a chain of links")


def dead_end(S, sizes, nets, trash, recursive, masked=False, sym=True):
    net = N.Net(S, sizes, nets, trash)
    nobs, ndays = S.choice("nobs", [0, 2, 3]), S.choice("ndays", [0, 3] if sym else [0])
    o = net.o
    mask = None
    protected = set()
    if masked:
        k = S.choice("k", list(range(trash, net.n)))
        mask = S.arr([q == k for q in range(net.n)], "?")
        protected = {net.owner[k]}
    o.remove_dead_end(nobs=nobs, ndays=ndays, recursive=recursive, mask=mask)
    kept = set(range(len(sizes)))
    for _ in range(recursive + 1):
        e = {(a, b) for a, b in net.edges() if a in kept and b in kept}
        keep2 = set()
        for s in kept:
            r = net.rows[s]
            ok = S.concrete(S.If(S.And(len(r) >= nobs, net.t[r[-1]] - net.t[r[0]] + 1 >= ndays), 1, 0))
            nb = len({a if b == s else b for a, b in e if s in (a, b)})
            if ok or nb >= 2 or s in protected:
                keep2.add(s)
        kept = keep2
    got = N.rows(S, o)
    S.check(sorted(got) == list(range(net.n)), "every observation stays in the dataset")
    pos = {k: q for q, k in enumerate(got)}
    for q, k in enumerate(got):
        s = net.owner[k]
        if s in kept:
            S.check(S.And(o.track[q] == net.net[k], o.segment[q] == net.seg[k]), "long segments and those between several others are kept")
            for l, f in ((net.nxt, "next_obs"), (net.prv, "previous_obs")):
                v = l[k]
                S.check(o[f][q] == (pos[v] if v != -1 and net.owner[v] in kept else -1), "links with kept segments are kept")
        else:
            S.check(S.And(o.track[q] == 0, o.segment[q] == 0, o.next_obs[q] == -1, o.previous_obs[q] == -1), "removed segments become untracked")


def analysis(S, sizes):
    """corrections before the computation of coherence"""
    NW = S.mod("observations.network")
    cls = NW.NetworkObservations
    seen = []

    def coherence(name):
        def f(self, date_function, uv_params, n_days, step_mesh):
            seen.append((name, self))
            return name + "_target", name + "_pct"

        return f

    keep = cls.segment_coherence_forward, cls.segment_coherence_backward
    cls.segment_coherence_forward, cls.segment_coherence_backward = coherence("f"), coherence("b")
    try:
        net = N.Net(S, sizes, [1] * len(sizes), concrete=True)
        ref = net.o.copy()
        mode = S.choice("mode", ["both", "forward", "backward"])
        d, c, r = S.choice("dissociate", [False, True]), S.choice("close", [0, 3]), S.choice("dead", [0, 2])
        new, res = net.o.analysis_coherence(None, None, advection_mode=mode, dissociate_network=d, correct_close_events=c, remove_dead_end=r)
    finally:
        cls.segment_coherence_forward, cls.segment_coherence_backward = keep
    S.check(res == ([] if mode == "backward" else ["f_target", "f_pct"]) + ([] if mode == "forward" else ["b_target", "b_pct"]), "results of the asked ways")
    if d:
        ref.dissociate_network()
    if c:
        ref.correct_close_events(c)
    if r:
        ref.remove_dead_end(0, r)
    ref.numbering_segment()
    S.check(N.rows(S, new) == N.rows(S, ref) and all(o is new for _, o in seen), "coherence is computed on the corrected network")
    for f in ("track", "segment", "next_obs", "previous_obs"):
        S.check([S.concrete(v) for v in new[f]] == [S.concrete(v) for v in ref[f]], "all corrections asked are applied: " + f)


def cases(tier):
    r = [("events_32", events, dict(sizes=[3, 2], nets=[1, 1], trash=0)), ("events_121", events, dict(sizes=[1, 2, 1], nets=[1, 1, 1], trash=1)), ("events_nets", events, dict(sizes=[2, 1, 1, 1], nets=[1, 1, 2, 2], trash=0)), ("events_trash", events, dict(sizes=[2, 1], nets=[2, 3], trash=2)),
         ("close_22", close, dict(sizes=[2, 2], nets=[1, 1])), ("close_31", close, dict(sizes=[3, 1], nets=[1, 1])),
         ("correct_33", correct, dict(sizes=[3, 3])), ("correct_122", correct, dict(sizes=[1, 2, 2])),
         ("dead_121", dead_end, dict(sizes=[1, 2, 1], nets=[1, 1, 1], trash=0, recursive=0)), ("dead_rec", dead_end, dict(sizes=[2, 1, 1], nets=[1, 1, 1], trash=1, recursive=1, sym=False)), ("dead_mask", dead_end, dict(sizes=[2, 1, 1], nets=[1, 1, 1], trash=0, recursive=1, masked=True, sym=False)), ("analysis", analysis, dict(sizes=[2, 1])),
         ("swap_32", swap, dict(sizes=[3, 2], kw={}, hi=11)), ("swap_211", swap, dict(sizes=[2, 1, 1], kw=dict(length_main_max_after_event=1, length_secondary_min_after_event=0, delta_pct_max=0.1), hi=2))]
    if tier != "quick":
        r += [("swap_212", swap, dict(sizes=[2, 1, 2], kw=dict(length_main_max_after_event=1, length_secondary_min_after_event=0, delta_pct_max=0.1), hi=2)), ("swap_42", swap, dict(sizes=[4, 2], kw={}, hi=11)), ("swap_33", swap, dict(sizes=[3, 3], kw=dict(length_main_max_after_event=3, length_secondary_min_after_event=2, delta_pct_max=-0.5), hi=3)),
              ("correct_212", correct, dict(sizes=[2, 1, 2])), ("correct_222", correct, dict(sizes=[2, 2, 2])), ("events_222", events, dict(sizes=[2, 2, 2], nets=[1, 1, 1], trash=1)), ("close_222", close, dict(sizes=[2, 2, 1], nets=[1, 1, 1])),
              ("dead_rec2", dead_end, dict(sizes=[2, 1, 1, 1], nets=[1, 1, 1, 1], trash=1, recursive=2, sym=False))]
    return r
