"""Networks of a few segments for the harnesses."""


class Net:
    """segments given by sizes; nets: network of each segment.  Rows are sorted by network, segment, date.
    Inside a segment rows are linked to their neighbours; the first row of a segment may come from
    (previous_obs) and the last row may go to (next_obs) a row of another segment of the same network,
    strictly before or after in time."""

    def __init__(self, S, sizes, nets, trash=0, hi=2, links=True, extra=None, segs=None, start=2, concrete=False):
        N = S.mod("observations.network")
        self.sizes, self.n = sizes, sum(sizes) + trash
        n = self.n
        kw = dict(track_extra_variables=extra) if extra else {}
        o = N.NetworkObservations(size=n, **kw)
        self.o = o
        self.seg, self.net, self.t, self.rows = [], [], [], []
        for k in range(trash):
            self.seg.append(0)
            self.net.append(0)
            self.t.append(100 + k)
        self.trash = trash
        for s, size in enumerate(sizes):
            self.rows.append(list(range(len(self.seg), len(self.seg) + size)))
            for q in range(size):
                self.seg.append(segs[s] if segs else s + 1)
                self.net.append(nets[s])
                self.t.append(S.int("t%d" % s, 100, 100 + start) if q == 0 else self.t[-1] + S.int("d%d_%d" % (s, q), 1, hi))
        self.owner = [None] * trash + [s for s, size in enumerate(sizes) for _ in range(size)]
        self.prv, self.nxt = [-1] * n, [-1] * n
        for r in self.rows:
            for a, b in zip(r, r[1:]):
                self.nxt[a], self.prv[b] = b, a
        if links:
            for s, r in enumerate(self.rows):
                others = [k for k in range(trash, n) if self.owner[k] != s and self.net[k] == nets[s]]
                for end, k in ((-1, r[0]), (1, r[-1])):
                    v = S.choice("%s%d" % ("p" if end < 0 else "n", s), [-1] + others)
                    (self.prv if end < 0 else self.nxt)[k] = v
                    if v != -1:
                        S.assume((self.t[v] - self.t[k]) * end > 0)
        if concrete:
            self.t = [S.concrete(v) for v in self.t]
        for k in range(n):
            o.track[k] = self.net[k]
            o.segment[k] = self.seg[k]
            o.time[k] = self.t[k]
            o.next_obs[k] = self.nxt[k]
            o.previous_obs[k] = self.prv[k]
            o["speed_area"][k] = 1 + k

    def events(self):
        """(stop, target) of merging and (origin, start) of splitting"""
        m = [(r[-1], self.nxt[r[-1]]) for r in self.rows if self.nxt[r[-1]] != -1]
        s = [(self.prv[r[0]], r[0]) for r in self.rows if self.prv[r[0]] != -1]
        return m, s

    def edges(self):
        """pairs of linked segments"""
        m, s = self.events()
        return {(self.owner[a], self.owner[b]) for a, b in m + s}

    def components(self, edges=None):
        c = list(range(len(self.sizes)))
        for a, b in edges or self.edges():
            x, y = c[a], c[b]
            c = [min(x, y) if v in (x, y) else v for v in c]
        return c


def rows(S, o):
    return [S.concrete(o["speed_area"][q]) - 1 for q in range(len(o))]


def links(S, o):
    return [S.concrete(o.next_obs[q]) for q in range(len(o))], [S.concrete(o.previous_obs[q]) for q in range(len(o))]


def check_links(S, net, new, kept, label="links"):
    """new holds the rows kept (in this order): links between kept rows survive, others are -1"""
    pos = {k: q for q, k in enumerate(kept)}
    pos[-1] = -1
    n, p = links(S, new)
    S.check(n == [pos.get(net.nxt[k], -1) for k in kept], label + ": next observation")
    S.check(p == [pos.get(net.prv[k], -1) for k in kept], label + ": previous observation")
