"""Shared by the tracking harnesses: an observation class whose links are chosen by the solver, and the
reference list of tracks."""


class World:
    """datasets of n observations each; the observation k of date t has a speed area of 1 + 8 * t + k (its identity)"""

    def __init__(self, S, sizes, nb_virtual, links=None, area=False, backward=False):
        self.backward = backward  # links given from the last observation (or prolonged one) to the first
        self.S, self.sizes, self.nb_virtual = S, sizes, nb_virtual
        self.step = 0
        self.tracks = []  # each: list of (date, identity or None, (lon, lat))
        self.costs = {}
        self.linked = {}
        O = S.mod("observations.observation")
        world = self

        class Obs(O.EddiesObservations):
            __slots__ = ()

            @classmethod
            def load_file(cls, name, *a, **k):
                name = int(name[1:-3]) if isinstance(name, str) else name
                o = cls(size=world.sizes[name])
                for k_ in range(world.sizes[name]):
                    x, y = world.pos(name, k_)
                    o.observations["lon"][k_] = x
                    o.observations["lat"][k_] = y
                    o.observations["speed_area"][k_] = world.uid(name, k_)
                    o.observations["time"][k_] = 100 + name
                o.sign_type = 1
                return o

            def tracking(self, other):
                return world.link(self, other)

        self.Obs = Obs

    @staticmethod
    def uid(t, k):
        return 1 + 8 * t + k

    def pos(self, t, k):
        # positions of a different speed for each observation, exact in single precision
        return 10.0 + t + 0.25 * k * (t + 1), 5.0 + 0.5 * t * k + 0.125 * (t * t)

    def date_of(self, uid):
        return (uid - 1) // 8, (uid - 1) % 8

    def link(self, prev, cur):
        S = self.S
        t = S.concrete(prev.time[0]) - 100 if len(prev) else self.step
        if t in self.linked:
            return self.answer(t)  # second tracking of the same dates
        S.check(t == self.step, "dates are linked in order")
        self.step += 1
        n_real, n_cur = self.sizes[t], self.sizes[t + 1]
        # candidates: real observations of date t, then tracks lost for 1 to nb_virtual dates
        amp = [S.concrete(prev["speed_area"][q]) for q in range(len(prev))]
        S.check(amp[:n_real] == [self.uid(t, k) for k in range(n_real)], "real observations come first")
        lost = {}
        for tr in self.tracks:
            d = t - tr[-1][0]
            if 1 <= d <= self.nb_virtual:
                lost[tr[-1][1]] = (tr, d)
        S.check(sorted(amp[n_real:]) == sorted(lost), "exactly the tracks lost for less than the allowed number of dates are prolonged")
        for q in range(n_real, len(prev)):
            tr, d = lost[amp[q]]
            (xa, ya), (xb, yb) = tr[-2][2], tr[-1][2]
            S.check(S.And(S.close(prev.lon[q], xb + d * (xb - xa)), S.close(prev.lat[q], yb + d * (yb - ya))), "prolonged at constant speed")
        got, used = [], []
        for j in range(n_cur):
            free = [-1] + [i for i in range(len(prev)) if i not in used]
            i = S.choice("m%d_%d" % (t, j), free)
            if i >= 0:
                used.append(i)
                got.append((i, j))
        got.sort(reverse=self.backward)
        for i, j in got:
            c = (1 + t + 4 * j) / 16.0
            u, v = amp[i], self.uid(t + 1, j)
            self.costs[v] = c
            tr = [x for x in self.tracks if x[-1][1] == u]
            if not tr:
                S.check(i < n_real, "a prolonged track is a known track")
                tr = [[(t, u, self.pos(t, i))]]
                self.tracks.append(tr[0])
            tr = tr[0]
            (xb, yb), t0 = tr[-1][2], tr[-1][0]
            if t0 < t:
                xa, ya = tr[-2][2]
                for d in range(1, t - t0 + 1):
                    tr.append((t0 + d, None, (xb + d * (xb - xa), yb + d * (yb - ya))))
            tr.append((t + 1, v, self.pos(t + 1, j)))
        self.linked[t] = got
        return self.answer(t)

    def answer(self, t):
        S, got = self.S, self.linked[t]
        return (S.arr([i for i, _ in got], "i8"), S.arr([j for _, j in got], "i8"),
                S.arr([(1 + t + 4 * j) / 16.0 for _, j in got], "f4"))

    def merged(self, eddies, tracks):
        """the final table holds exactly these tracks"""
        S = self.S
        n = len(eddies)
        S.check(n == sum(len(tr) for tr in tracks), "one row per date of each track")
        rows = [(S.concrete(eddies.tracks[q]), S.concrete(eddies["n"][q]), S.concrete(eddies["speed_area"][q]), S.concrete(eddies.time[q])) for q in range(n)]
        S.check([r[0] for r in rows] == sorted(r[0] for r in rows), "tracks are stored one after the other")
        got = {}
        for q, (k, p, a, tt) in enumerate(rows):
            got.setdefault(k, []).append((p, a, tt, q))
        S.check(sorted(got) == list(range(len(tracks))), "tracks are numbered without gap")
        ref = {tuple((t, u) for t, u, _ in tr): tr for tr in tracks}
        S.check(len(got) == len(ref), "as many tracks as chains of links")
        for k, g in got.items():
            S.check([p for p, *_ in g] == list(range(len(g))), "positions are numbered from the start of the track")
            first = g[0][1]
            key = [x for x in ref if x[0][1] == first]
            S.check(len(key) == 1, "each track starts where a chain of links starts")
            x = key[0]
            S.check(len(x) == len(g), "one row per date, lost dates included")
            for (t, u), (_, a, tt, q) in zip(x, g):
                if u is None:
                    S.check(a == 0 and tt == 0, "lost dates are left empty")
                    continue
                S.check(a == u and tt == 100 + t, "each observation is stored at its date in its track")
                px, py = self.pos(*self.date_of(u))
                S.check(S.And(S.close(eddies.lon[q], px), S.close(eddies.lat[q], py)), "fields of the observation")
                nxt = x[x.index((t, u)) + 1 :]
                if nxt:
                    c = self.costs[nxt[0][1]] if nxt[0][1] is not None else None
                    if c is not None and "cost_association" in eddies.fields:
                        S.check(S.close(eddies["cost_association"][q], c), "cost of the link leaving the observation")
