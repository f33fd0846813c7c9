"""Particles of the contours: creation, targets, percentages and dates."""
PROPERTY = "C34"


def BOUNDS(tier):
    n = 5 if tier == "quick" else 7
    return "targets: every destination of up to %d particles released from up to 2 contours towards up to 3 contours, any previous content order; large counts (up to 127 particles per couple) for 1 contour and 3 targets; meshes: every triangle of a 1/4 grid over 3x2 cells, in any of 3 places; one step: 3 particles sent into, between or out of 3 contours or lost, for arrays of contours or for a network; atlas: up to 4 observations on 4 dates with advections of -3 to 3 days; dates of coherence: periods of 1 to 5 dates, 1 to 4 days" % n


OUTSIDE = "advection itself (C05, C33), positions in contours (C06, C08), particles exactly on the edge of a contour, several dates per day"
ASSUMPTIONS = ["the series of grids is replaced by an object which records the calls and gives symbolic positions"]


def expect(S, counts, ref, i, i_target, pct, scale, tol=1e-6, ids=None, label=""):
    """two best targets of row i: counts[j]/ref, strictly positive, in decreasing order"""
    nb = len(counts)
    ids = ids or list(range(nb))
    t0, t1 = i_target[i, 0], i_target[i, 1]
    p0, p1 = pct[i, 0], pct[i, 1]
    for k, (t, p) in enumerate(((t0, p0), (t1, p1))):
        ok = S.And(t == -1, p == 0)
        for j in range(nb):
            exact = counts[j] * 100.0 - p * ref
            ok = S.Or(ok, S.And(t == ids[j], counts[j] > 0, exact <= tol * ref if not scale else exact < ref, exact >= -tol * ref))
        S.check(ok, label + "a target and its percentage of the released particles, or no target and 0")
    c0 = S.sum([S.If(t0 == ids[j], counts[j], 0) for j in range(nb)])
    c1 = S.sum([S.If(t1 == ids[j], counts[j], 0) for j in range(nb)])
    S.check(S.Or(t0 != t1, t0 == -1), label + "the two targets are different")
    S.check(c0 >= c1, label + "the first target received the most particles")
    for j in range(nb):
        S.check(S.Or(t0 == ids[j], S.And(counts[j] <= c0, S.Or(t1 == ids[j], counts[j] <= c1))), label + "no contour received more than the targets")


def targets(S, n, nb_start, nb_end, how, dt):
    G = S.mod("observations.groups")
    i_start = S.ints("s", n, 0, nb_start - 1)
    i_end = S.ints("e", n, -1, nb_end - 1)
    # particles are created contour after contour
    for a, b in zip(i_start, i_start[1:]):
        S.assume(a <= b)
    N = S.np
    if how == "targets":
        tr0, tr1, size = list(range(nb_start)), list(range(nb_end)), nb_start
        i_target, pct = N.full((nb_start, 2), -1, dtype="i4"), N.zeros((nb_start, 2), dtype=dt)
        G.get_targets(S.arr(i_start, "i4"), S.arr(i_end, "i4"), i_target, pct, nb_end)
    else:
        tr0, tr1, size = [1, 3][:nb_start], [4, 2, 5][:nb_end], 6
        i_target, pct = N.full((size, 2), -1, dtype="i4"), N.zeros((size, 2), dtype=dt)
        r = G.get_matrix(S.arr(i_start, "i4"), S.arr(i_end, "i4"), S.arr(tr0, "i8"), S.arr(tr1, "i8"), i_target, pct)
        S.check(len(r) == 2, "targets and percentages are returned")
    S.out("t", i_target)
    S.out("p", pct)
    for a in range(nb_start):
        counts = [S.sum([S.If(S.And(s == a, e == j), 1, 0) for s, e in zip(i_start, i_end)]) for j in range(nb_end)]
        ref = S.sum([S.If(s == a, 1, 0) for s in i_start])
        expect(S, counts, ref, tr0[a], i_target, pct, dt == "i1", ids=tr1)
    for k in range(size):
        if k not in tr0:
            S.check(S.And(i_target[k, 0] == -1, i_target[k, 1] == -1, pct[k, 0] == 0, pct[k, 1] == 0), "other observations are left as they are")


def large(S, how, dt, nb):
    """as many particles as wanted per couple: positions are repeated"""
    G = S.mod("observations.groups")
    base = S.choice("base", [1, 100, 110])
    q = [base + S.concrete(S.int("q%d" % j, 0, 4)) for j in range(nb)]
    lost = S.concrete(S.int("lost", 0, 2))
    i_end = [j for j in range(nb) for _ in range(q[j])] + [-1] * lost
    i_start = [0] * len(i_end)
    N = S.np
    i_target, pct = N.full((1, 2), -1, dtype="i4"), N.zeros((1, 2), dtype=dt)
    a = S.arr(i_start, "i4"), S.arr(i_end, "i4")
    if how == "targets":
        G.get_targets(*a, i_target, pct, nb)
    else:
        G.get_matrix(*a, S.arr([0], "i8"), S.arr(list(range(nb)), "i8"), i_target, pct)
    expect(S, q, len(i_end), 0, i_target, pct, dt == "i1")


def mesh(S, lon, lat, step, den):
    """particles of a triangle and of a box next to it"""
    P = S.mod("poly")
    w, h = 3 * step, 2 * step
    off = step / 3  # no node on an edge of the box
    x = [lon + off + S.int("x%d" % k, 0, 3 * den) * (step / den) for k in range(2)]
    y = [lat + off + S.int("y%d" % k, 0, 2 * den) * (step / den) for k in range(2)]
    S.assume(S.And(x[0] < x[1], y[0] < y[1]))
    tx = [lon - off, lon + w + off, lon - off, lon - off, lon - off]
    ty = [lat - off, lat - off, lat + h + off, lat - off, lat - off]
    bx, by = [x[0], x[1], x[1], x[0], x[0]], [y[0], y[0], y[1], y[1], y[0]]
    ox, oy, oi = P.create_meshed_particles(S.arr([bx, tx], "f8"), S.arr([by, ty], "f8"), step)
    n = len(ox)
    S.check(S.And(len(oy) == n, len(oi) == n), "as many coordinates")
    S.out("n", n)
    got = []
    for k in range(n):
        i = S.concrete(oi[k])
        found = None
        for a in range(-2, 7):
            for b in range(-2, 6):
                if bool(S.And(S.close(ox[k], lon + a * step, 1e-9), S.close(oy[k], lat + b * step, 1e-9))):
                    found = (i, a, b)
        S.check(found is not None, "particles are on the nodes of the mesh")
        got.append(found)
    S.check(len(set(got)) == n, "a node gives one particle per contour")
    S.check([g[0] for g in got] == sorted(g[0] for g in got), "contour after contour")
    for a in range(-2, 7):
        for b in range(-2, 6):
            X, Y = lon + a * step, lat + b * step
            ins = S.And(X > x[0], X < x[1], Y > y[0], Y < y[1])
            S.check(S.iff(ins, (0, a, b) in got), "exactly the nodes inside the first contour")
            # below the diagonal of the triangle
            u, v = (a + 1 / 3.0) / (3 + 2 / 3.0), (b + 1 / 3.0) / (2 + 2 / 3.0)
            S.check((a >= 0 and b >= 0 and u + v < 1) == ((1, a, b) in got), "exactly the nodes inside the second contour")


class Cube:
    def __init__(self, S, end):
        self.S, self.end, self.calls, self.steps = S, end, [], 0

    def advect(self, x, y, *a, **k):
        self.calls.append((x, y, a, k))
        while True:
            self.steps += 1
            q = self.S.np.full(len(x), 30.0, dtype="f8")
            e = self.end(self.steps)
            for i in range(len(x)):
                q[i] = e[0][i]
            r = self.S.np.full(len(x), 30.0, dtype="f8")
            for i in range(len(x)):
                r[i] = e[1][i]
            yield 86400 * 7, q, r


def step_(S, dt):
    """each contour of the first date holds one or two nodes of the mesh"""
    G = S.mod("observations.groups")

    def box(x, y, w, h):
        return [x, x + w, x + w, x, x], [y, y, y + h, y + h, y]

    c0 = [box(0.5, 0.5, 2.0, 1.0), box(4.5, 0.5, 1.0, 1.0)]
    c1 = [box(9.5, 0.5, 2.0, 2.0), box(12.5, 0.5, 1.0, 1.0), box(10.5, 0.5, 0.75, 1.0)]
    ex = [S.int("x0", 9, 13), S.int("x1", 9, 13), S.choice("x2", [10, 13]) if dt == 1 else 13]
    ey = [1, S.choice("y1", [1, 3]) if dt == 1 else 1, 1]
    lost = [False, S.bool("l1"), False]
    nan = float("nan")
    lost = [bool(v) for v in lost]

    def end(k):
        if k != abs(dt):
            return [20.0] * 3, [20.0] * 3
        return [nan if l else v * 1.0 for v, l in zip(ex, lost)], [nan if l else v * 1.0 for v, l in zip(ey, lost)]

    cube = Cube(S, end)
    A = lambda c, k: S.arr([v[k] for v in c], "f8")  # noqa: E731
    t, p = G.particle_candidate_step(37, [A(c0, 0), A(c0, 1)], [A(c1, 0), A(c1, 1)], 1.0, dt, cube, day_fraction=4, u_name="uu", v_name="vv", backward=dt < 0)
    S.check(len(cube.calls) == 1 and cube.steps == abs(dt), "one advection of the asked number of days")
    x, y, a, k = cube.calls[0]
    S.check([(float(i), float(j)) for i, j in zip(x, y)] == [(1.0, 1.0), (2.0, 1.0), (5.0, 1.0)], "particles start on the mesh of their contour")
    S.check(not a and k == dict(t_init=37, u_name="uu", v_name="vv", backward=dt < 0, nb_step=4, time_step=86400 / 4), "options are given to the advection, a release per day")
    S.check(S.And(t.shape[0] == 2, t.shape[1] == 2, p.shape[0] == 2), "one line per contour of departure")

    def which(q):
        if lost[q]:
            return -1
        X, Y = ex[q], ey[q]
        in0 = S.And(X >= 10, X <= 11, Y <= 2)
        in1 = S.And(X == 13, Y == 1)
        return S.If(in0, 0, S.If(in1, 1, -1))

    w = [which(q) for q in range(3)]
    for a, qs in ((0, [0, 1]), (1, [2])):
        counts = [S.sum([S.If(w[q] == j, 1, 0) for q in qs]) for j in range(3)]
        expect(S, counts, len(qs), a, t, p, True)


def candidate(S, dt, start, end):
    """one date of a network: contours of the date, advection, contours of the last date"""
    G = S.mod("observations.groups")
    N = S.mod("observations.network")
    D = 15000

    def box(x, y, w, h):
        return [x, x + w, x + w, x, x], [y, y, y + h, y + h, y]

    # row: date, effective and speed contours
    rows = [(D + dt, box(9.5, 0.5, 2.0, 1.0), box(9.5, 0.5, 1.0, 1.0)), (D, box(0.5, 0.5, 2.0, 1.0), box(0.5, 0.5, 1.0, 1.0)), (D + 2 * dt, box(0.5, 0.5, 2.0, 1.0), box(0.5, 0.5, 2.0, 1.0)),
            (D, box(4.5, 0.5, 1.0, 1.0), box(3.5, 0.5, 2.0, 1.0)), (D + dt, box(12.5, 0.5, 1.0, 1.0), box(12.5, 0.5, 1.0, 1.0)), (D - dt, box(9.5, 0.5, 4.0, 1.0), box(9.5, 0.5, 4.0, 1.0))]
    o = N.NetworkObservations(size=6, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    for k, (t, e, s) in enumerate(rows):
        o.time[k], o.track[k], o.segment[k] = t, 1, 1 + k
        for c, f in ((e, "e"), (s, "s")):
            for q in range(5):
                o["contour_lon_" + f][k, q], o["contour_lat_" + f][k, q] = c[0][q], c[1][q]
    nodes = {1: [(1.0, 1.0), (2.0, 1.0)] if start == "effective" else [(1.0, 1.0)], 3: [(5.0, 1.0)] if start == "effective" else [(4.0, 1.0), (5.0, 1.0)]}
    ex = [S.int("x%d" % q, 9, 13) for q in range(3)]
    lost = S.bool("lost")
    lost = bool(lost)
    calls = []

    class C:
        def advect(self, x, y, **kw):
            calls.append(([(float(a), float(b)) for a, b in zip(x, y)], kw))
            for k in range(1, 9):
                a, b = S.np.full(len(x), 50.0, dtype="f8"), S.np.full(len(x), 50.0, dtype="f8")
                if k == abs(dt):
                    for q in range(len(x)):
                        a[q], b[q] = (float("nan"), float("nan")) if lost and q == 1 else (ex[q] * 1.0, 1.0)
                yield (D + (k if dt > 0 else -k)) * 86400, a, b

    i_target, pct = S.np.full((6, 2), -1, dtype="i4"), S.np.zeros((6, 2), dtype="i1")
    G.particle_candidate(C(), o, 1.0, D, i_target, pct, contour_start=start, contour_end=end, n_days=dt, u_name="uu", v_name="vv")
    S.check(len(calls) == 1 and calls[0][0] == nodes[1] + nodes[3], "particles start from the asked contour of the observations of the date")
    S.check(calls[0][1] == dict(dict(backward=True) if dt < 0 else {}, u_name="uu", v_name="vv", t_init=D, nb_step=6, time_step=86400 / 6), "options are given to the advection, one position by day")
    w = []
    for q in range(3):
        in0 = S.Or(ex[q] == 10, ex[q] == 11) if end == "effective" else ex[q] == 10
        w.append(-1 if lost and q == 1 else S.If(in0, 0, S.If(ex[q] == 13, 4, -1)))
    a = len(nodes[1])
    for row, qs in ((1, range(a)), (3, range(a, 3))):
        counts = [S.sum([S.If(w[q] == j, 1, 0) for q in qs]) for j in (0, 4)]
        expect(S, counts, len(qs), row, i_target, pct, True, ids=[0, 4])
    for row in (0, 2, 4, 5):
        S.check(S.And(i_target[row, 0] == -1, i_target[row, 1] == -1, pct[row, 0] == 0, pct[row, 1] == 0), "observations of other dates are left as they are")


def atlas(S, nobs, dt, fill):
    """every pair of dates of the period is examined once, with the observations of these dates"""
    G = S.mod("observations.groups")
    N = S.mod("observations.network")
    days = S.ints("t", nobs, 0, 3)
    S.assume(S.Or([t == 0 for t in days]))
    o = N.NetworkObservations(size=nobs, track_array_variables=2, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    T0 = 20000
    for k in range(nobs):
        o.time[k] = T0 + days[k]
        o.track[k] = 1
    days = [S.concrete(t) for t in days]
    last = max(days)
    calls = []
    nf = []
    cube = object()
    loc = {}

    def cb(network, i_target, pct, i0, i1, start_intern, end_intern, t_start, **kw):
        calls.append((t_start, [S.concrete(v) for v in i0], [S.concrete(v) for v in i1]))
        S.check(network is o and start_intern is True and end_intern is False and kw == dict(space_step=0.25, dt=dt, c=cube, opt=3), "options are given")
        nf.append((i_target, pct))
        return len(calls)

    def fin(results, indexs, i_target, pct):
        S.check(results == list(range(1, len(calls) + 1)) and set(indexs) == set(results), "results of every pair of dates are given")
        S.check(all(a is i_target and b is pct for a, b in nf), "one table is filled")
        loc["fin"] = True

    def fake(contours_start, contours_end, t_start, **kw):
        i0 = [S.concrete(v) for v in contours_start[0][:, 0]]
        i1 = [S.concrete(v) for v in contours_end[0][:, 0]]
        calls.append((t_start, i0, i1))
        t, p = S.np.full((len(i0), 2), -1, dtype="i4"), S.np.zeros((len(i0), 2), dtype="i1")
        for a, g in enumerate(i0):
            for q in range(2):
                v = S.int("r%d_%d" % (g, q), -1, 3)
                S.assume(v < len(i1))
                v = S.concrete(v)
                t[a, q] = v
                p[a, q] = 10 * (q + 1) + g
                loc[g, q] = -1 if v == -1 else i1[v]
        return t, p

    if fill:
        for k in range(nobs):
            for f in ("contour_lon_e", "contour_lon_s", "contour_lat_e", "contour_lat_s"):
                o[f][k, :] = k
        old = G.particle_candidate_step
        G.particle_candidate_step = fake
        try:
            r = o.particle_candidate_atlas(cube, 0.25, dt, start_intern=True, end_intern=False)
        finally:
            G.particle_candidate_step = old
    else:
        r = o.particle_candidate_atlas(cube, 0.25, dt, start_intern=True, end_intern=False, callback_coherence=cb, finalize_coherence=fin, opt=3)
        S.check("fin" in loc, "results are finalized")
    i_target, pct = r
    S.check(S.And(i_target.shape[0] == nobs, i_target.shape[1] == 2, pct.shape[0] == nobs), "one line per observation")
    exp = []
    for a in range(0, last + 1):
        if 0 <= a + dt <= last:
            i0 = [k for k in range(nobs) if days[k] == a]
            i1 = [k for k in range(nobs) if days[k] == a + dt]
            if i0 and i1:
                exp.append((T0 + a, i0, i1))
    got = [(int(t), sorted(a), sorted(b)) for t, a, b in calls]
    S.check(got == exp, "each date whose end of advection is in the period, once, with the observations of both dates")
    done = {k for _, i0, _ in exp for k in i0}
    for k in range(nobs):
        for q in range(2):
            e = (loc[k, q], 10 * (q + 1) + k) if fill and k in done else (-1, 0)
            S.check(S.And(i_target[k, q] == e[0], pct[k, q] == e[1]), "targets are the numbers of the observations in the dataset")


def coherence(S, forward):
    """dates and files used by the coherence of segments"""
    N = S.mod("observations.network")
    p = S.concrete(S.int("period", 0, 4))
    n_days = S.concrete(S.int("n_days", 1, 4))
    T0 = 21000
    o = N.NetworkObservations(size=2)
    o.time[0], o.time[1] = T0, T0 + p
    o.track[0] = o.track[1] = 1
    calls = []

    class FakeCube:
        @classmethod
        def from_netcdf_list(cls, files, dates, **kw):
            c = cls()
            c.files = dict(zip([int(d) for d in dates], files))
            S.check(len(files) == len(dates) and kw == dict(a=1), "files and parameters are given")
            return c

        def shift_files(self, t, filename, **kw):
            S.check(kw == dict(a=1), "parameters are given")
            self.files.pop(min(self.files))
            self.files[int(t)] = filename

    def fake(c, eddies, step, t, i_target, pct, n_days=None, contour_start=None, contour_end=None, **kw):
        calls.append((int(t), dict(c.files), n_days, contour_start, contour_end, step, kw))
        S.check(eddies is o, "observations are given")
        i_target[0, 0] = i_target[0, 0] + 1
        pct[1, 1] = 7

    old = N.GridCollection, N.particle_candidate
    N.GridCollection, N.particle_candidate = FakeCube, fake
    try:
        f = o.segment_coherence_forward if forward else o.segment_coherence_backward
        r = f(lambda d: "f%d" % d, dict(a=1), n_days=n_days, step_mesh=0.5, contour_start="effective", contour_end="speed")
    finally:
        N.GridCollection, N.particle_candidate = old
    exp = range(T0, T0 + p - n_days + 1) if forward else range(T0 + n_days, T0 + p + 1)
    S.check([c[0] for c in calls] == list(exp), "each date with enough dates around it, once")
    for t, files, n, c0, c1, st, kw in calls:
        need = range(t, t + n_days + 1) if forward else range(t - n_days, t + 1)
        S.check(all(files.get(d) == "f%d" % d for d in need), "the files of every date of the advection are there")
        S.check((n, c0, c1, st, kw) == (n_days if forward else -n_days, "effective", "speed", 0.5, {}), "options are given")
    it, pt = r
    S.check(S.And(it.shape[0] == 2, it[0, 0] == len(calls) - 1, it[1, 0] == -1, pt[1, 1] == (7 if calls else 0), pt[0, 0] == 0), "targets and percentages are returned")


def cases(tier):
    q = tier == "quick"
    r = []
    n = 5 if q else 7
    for how in ("targets", "matrix"):
        for dt in ("f8", "i1"):
            if how == "targets" and dt == "i1":
                continue
            r.append(("%s_1_3_%s" % (how, dt), targets, dict(n=n, nb_start=1, nb_end=3, how=how, dt=dt)))
            r.append(("%s_2_2_%s" % (how, dt), targets, dict(n=n - 1, nb_start=2, nb_end=2, how=how, dt=dt)))
            r.append(("%s_none_%s" % (how, dt), targets, dict(n=2, nb_start=2, nb_end=0, how=how, dt=dt)))
            r.append(("%s_large_%s" % (how, dt), large, dict(how=how, dt=dt, nb=3)))
    for k, (lon, lat, st) in enumerate(((10.0, 20.0, 0.5), (-3.0, -1.0, 1.0), (359.0, 0.0, 0.25))):
        r.append(("mesh%d" % k, mesh, dict(lon=lon, lat=lat, step=st, den=1 if q else 2)))
    for dt in (1, 3, -2):
        r.append(("step_%d" % dt, step_, dict(dt=dt)))
    for dt, a, b in ((1, "speed", "effective"), (-2, "effective", "speed"), (3, "effective", "effective")):
        r.append(("candidate_%d" % dt, candidate, dict(dt=dt, start=a, end=b)))
    for dt in (-3, -1, 1, 2, 3):
        r.append(("atlas_%d" % dt, atlas, dict(nobs=3 if q else 4, dt=dt, fill=False)))
    for dt in (-1, 1):
        r.append(("atlas_fill_%d" % dt, atlas, dict(nobs=3, dt=dt, fill=True)))
    r.append(("coherence_forward", coherence, dict(forward=True)))
    r.append(("coherence_backward", coherence, dict(forward=False)))
    return r
