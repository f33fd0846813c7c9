"""Grouping of observations in networks."""
PROPERTY = "C25"


def BOUNDS(tier):
    return "up to %d observations over up to 4 dates, any interaction between observations of close dates, windows of 1 to 3 dates" % (7 if tier == "quick" else 9)


OUTSIDE = "larger sets; the overlap itself (given here by an arbitrary table, see C12 and C13); reading of the files (C16)"
ASSUMPTIONS = []


def components(n, pairs):
    c = list(range(n))
    for a, b in pairs:
        x, y = c[a], c[b]
        c = [min(x, y) if v in (x, y) else v for v in c]
    return c


def check_groups(S, gr, n, pairs):
    comp = components(n, pairs)
    alone = [comp.count(comp[k]) == 1 for k in range(n)]
    gr = [S.concrete(v) for v in gr]
    S.out("groups", gr)
    S.check(len(gr) == n, "one number by observation")
    for a in range(n):
        S.check((gr[a] == 0) == alone[a], "observations without interaction, and only them, are out of networks")
        for b in range(a):
            if not alone[a] and not alone[b]:
                S.check((gr[a] == gr[b]) == (comp[a] == comp[b]), "networks are exactly the sets of observations connected by interactions")


def group(S, counts, window):
    """Network.group_observations: the whole loop over dates"""
    N = S.mod("observations.network")
    O = S.mod("observations.observation")
    files, first, k = [], [], 0
    for c in counts:
        o = O.EddiesObservations(size=c, track_array_variables=1, array_variables=["contour_lon_s", "contour_lat_s", "contour_lon_e", "contour_lat_e"])
        first.append(k)
        for q in range(c):
            for f in o.array_variables:
                o[f][q, 0] = 1.0 * k
            k += 1
        files.append(o)
    n = k
    date = [d for d, c in enumerate(counts) for _ in range(c)]
    link = {(a, b): S.bool("l%d_%d" % (a, b)) for a in range(n) for b in range(a + 1, n) if 0 < date[b] - date[a] <= window}

    def pairs(x0, y0, x1, y1):
        return S.arr([i for i in range(len(x0)) for _ in range(len(x1))], "i4"), S.arr([j for _ in range(len(x0)) for j in range(len(x1))], "i4")

    def overlap(x0, y0, x1, y1, **kw):
        return S.arr([S.If(link[S.concrete(x0[i, 0]), S.concrete(x1[i, 0])], 1.0, 0.0) for i in range(len(x0))], "f8")

    N.bbox_intersection, N.vertice_overlap = pairs, overlap
    N.Singleton._instances.clear()
    net = N.Network.from_eddiesobservations(files, window=window)
    gr = net.group_observations()
    check_groups(S, gr, n, [p for p, v in link.items() if S.concrete(v)])


def translator(S, nb, k):
    N = S.mod("observations.network")
    duos = []
    for q in range(k):
        a = S.choice("a%d" % q, list(range(1, nb - 1)))
        duos.append((a, S.choice("b%d" % q, list(range(a + 1, nb)))))
    t = N.Network.group_translator(nb, set(duos))
    comp = components(nb, duos)
    t = [S.concrete(v) for v in t]
    for a in range(nb):
        for b in range(a):
            S.check((t[a] == t[b]) == (comp[a] == comp[b]), "joined numbers, and only them, get the same number")
    S.check(t[0] == 0, "0 stays out of groups")


def order(S, n):
    """new place of the observations when groups are gathered"""
    N = S.mod("observations.network")
    g = [S.concrete(v) for v in S.ints("g", n, 0, 3)]
    new = N.get_next_index(S.arr(g, "u4"))
    new = [S.concrete(v) for v in new]
    S.check(new == [sorted(range(n), key=lambda k: (g[k], k)).index(k) for k in range(n)], "groups are gathered, files order is kept in a group")


def build(S, counts):
    """Network.build_dataset: observations of the files, gathered by network"""
    N = S.mod("observations.network")
    T = S.mod("observations.tracking")
    n = sum(counts)
    gr = [S.concrete(v) for v in S.ints("g", n, 0, 2)]
    lon = S.ints("lon", n, -20, 20)
    first = [sum(counts[:q]) for q in range(len(counts))]
    opened = []

    def load(name, raw_data=None, **kw):
        f = int(str(name)[1])
        opened.append((f, raw_data))
        o = T.TrackEddiesObservations(size=counts[f], track_array_variables=2, array_variables=["contour_lon_e"])
        for q in range(counts[f]):
            k = first[f] + q
            o.lon[q], o.time[q], o["speed_area"][q] = lon[k], 100 + f, k + 1
            o["contour_lon_e"][q, 0], o["contour_lon_e"][q, 1] = lon[k], k
        o.sign_type = -1
        return o

    class Fake(T.TrackEddiesObservations):
        load_file = staticmethod(load)

    raw = S.choice("raw", [True, False])
    keep = N.TrackEddiesObservations
    N.TrackEddiesObservations = Fake
    try:
        net = N.Network.from_eddiesobservations(["f%d" % q for q in range(len(counts))])
        new = net.build_dataset(S.arr(gr, "u4"), raw_data=raw)
    finally:
        N.TrackEddiesObservations = keep
    S.check(all(r is raw for _, r in opened) and {f for f, _ in opened} == set(range(len(counts))), "every file is read, as asked")
    S.check(len(new) == n and new.sign_type == -1, "as many observations as in the files, same rotation")
    exp = sorted(range(n), key=lambda k: (gr[k], k))
    for q, k in enumerate(exp):
        S.check(S.And(new.lon[q] == lon[k], new["speed_area"][q] == k + 1, new.time[q] == 100 + [f for f in range(len(counts)) if first[f] <= k][-1]), "networks are gathered, in the order of the files")
        S.check(S.And(new["contour_lon_e"][q, 0] == lon[k], new["contour_lon_e"][q, 1] == k), "with their contours")
        S.check(new.track[q] == gr[k], "each observation has the number of its network")


def segments(S, n):
    """one number by (network, segment)"""
    N = S.mod("observations.network")
    ids, seg = S.ints("i", n, 0, 3), S.ints("s", n, 0, 3)
    for k in range(1, n):
        S.assume(S.Or(ids[k] > ids[k - 1], S.And(ids[k] == ids[k - 1], seg[k] >= seg[k - 1])))
    u = N.build_unique_array(S.arr(seg, "u4"), S.arr(ids, "u4"))
    S.check(u[0] == 0, "first number")
    for k in range(1, n):
        S.check(u[k] == u[k - 1] + S.If(S.And(ids[k] == ids[k - 1], seg[k] == seg[k - 1]), 0, 1), "a new number at each change of segment")


def cases(tier):
    r = [("group_222_w1", group, dict(counts=[2, 2, 2], window=1)), ("group_212_w2", group, dict(counts=[2, 1, 2], window=2)), ("group_1111_w3", group, dict(counts=[1, 1, 1, 1], window=3)),
         ("group_13_w1", group, dict(counts=[1, 3], window=1)), ("group_31_w1", group, dict(counts=[3, 1], window=1)), ("group_33_w1", group, dict(counts=[3, 3], window=1)), ("group_202", group, dict(counts=[2, 0, 2], window=2)),
         ("translator", translator, dict(nb=5, k=3)), ("order", order, dict(n=5)), ("segments", segments, dict(n=6)), ("build", build, dict(counts=[2, 1, 1]))]
    if tier != "quick":
        r += [("group_2222", group, dict(counts=[2, 2, 2, 2], window=2)), ("group_232", group, dict(counts=[2, 3, 2], window=2)), ("group_222_w2", group, dict(counts=[2, 2, 2], window=2)), ("translator_4", translator, dict(nb=6, k=4)), ("order_6", order, dict(n=6))]
    return r
