"""Extrema and amplitude of a contour."""
PROPERTY = "C31"


def BOUNDS(tier):
    return "regions of up to %s pixels in boxes of up to %s (also across the edge of a global grid), every height on 4 to 6 levels, masked pixels around, 1 or 2 extrema allowed, thresholds of 0 to 2 intervals, both signs" % (("9", "5x5") if tier == "quick" else ("12", "6x5"))


OUTSIDE = "larger regions (the code only looks at neighbours and groups of equal neighbours); differences below 1e-8"
ASSUMPTIONS = ["the region does not touch the edge of its box (isolines never do)"]
# pixels of the contour in the interior of the box
REGIONS = {
    "square": (5, 5, [(i, j) for i in (1, 2, 3) for j in (1, 2, 3)]),
    "flat": (3, 6, [(1, j) for j in (1, 2, 3, 4)]),
    "hook": (5, 5, [(1, 1), (2, 1), (3, 1), (3, 2), (3, 3), (1, 2), (1, 3)]),
    "corner": (5, 4, [(1, 1), (2, 1), (2, 2), (3, 2)]),
    "wide": (5, 6, [(i, j) for i in (1, 2, 3) for j in (1, 2, 3, 4)]),
}

# pixels around which could be masked
HIDE = {"square": [], "flat": [(0, 1)], "hook": [(2, 2)], "corner": [(1, 0)], "wide": []}
# pixels around which are free (quick)
RING = {"square": [(0, 2)], "flat": [(0, 1), (2, 2), (1, 5)], "hook": [(2, 2), (2, 0)], "corner": [(1, 0), (1, 2), (4, 2)]}


def comps(E):
    left, out = list(E), []
    while left:
        g, st = [], [left.pop(0)]
        while st:
            a = st.pop()
            g.append(a)
            for b in list(left):
                if abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1:
                    left.remove(b)
                    st.append(b)
        out.append(sorted(g))
    return out


def extremal(S, h, mask, C, sign):
    """condition for each pixel of the region: nobody around is beyond"""
    r = {}
    for i, j in C:
        around = [(a, b) for a in (i - 1, i, i + 1) for b in (j - 1, j, j + 1)]
        r[i, j] = S.And([S.Or(mask[p], h[p] * sign >= h[i, j] * sign) for p in around] + [S.Not(mask[i, j])])
    return r


def field(S, region, top, outmask, ring, rest):
    """ring: pixels around which are free (None: all)"""
    nx, ny, C = REGIONS[region]
    h, m = {}, {}
    for i in range(nx):
        for j in range(ny):
            near = any(abs(i - a) <= 1 and abs(j - b) <= 1 for a, b in C)
            near = near and (ring is None or (i, j) in C or (i, j) in ring)
            h[i, j] = S.int("h%d_%d" % (i, j), 0, top) if near else rest
            m[i, j] = S.bool("m%d_%d" % (i, j)) if (i, j) in outmask else False
    return nx, ny, C, h, m


def grid_of(S, nx, ny, h, m, f=lambda v: v):
    return S.arr([[f(h[i, j]) for j in range(ny)] for i in range(nx)], "f8"), S.arr([[m[i, j] for j in range(ny)] for i in range(nx)], "?")


def detect(S, region, top, sign, mle, outmask, ring):
    F = S.mod("eddy_feature")
    nx, ny, C, h, m = field(S, region, top, outmask, ring, top if sign == 1 else 0)
    d, mk = grid_of(S, nx, ny, h, m)
    pix = S.arr([[(i, j) in C for j in range(ny)] for i in range(nx)], "?")
    xs, ys = F.detect_local_minima_(d, mk, pix, mle, sign)
    got = [(int(a), int(b)) for a, b in zip(xs, ys)]
    S.out("got", got)
    S.check(len(set(got)) == len(got), "no extremum twice")
    S.check(all(p in C for p in got), "extrema are in the contour")
    e = extremal(S, h, m, C, sign)
    E = [p for p in C if S.concrete(e[p])]
    S.check(set(got) <= set(E), "extrema are pixels which nothing exceeds around")
    if len(E) <= mle:
        S.check(sorted(got) == sorted(E), "all extrema are found")
    else:
        for g in comps(E):
            S.check(len([p for p in got if p in g]) == 1, "one position per group of neighbours of the same height")


class Contour:
    def __init__(self, S, pixels, sl):
        self.pixels_index = S.arr([p[0] for p in pixels], "i8"), S.arr([p[1] for p in pixels], "i8")
        self.bbox_slice = sl


def amplitude(S, region, top, sign, mle, nmin, nsec, where_, outmask, inmask, ring):
    """heights of the region and around it (levels from 0, the contour at level q)"""
    F = S.mod("eddy_feature")
    nx, ny, C, h, m = field(S, region, top, outmask, ring, 0)
    if inmask:
        m[C[0]] = S.bool("hidden")
    h0 = S.choice("h0", [0, 1])
    # around the region, heights are on the other side of the contour
    for p in h:
        if p not in C:
            S.assume(S.Or(m[p], h[p] < h0 + 1 if h0 == 0 else h[p] < h0))
    step = 0.25
    f = lambda v: v * step * sign
    NX, NY = nx + 3, ny + 2
    ox = {"in": 1, "edge": NX - 2, "low": 0}[where_]
    oy = 0 if where_ == "low" else 1
    at = lambda i, j: ((i + ox) % NX, j + oy)
    d = [[9.0 * sign] * NY for _ in range(NX)]
    mk = [[False] * NY for _ in range(NX)]
    for i in range(nx):
        for j in range(ny):
            a, b = at(i, j)
            d[a][b], mk[a][b] = f(h[i, j]), m[i, j]
    data = S.masked(S.arr(d, "f8"), S.arr(mk, "?"))
    before = [list(r) for r in d]
    stop = ox + nx if ox + nx <= NX else ox + nx - NX
    c = Contour(S, [at(*p) for p in C], ((ox, stop), (oy, oy + ny)))
    amp = F.Amplitude(c, h0 * step * sign, data, step, mle=mle, nb_step_min=nmin, nb_step_to_be_mle=nsec)
    r = (amp.all_pixels_above_h0 if sign == 1 else amp.all_pixels_below_h0)(h0 * step * sign)
    ok = S.And([S.Not(m[p]) for p in C] + [h[p] >= h0 for p in C])
    ok = S.concrete(ok)
    if ok:
        e = extremal(S, h, m, C, -1)
        groups = comps([p for p in C if S.concrete(e[p])])
        # at least as high as the secondary extrema threshold
        real = S.sum([S.If((h[g[0]] - h0) >= nsec, 1, 0) for g in groups])
        ok = len(groups) > 0 and (len(groups) == 1 or S.concrete(real <= mle))
    if not ok:
        S.check(r is False and amp.amplitude == 0, "contour refused")
        S.check(not amp.within_amplitude_limits() or nmin == 0, "contour refused")
    else:
        S.check(r is not False, "contour kept")
        if r is False:
            return
        i, j = (S.concrete(v) for v in r)
        p = (i - ox, j - oy)
        S.check(p in C, "centre in the contour")
        high = h[C[0]]
        for q in C:
            high = S.max(high, h[q])
        S.check(S.close(amp.amplitude, (high - h0) * step, 1e-9), "amplitude is the height of the highest pixel")
        S.check(h[p] == high, "centre on the highest pixel")
        S.check(S.iff(amp.within_amplitude_limits(), high - h0 >= nmin), "amplitude threshold")
    for i in range(NX):
        for j in range(NY):
            S.check(S.Or(data.mask[i, j], data.data[i, j] == before[i][j]), "grid unchanged")


def cases(tier):
    out = []
    q = tier == "quick"
    for region in ("square", "flat", "hook", "corner") + (() if q else ("wide",)):
        for sign in (1, -1):
            for mle in (1, 2):
                if q and region in ("square", "hook") and sign == (1 if mle == 2 else -1):
                    continue
                out.append(("detect-%s-%d-%d" % (region, sign, mle), detect, dict(region=region, top=2 if region in ("square", "wide") else 3, sign=sign, mle=mle, outmask=HIDE[region] if q else HIDE[region] + [(1, 0)], ring=RING[region] if q else None)))
    k = 0
    for region in ("square", "flat", "hook", "corner") + (() if q else ("wide",)):
        for sign in (1, -1):
            for mle in (1, 2):
                k += 1
                if q and (region, sign, mle) in (("square", 1, 1), ("square", -1, 2), ("square", 1, 2), ("hook", 1, 1), ("hook", -1, 2)):
                    continue
                out.append(("amplitude-%s-%d-%d" % (region, sign, mle), amplitude, dict(region=region, top=3 if region != "wide" else 2, sign=sign, mle=mle, nmin=(2, 1, 0)[k % 3], nsec=2 - k % 2, where_=("in", "edge", "low")[(k + k // 3) % 3], outmask=HIDE[region] if k % 2 else [], inmask=k % 2, ring=RING[region] if q else None)))
    return out
