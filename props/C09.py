"""Area, convexity and convex hull of contours."""
from props.geo import cross

PROPERTY = "C09"


def BOUNDS(tier):
    return "area of every closed contour of %d vertices and convexity of every simple contour of 4 vertices with integer coordinates; hull of simple anti-clockwise contours of 4 to 7 vertices (convex and concave families) whose free vertex takes every integer place of a 13x13 square" % (6 if tier == "quick" else 8)


OUTSIDE = "larger contours, collinear vertices (convexity), float rounding"


def area(S, n):
    P = S.mod("poly")
    x = S.ints("x", n, -9, 9)
    y = S.ints("y", n, -9, 9)
    a = P.poly_area(S.arr([v * 1.0 for v in x + x[:1]], "f8"), S.arr([v * 1.0 for v in y + y[:1]], "f8"))
    b = P.poly_area_vertice(S.arr([(u * 1.0, v * 1.0) for u, v in zip(x + x[:1], y + y[:1])], "f8"))
    t = 0
    for i in range(1, n - 1):
        t = t + cross(x[0], y[0], x[i], y[i], x[i + 1], y[i + 1])
    t = S.If(t >= 0, t, -t)
    S.check(S.eqf(a * 2, t), "area of the contour")
    S.check(S.eqf(b * 2, t), "area of the vertices")


def turns(S, v):
    n = len(v)
    return [cross(*v[i], *v[(i + 1) % n], *v[(i + 2) % n]) for i in range(n)]


def simple4(S, v):
    """quadrilateral whose opposite edges do not cross"""

    def apart(a, b, c, d):
        return S.Not(S.And(cross(*a, *b, *c) * cross(*a, *b, *d) <= 0, cross(*c, *d, *a) * cross(*c, *d, *b) <= 0))

    return S.And(apart(v[0], v[1], v[2], v[3]), apart(v[1], v[2], v[3], v[0]))


def convex(S, lim):
    P = S.mod("poly")
    v = [(0, 0)] + [(S.int("x%d" % i, -lim, lim), S.int("y%d" % i, -lim, lim)) for i in range(3)]
    t = turns(S, v)
    S.assume(S.And([k != 0 for k in t]))
    S.assume(simple4(S, v))
    x = [p[0] * 1.0 for p in v + v[:1]]
    y = [p[1] * 1.0 for p in v + v[:1]]
    r = P.convex(S.arr(x, "f8"), S.arr(y, "f8"))
    r2 = P.convexs(S.arr([x], "f8"), S.arr([y], "f8"))
    e = S.Or(S.And([k > 0 for k in t]), S.And([k < 0 for k in t]))
    S.check(S.iff(r, e), "convex exactly when every turn is on the same side")
    S.check(S.iff(r2[0], e), "convexity of a list of contours")


FAMILY = {
    "quad": [None, (4, 0), (5, 4), (1, 5)],
    "penta": [(0, 0), (4, -1), (6, 3), None, (1, 5)],
    "dent2": [(0, 0), None, (6, 0), (7, 4), (4, 2), (3, 7), (0, 5)],
    "dent": [(0, 0), (3, 1), (6, 0), (5, 3), None, (3, 4), (1, 6)],
}


def hull(S, fam):
    P = S.mod("poly")
    base = FAMILY[fam]
    v = [(S.int("x%d" % k, -3, 9), S.int("y%d" % k, -3, 9)) if p is None else p for k, p in enumerate(base)]
    n = len(v)
    # anti-clockwise and simple
    t = 0
    for i in range(1, n - 1):
        t = t + cross(*v[0], *v[i], *v[i + 1])
    S.assume(t > 0)

    def meet(a, b, c, d):
        return S.And(cross(*a, *b, *c) * cross(*a, *b, *d) <= 0, cross(*c, *d, *a) * cross(*c, *d, *b) <= 0)

    for i in range(n):
        for j in range(i + 2, n):
            if (j + 1) % n != i:
                S.assume(S.Not(meet(v[i], v[i + 1], v[j], v[(j + 1) % n])))
    for i in range(n):  # no three vertices on a line
        for j in range(i):
            for k in range(j):
                S.assume(cross(*v[i], *v[j], *v[k]) != 0)
    hx, hy = P.get_convex_hull(S.arr([p[0] * 1.0 for p in v + v[:1]], "f8"), S.arr([p[1] * 1.0 for p in v + v[:1]], "f8"))
    m = len(hx)
    S.check(S.And(S.eqf(hx[0], hx[m - 1]), S.eqf(hy[0], hy[m - 1])), "the hull is closed")
    h = [(hx[k], hy[k]) for k in range(m - 1)]
    S.out("h", h)
    S.check(m - 1 >= 3, "the hull is a polygon")
    for p in h:
        S.check(S.Or([S.And(p[0] == q[0], p[1] == q[1]) for q in v]), "hull vertices are vertices of the contour")
    for k in range(m - 1):
        a, b = h[k], h[(k + 1) % (m - 1)]
        S.check(S.And([cross(*a, *b, *q) >= 0 for q in v]), "no vertex outside of the hull")


def cases(tier):
    r = [("area_%d" % n, area, dict(n=n)) for n in (3, 4, 6 if tier == "quick" else 8)]
    r.append(("convex", convex, dict(lim=3 if tier == "quick" else 5)))
    r += [("hull_" + f, hull, dict(fam=f)) for f in FAMILY]
    return r
