"""Oracles shared by the polygon harnesses (stdlib only, both interpreters)."""


def cross(ax, ay, bx, by, px, py):
    return (bx - ax) * (py - ay) - (px - ax) * (by - ay)


def on_segment(S, a, b, p):
    c = cross(*a, *b, *p)
    d = (a[0] - p[0]) * (b[0] - p[0]) + (a[1] - p[1]) * (b[1] - p[1])
    return S.And(c == 0, d <= 0)


def fan_winding(S, v, p):
    """winding number of the open list of vertices v around p, p on no edge and no fan diagonal"""
    w = 0
    for i in range(1, len(v) - 1):
        a, b, c = v[0], v[i], v[i + 1]
        s = [cross(*a, *b, *p), cross(*b, *c, *p), cross(*c, *a, *p)]
        w = w + S.If(S.And([k > 0 for k in s]), 1, S.If(S.And([k < 0 for k in s]), -1, 0))
    return w


def general(S, v, p):
    """p is on no edge and no fan diagonal of v"""
    n = len(v)
    return S.And([S.Not(on_segment(S, v[i], v[(i + 1) % n], p)) for i in range(n)]
                 + [S.Not(on_segment(S, v[0], v[i], p)) for i in range(2, n - 1)])


def no_edge(S, v, p):
    n = len(v)
    return S.And([S.Not(on_segment(S, v[i], v[(i + 1) % n], p)) for i in range(n)])


POLYS = {
    "tri": [(0, 0), (4, 1), (1, 3)],
    "square_cw": [(0, 0), (0, 3), (3, 3), (3, 0)],
    "flat_top": [(0, 0), (5, 0), (5, 2), (3, 2), (3, 4), (0, 4)],
    "concave": [(0, 0), (6, 0), (6, 5), (3, 1), (0, 5)],
    "spiral": [(0, 0), (7, 0), (7, 6), (2, 6), (2, 2), (4, 2), (4, 4), (3, 4), (3, 5), (6, 5), (6, 1), (1, 1), (1, 7), (0, 7)],
    "hexa": [(2, 0), (5, 0), (7, 3), (5, 6), (2, 6), (0, 3)],
    "star": [(0, 0), (6, 1), (1, 4), (3, -2), (5, 5)],
}
