"""Finite families of polygons on small integer lattices."""
import itertools

import numpy as np

from mc import geo


# (size of a cell, precision): from around the limits of 32- and 64-bit products up to 1e17 cells
HUGE = [(1e3, 1e-6), (1, 1e-12), (4.1e8, 1), (3.3e9, 1), (2.3e12, 1), (7.7e14, 1), (9.1e16, 1), (1e5, 1.2e-12)]


def rects(n):
    for x0, x1 in itertools.combinations(range(n), 2):
        for y0, y1 in itertools.combinations(range(n), 2):
            yield [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def points(n, m=None):
    return [(i, j) for i in range(n) for j in range(m or n)]


def triangles(n):
    for t in itertools.combinations(points(n), 3):
        if geo.area2(t) != 0:
            yield list(t)


def quads(n):
    """All simple quadrilaterals of the n x n lattice (one outline per vertex cycle)."""
    for a, b, c, d in itertools.combinations(points(n), 4):
        for q in ((a, b, c, d), (a, c, b, d), (a, b, d, c)):
            if geo.area2(q) != 0 and geo.simple(q):
                yield list(q)


SPECIAL = {
    "ell": [(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (0, 3)],
    "cross": [(1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (2, 2), (2, 3), (1, 3), (1, 2), (0, 2), (0, 1), (1, 1)],
    "you": [(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)],
    "youdown": [(0, 3), (0, 0), (1, 0), (1, 2), (2, 2), (2, 0), (3, 0), (3, 3)],
    "keyhole": [(0, 0), (4, 0), (4, 4), (0, 4), (0, 2), (1, 2), (1, 3), (3, 3), (3, 1), (1, 1), (1, 2), (0, 2)],
    "bowtie": [(0, 0), (4, 3), (4, 0), (0, 3)],
    "fish": [(0, 0), (3, 3), (3, 0), (0, 3), (-1, 1)],
    "repeat": [(0, 0), (0, 0), (3, 0), (3, 0), (3, 2), (0, 2), (0, 0)],
    "collin": [(0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (3, 2), (1, 2), (0, 2), (0, 1)],
    "spike": [(0, 0), (2, 0), (4, 0), (2, 0), (2, 2), (0, 2)],
    "zero": [(0, 0), (3, 0), (1, 0)],
    "diamond": [(2, 0), (4, 2), (2, 4), (0, 2)],
    "star": [(0, 0), (4, 2), (0, 4), (3, -1), (3, 5)],
    "arrow": [(0, 0), (4, 2), (0, 4), (1, 2)],
    "cw": [(0, 0), (0, 3), (2, 3), (2, 0)],
    "touch": [(0, 0), (2, 0), (2, 2), (4, 2), (4, 4), (2, 4), (2, 2), (0, 2)],
    "zig": [(0, 0), (1, 1), (2, 0), (3, 1), (4, 0), (4, 3), (0, 3)],
    "comb": [(0, 0), (9, 0), (9, 3), (8, 3), (8, 1), (7, 1), (7, 3), (6, 3), (6, 1), (5, 1), (5, 3),
             (4, 3), (4, 1), (3, 1), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)],
    "spiral": [(0, 0), (5, 0), (5, 5), (1, 5), (1, 2), (3, 2), (3, 3), (2, 3), (2, 4), (4, 4), (4, 1), (0, 1)],
}
SIMPLE = ["ell", "cross", "you", "youdown", "collin", "diamond", "arrow", "cw", "zig", "comb", "spiral"]


def pixels(mask, w, h, x0=0, y0=0):
    """Unit squares of a bit mask."""
    return [[(x0 + i, y0 + j), (x0 + i + 1, y0 + j), (x0 + i + 1, y0 + j + 1), (x0 + i, y0 + j + 1)]
            for j in range(h) for i in range(w) if mask >> (j * w + i) & 1]


def lin(polys, m, t=(0, 0)):
    """Image of the polygons under the integer matrix m."""
    return [[(m[0][0] * x + m[0][1] * y + t[0], m[1][0] * x + m[1][1] * y + t[1]) for x, y in p]
            for p in polys]


def nonzero(polys):
    """Membership predicate of the union, each polygon filled non-zero (oriented on its own)."""
    polys = [np.asarray(p, dtype=float) for p in polys]
    return lambda x, y: geo.covered(polys, x, y, "nonzero")


def outlines(mask, w, h):
    """Outline of a 4-connected set of unit cells without holes and without cells that
    touch only at a corner, as one simple polygon; None for the other masks."""
    cells = {(i, j) for j in range(h) for i in range(w) if mask >> (j * w + i) & 1}
    nxt = {}
    for i, j in cells:
        for (di, dj), a, b in (((0, -1), (i, j), (i + 1, j)), ((1, 0), (i + 1, j), (i + 1, j + 1)),
                               ((0, 1), (i + 1, j + 1), (i, j + 1)), ((-1, 0), (i, j + 1), (i, j))):
            if (i + di, j + dj) not in cells:
                if a in nxt:
                    return None
                nxt[a] = b
    if not nxt:
        return None
    start = min(nxt)
    out = [start]
    while nxt[out[-1]] != start:
        out.append(nxt[out[-1]])
    if len(out) != len(nxt):
        return None
    n = len(out)
    return [p for k, p in enumerate(out)
            if (out[k - 1][0] - p[0]) * (out[(k + 1) % n][1] - p[1])
            != (out[k - 1][1] - p[1]) * (out[(k + 1) % n][0] - p[0])]


def cells_of(poly):
    """Unit cells covered by a rectilinear lattice polygon."""
    p = np.asarray(poly, dtype=float)
    x0, y0 = p.min(axis=0).astype(int)
    x1, y1 = p.max(axis=0).astype(int)
    X, Y = np.meshgrid(np.arange(x0, x1) + 0.5, np.arange(y0, y1) + 0.5)
    c = geo.winding(p, X, Y) != 0
    return {(int(a - 0.5), int(b - 0.5)) for a, b in zip(X[c], Y[c])}
