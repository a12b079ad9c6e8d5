"""C15: fracture against coverage, over families of polygons and limits."""
import itertools
import math

import numpy as np

from mc import geo, lattice
from mc.engine import Group

SP = lattice.SPECIAL


def comb(n, w=1.0, h=3.0, t=0):
    """n teeth; t picks the orientation (rotations by 90 degrees and a slanted map)."""
    p = [(0, 0)]
    p.append(((2 * n - 1) * w, 0))
    for i in reversed(range(n)):
        p += [((2 * i + 1) * w, h), (2 * i * w, h)]
        if i:
            p += [(2 * i * w, 1), ((2 * i - 1) * w, 1)]
    return orient(p, t)


def orient(p, t):
    for _ in range(t % 4):
        p = [(-y, x) for x, y in p]
    if t >= 4:
        p = [(2 * x + y, y - x) for x, y in p]
    return p


def spiral(n, t=0):
    """A rectilinear spiral of n turns and unit width."""
    outer, d, x, y = [(0, 0)], 2 * n + 2, 0, 0
    steps = []
    k = 4 * n + 3
    for s in range(2 * n + 1):
        steps.append(k - s - (s % 2))
    # centre line with the given leg lengths, thickened by half a unit: build it from cells
    cells = set()
    dx, dy, px, py = 1, 0, 0, 0
    cells.add((0, 0))
    for L in [4 * n] + [v for i in range(2 * n, 0, -1) for v in (2 * i, 2 * i)]:
        for _ in range(L):
            px, py = px + dx, py + dy
            cells.add((px, py))
        dx, dy = -dy, dx
    x0, y0 = min(c[0] for c in cells), min(c[1] for c in cells)
    w, h = max(c[0] for c in cells) - x0 + 1, max(c[1] for c in cells) - y0 + 1
    mask = sum(1 << ((j - y0) * w + i - x0) for i, j in cells)
    o = lattice.outlines(mask, w, h)
    assert o, n
    return orient(o, t)


def star(n, r0=1.0, r1=5.0, t=0):
    a = [(r0 if i % 2 else r1) for i in range(2 * n)]
    return orient([(r * math.cos(math.pi * i / n), r * math.sin(math.pi * i / n)) for i, r in enumerate(a)], t)


def zigzag(n, t=0):
    """Two saw-tooth sides: cuts hit many slanted edges."""
    lo = [(i, (i % 2) * 0.7) for i in range(n)]
    hi = [(i, 2 + (i % 2) * 0.7) for i in range(n)]
    return orient(lo + hi[::-1], t)


def flat(n, t=0):
    """A rectangle with n vertices along one side: many collinear vertices."""
    return orient([(i, 0) for i in range(n)] + [(n - 1, 2), (0, 2)], t)


def fan(n, t=0):
    """Half of the vertices on one extreme line (all cuts of the median fall on it)."""
    p = [(0, 0), (10, 0)]
    for i in reversed(range(n)):
        p += [(10 * (i + 0.7) / n, 12), (10 * (i + 0.3) / n, 12), (10 * i / n, 11.5)] if i else [
            (7 / n, 12), (0, 12)]
    return orient(p, t)


KINDS = {"comb": comb, "spiral": spiral, "star": star, "zig": zigzag, "flat": flat, "fan": fan}


def make(kind, n, t):
    if kind in KINDS:
        return KINDS[kind](n, t=t)
    if kind == "sp":
        return orient(SP[n], t)
    raise AssertionError(kind)


def verify(rec, ps, orig, layers, dts, mp, prec, what, k=1.0):
    """ps: fractured set; orig: original polygons with their layers and datatypes."""
    rec.step()
    if not (len(ps.polygons) == len(ps.layers) == len(ps.datatypes)):
        return rec.fail(what + "lists of different lengths")
    if mp <= 4:
        same = len(ps.polygons) == len(orig) and all(
            np.array_equal(a, b) for a, b in zip(ps.polygons, orig))
        return rec.expect(same and list(ps.layers) == layers and list(ps.datatypes) == dts,
                          what + "max_points <= 4 changed the set")
    big = max((len(p) for p in ps.polygons), default=0)
    if big > mp:
        rec.fail(what + "a piece has %d vertices" % big)
    for p in ps.polygons:
        if not isinstance(p, np.ndarray) or p.ndim != 2:
            return rec.fail(what + "a piece is %r" % (p,))
    for key in sorted(set(zip(layers, dts)) | set(zip(ps.layers, ps.datatypes))):
        want = [np.asarray(p, dtype=float) for p, l, d in zip(orig, layers, dts) if (l, d) == key]
        got = [p for p, l, d in zip(ps.polygons, ps.layers, ps.datatypes) if (l, d) == key]
        keep = [p for p in want if len(p) <= mp]
        for p in keep:
            if not any(np.array_equal(p, q) for q in got):
                rec.fail(what + "a polygon within the limit was changed: %s" % geo.fmt(p))
        new = [p for p in got if not any(np.array_equal(p, q) for q in keep)]
        if len(new) > len(want) and not geo.on_grid(new, prec):
            rec.fail(what + "vertices of the pieces are not multiples of the precision: %s" % "; ".join(map(geo.fmt, new[:3])))
        why = geo.check_cover(got, want, lattice.nonzero(want), max(8 * prec, 1e-9 * k),
                              rule="nonzero", overlap=len(want) == 1)
        if why:
            rec.fail(what + "%r: %s" % (key, why))


def run_one(case, rec):
    import gdspy

    P = np.array(make(*case["p"]), dtype=float) * case.get("k", 1.0)
    for mp in case["mp"]:
        prec = case.get("prec", 1e-3)
        what = "%r max_points=%d: " % (case["p"], mp)
        ps = gdspy.Polygon(P, 3, 4)
        r = ps.fracture(mp) if prec == 1e-3 else ps.fracture(mp, prec)
        rec.expect(r is ps, "fracture does not return the set")
        verify(rec, ps, [P], [3], [4], mp, prec, what, case.get("k", 1.0))
        rec.state((case, mp, len(ps.polygons)))
        n = [np.array(p) for p in ps.polygons]
        ps.fracture(mp, prec)
        rec.expect(len(n) == len(ps.polygons) and all(np.array_equal(a, b) for a, b in zip(n, ps.polygons)),
                   what + "a second fracture changes the result")
        ps.fracture(max(5, mp - 2), prec)
        verify(rec, ps, [P], [3], [4], max(5, mp - 2) if mp > 4 else 5, prec, what + "then smaller: ",
               case.get("k", 1.0))


def gen_one(tier):
    th = tier == "thorough"
    small = list(range(0, 13)) + [16, 21]
    for kind in KINDS:
        ns = {"comb": range(2, 14), "spiral": range(1, 6), "star": range(3, 14), "zig": range(3, 20),
              "flat": range(2, 20), "fan": range(2, 12)}[kind]
        for n in list(ns)[:: 1 if th else 2]:
            for t in range(8):
                yield dict(p=[kind, n, t], mp=small if th else [3, 4, 5, 6, 7, 9, 12])
        for n in (60, 101) if kind != "spiral" else (12,):
            for t in (0, 1, 5) if not th else range(8):
                yield dict(p=[kind, n, t], mp=[20, 50, 199] if kind != "star" else [50, 199])
    for n in SP:
        for t in range(8):
            yield dict(p=["sp", n, t], mp=small)
    for kind, n in (("comb", 5), ("star", 7), ("zig", 9), ("flat", 9), ("fan", 5)):
        for k, prec in ((1e-2, 1e-6), (1e3, 1e-2), (1, 0.05), (0.37, 1e-5), (1.37e-5, 1e-9), (137, 1)) + tuple(lattice.HUGE):
            for t in (0, 5):
                yield dict(p=[kind, n, t], mp=[5, 6, 8, 10], k=k, prec=prec)


def run_masks(case, rec):
    import gdspy

    for mask in range(case["lo"], case["hi"]):
        o = lattice.outlines(mask, case["w"], case["h"])
        if not o or len(o) < 6:
            continue
        P = np.array(o, dtype=float)
        for mp in (5, 6, 7, 8, 10):
            ps = gdspy.Polygon(P, 3, 4).fracture(mp)
            verify(rec, ps, [P], [3], [4], mp, 1e-3, "%r max_points=%d: " % (o, mp))
        rec.state(o)


def gen_masks(tier):
    for w, h in ((3, 3), (4, 3), (3, 4)) + (((4, 4),) if tier == "thorough" else ()):
        for lo in range(0, 1 << (w * h), 64):
            yield dict(w=w, h=h, lo=lo, hi=lo + 64)


def run_sets(case, rec):
    import gdspy

    P = [np.array(make(*p), dtype=float) + (7 * i * case["shift"], 0) for i, p in enumerate(case["p"])]
    L, D = case["l"][: len(P)], case["d"][: len(P)]
    ps = gdspy.PolygonSet(P)
    ps.layers, ps.datatypes = list(L), list(D)
    keep = [np.array(p) for p in P]
    ps.fracture(case["mp"])
    verify(rec, ps, P, L, D, case["mp"], 1e-3, "%r: " % case)
    rec.expect(all(np.array_equal(a, b) for a, b in zip(P, keep)), "the user's arrays were changed")
    rec.state(case)


def gen_sets(tier):
    pool = [["comb", 3, 0], ["star", 5, 0], ["sp", "ell", 0], ["sp", "keyhole", 1], ["flat", 5, 4]]
    for n in (1, 2, 3):
        for p in itertools.product(pool, repeat=n):
            for l, d in (([1, 2, 3], [4, 5, 6]), ([1, 1, 2], [5, 6, 5])):
                for mp in (0, 5, 8):
                    for shift in (0, 4):
                        yield dict(p=[list(q) for q in p], l=l, d=d, mp=mp, shift=shift)


def run_built(case, rec):
    """Objects built with max_points cover what they cover without a limit."""
    import gdspy

    mp = case["mp"]

    def build(m):
        k = case["what"]
        if k == "round":
            return gdspy.Round((0, 0), 5, tolerance=1e-3, max_points=m)
        if k == "ring":
            return gdspy.Round((1, 2), (5, 4), inner_radius=(3, 2), tolerance=5e-3, max_points=m)
        if k == "sector":
            return gdspy.Round((0, 0), 5, 2, 0.3, 4, tolerance=1e-3, max_points=m)
        if k == "path":
            p = gdspy.Path(1, (0, 0), number_of_paths=2, distance=3)
            p.segment(5, "+x").arc(6, -math.pi / 2, math.pi / 2, max_points=m, layer=2)
            p.turn(7, "ll", max_points=m, final_width=2, datatype=3)
            return p.parametric(lambda u: (10 * u, 3 * math.sin(6 * u)), max_points=m)
        if k == "bezier":
            p = gdspy.Path(0.5, (0, 0))
            p.bezier([(0, 3), (5, 5), (9, 0)], max_points=m)
            return p.smooth([(10, 3), (12, 8)], max_points=m)
        if k == "flex":
            return gdspy.FlexPath([(0, 0), (9, 0), (9, 9), (0, 9)], [0.5, 0.5], 1, corners="circular bend",
                                  bend_radius=3, max_points=m)
        if k == "robust":
            p = gdspy.RobustPath((0, 0), [0.5, 0.7], 2, max_points=m)
            return p.arc(5, 0, 3).segment((0, 20)).bezier([(3, 0), (9, 9)])
        if k == "fillet":
            return gdspy.Polygon(comb(6)).fillet(0.3, max_points=m, points_per_2pi=32)
        if k == "boolean":
            return gdspy.boolean(gdspy.Round((0, 0), 5), gdspy.Round((3, 0), 4), "xor", max_points=m)
        if k == "offset":
            return gdspy.offset(gdspy.Polygon(star(7)), 0.5, "round", 32, max_points=m)
        raise AssertionError(k)

    a = build(mp)
    b = build(0)
    rec.step()
    pa = a.get_polygons(True) if hasattr(a, "get_polygons") else None
    if pa is None:
        if not (len(a.polygons) == len(a.layers) == len(a.datatypes)):
            return rec.fail("lists of different lengths")
        pa, pb = {}, {}
        for o, q in ((a, pa), (b, pb)):
            for p, l, d in zip(o.polygons, o.layers, o.datatypes):
                q.setdefault((l, d), []).append(p)
    else:
        pb = b.get_polygons(True)
    if mp > 4 and max(len(p) for v in pa.values() for p in v) > mp:
        rec.fail("%r: more than %d vertices" % (case, mp))
    if set(pa) != set(pb):
        return rec.fail("%r: layers %r, expected %r" % (case, set(pa), set(pb)))
    for key in pa:
        segs = pb[key]
        b0 = geo.bbox(segs)
        X, Y = np.meshgrid(np.linspace(b0[0, 0] - 0.1, b0[1, 0] + 0.1, 83), np.linspace(b0[0, 1] - 0.1, b0[1, 1] + 0.1, 83))
        # pieces of rounds and arcs have fewer points on each side the smaller they are
        slack = 0.01 if mp == 0 or mp >= 50 else 0.06
        ok = geo.dist_segments(X, Y, geo.edges(segs)) > slack
        A = geo.covered(pa[key], X, Y, "nonzero")
        B = geo.covered(pb[key], X, Y, "nonzero")
        if ((A != B) & ok).any():
            m = (A != B) & ok
            rec.fail("%r %r: coverage differs at (%g, %g)" % (case, key, X[m][0], Y[m][0]))
    rec.state(case)


def gen_built(tier):
    for w in ("round", "ring", "sector", "path", "bezier", "flex", "robust", "fillet", "boolean", "offset"):
        for mp in (0, 5, 6, 7, 10, 20, 50, 100, 199, 1000):
            yield dict(what=w, mp=mp)


def groups(tier):
    return [
        Group("one", lambda: gen_one(tier), run_one,
              "combs, spirals, stars, saws, flat and fan polygons of up to 400 vertices and %d special outlines in 8 orientations x limits 0..21" % len(SP)),
        Group("masks", lambda: gen_masks(tier), run_masks,
              "all simple polygons made of 3x3, 4x3, 3x4 (4x4 thorough) cells x limits 5..10"),
        Group("sets", lambda: gen_sets(tier), run_sets, "sets of up to 3 polygons with layers"),
        Group("built", lambda: gen_built(tier), run_built, "objects built with a vertex limit"),
    ]
