"""C13: offset against exact dilation and erosion on lattice layouts."""
import itertools

import numpy as np

from checks import c11
from mc import geo, lattice
from mc.engine import Group

SP = lattice.SPECIAL
RECT = ["ell", "cross", "you", "youdown", "collin", "cw", "comb", "spiral"]


def morph(cells, d, X, Y):
    """Membership of the points in the dilation (d >= 0) or erosion of a set of cells."""
    w = np.zeros(X.shape, dtype=bool)
    if d >= 0:
        for i, j in cells:
            w |= (X > i - d) & (X < i + 1 + d) & (Y > j - d) & (Y < j + 1 + d)
        return w
    if not cells:
        return w
    k = int(np.ceil(-d)) + 1
    x0, x1 = min(i for i, _ in cells) - k, max(i for i, _ in cells) + k
    y0, y1 = min(j for _, j in cells) - k, max(j for _, j in cells) + k
    for i in range(x0, x1 + 1):
        for j in range(y0, y1 + 1):
            if (i, j) not in cells:
                w |= (X > i + d) & (X < i + 1 - d) & (Y > j + d) & (Y < j + 1 - d)
    inside = (X > x0) & (X < x1 + 1) & (Y > y0) & (Y < y1 + 1)
    return inside & ~w


def common(rec, r, what, layer, datatype, max_points, prec=1e-3):
    import gdspy

    rec.step()
    if not isinstance(r, gdspy.PolygonSet) or len(r.polygons) == 0 or not (
            len(r.polygons) == len(r.layers) == len(r.datatypes)):
        rec.fail(what + "returned %r" % (r,))
        return False
    if set(r.layers) != {layer} or set(r.datatypes) != {datatype}:
        rec.fail(what + "layers %r datatypes %r" % (r.layers, r.datatypes))
    if max_points > 4 and max(len(p) for p in r.polygons) > max_points:
        rec.fail(what + "more than %d vertices" % max_points)
    if not geo.on_grid(r.polygons, prec):
        rec.fail(what + "vertices are not multiples of the precision %g: %s" % (prec, "; ".join(map(geo.fmt, r.polygons[:4]))))
    return True


def check_rect(rec, r, groups, d, what, k=1.0, prec=1e-3, layer=0, datatype=0, max_points=199,
               overlap=True, key=None):
    """Mitered offset of unions of cells, each offset on its own: exact."""
    groups = [g for g in groups]
    allc = set().union(*groups) if groups else set()
    if not allc:
        return rec.expect(r is None, what + "result for no area")
    grid = sorted({c + s for p in allc for v in p for c in (v, v + 1) for s in (0, d, -d)})
    if r is None:
        xs = ys = np.array(grid)
    else:
        if not common(rec, r, what, layer, datatype, max_points, prec):
            return
        v = np.concatenate(r.polygons) / k
        xs = np.unique(np.concatenate((grid, v[:, 0])))
        ys = np.unique(np.concatenate((grid, v[:, 1])))
        for p in r.polygons:
            e = np.abs(np.asarray(p) - np.roll(p, 1, axis=0)) / k
            if (np.minimum(e[:, 0], e[:, 1]) > max(4 * prec / k, 1e-9)).any():
                return rec.fail(what + "slanted edges: %s" % geo.fmt(p))
    eps = max(8 * prec / k, 1e-9)
    mid = lambda a: ((a[1:] + a[:-1]) / 2)[np.diff(a) > eps]
    X, Y = np.meshgrid(mid(xs), mid(ys))
    w = np.zeros(X.shape, dtype=bool)
    for g in groups:
        w |= morph(g, d, X, Y)
    if r is None:
        if w.any():
            rec.fail(what + "None, but (%g, %g) must be covered" % (X[w][0], Y[w][0]), key)
        return
    c = geo.count([p / k for p in r.polygons], X, Y)
    bad = (c > 0) != w
    if bad.any():
        rec.fail(what + "(%g, %g) is %scovered; %s" % (
            X[bad][0], Y[bad][0], "" if c[bad][0] else "not ",
            "; ".join(geo.fmt(p) for p in r.polygons[:4])), key)
    elif overlap and (c > 1).any():
        rec.fail(what + "overlapping result at (%g, %g)" % (X[c > 1][0], Y[c > 1][0]), key)
    elif not w.any():
        rec.fail(what + "an empty region is not None: %s" % geo.fmt(r.polygons[0]), key)


D = [0.25, 0.5, 1, 1.25, 2, -0.25, -0.5, -0.75, -1, -1.5, 0]


def run_one(case, rec):
    import gdspy

    A = case["a"]
    cells = lattice.cells_of(A)
    for d in D:
        for jf in (False, True):
            r = gdspy.offset([A], d, join_first=jf)
            check_rect(rec, r, [cells], d, "offset(%r, %r, join_first=%r): " % (A, d, jf))
    rec.state(A)


def gen_one(tier):
    for n in RECT:
        yield dict(a=SP[n])
    for w, h in ((3, 3), (4, 3)) + (((4, 4),) if tier == "thorough" else ()):
        for mask in range(1 << (w * h)):
            o = lattice.outlines(mask, w, h)
            if o:
                yield dict(a=o if mask % 2 else o[::-1])


def run_sets(case, rec):
    import gdspy

    A = case["a"]
    for d in case["d"]:
        cells = [lattice.cells_of(p) for p in A]
        what = "offset(%r, %r, join_first=%%r): " % (A, d)
        r = gdspy.offset(A, d, join_first=True)
        check_rect(rec, r, [set().union(*cells)], d, what % True)
        if case["own"]:
            r = gdspy.offset(A, d)
            check_rect(rec, r, cells, d, what % False)
    rec.state(A)


def gen_sets(tier):
    r = list(lattice.rects(4))
    d = [0.25, 1, -0.25, -0.75, -1]
    for a, b in itertools.combinations(r, 2):
        yield dict(a=[a, b[::-1]], d=d, own=True)
    for n, m in itertools.combinations(RECT, 2):
        for dx, dy in itertools.product((0, 1, 3), (-1, 0, 2)):
            yield dict(a=[SP[n], [(x + dx, y + dy) for x, y in SP[m]]], d=d, own=True)
    for n in ("keyhole", "touch", "repeat", "spike"):
        for m in RECT:
            yield dict(a=[SP[n], [(x + 1, y) for x, y in SP[m]]], d=d + [0.5, -0.5], own=False)
        yield dict(a=[SP[n]], d=D, own=False)
    for w, h in ((3, 3), (4, 3)) + (((4, 4),) if tier == "thorough" else ()):
        for mask in range(1, 1 << (w * h)):
            yield dict(a=lattice.pixels(mask, w, h), d=[0.25, 0.75, -0.25, -0.75], own=False)


JOINS = [("miter", 2), ("miter", 5), ("bevel", 2), ("round", 8), ("round", 64)]


def run_euclid(case, rec):
    """Any simple polygon: the result lies between two Euclidean offsets."""
    import gdspy

    A = case["a"]
    segs = geo.edges([A])
    inner = lattice.nonzero([A])
    for d in (0.3, 1, 2.5, -0.2, -0.45):
        for join, tol in JOINS:
            r = gdspy.offset([A], d, join, tol, join_first=case["jf"])
            what = "offset(%r, %r, %r, %r): " % (A, d, join, tol)
            reach = {"miter": max(2, tol), "bevel": 1.4143, "round": 1}[join]
            # a corner takes a whole number of steps, so one may be half longer
            short = np.cos(1.5 * np.pi / tol) if join == "round" and d > 0 else 1
            if join == "round" and d < 0:
                reach = 1.0
                short = 1.0
            slack = 0.006
            if r is None:
                polys = []
            elif not common(rec, r, what, 0, 0, 199):
                continue
            else:
                polys = r.polygons
            x, y, ar = geo.faces(segs + geo.edges(polys), 0.01)
            # several points per face: the bounds are curved
            b = geo.bbox([A])
            gx, gy = np.meshgrid(np.linspace(b[0, 0] - 2.6 * abs(d), b[1, 0] + 2.6 * abs(d), 23) + 0.003,
                                 np.linspace(b[0, 1] - 2.6 * abs(d), b[1, 1] + 2.6 * abs(d), 23) + 0.0017)
            x, y = np.concatenate((x, gx.ravel())), np.concatenate((y, gy.ravel()))
            near = geo.dist_segments(x, y, geo.edges(polys)) if polys else np.full(x.shape, 9.0)
            keep = near > slack
            x, y = x[keep], y[keep]
            c = geo.count(polys, x, y)
            ins = inner(x, y)
            dist = geo.dist_segments(x, y, segs)
            if d > 0:
                must = ins | (dist < d * short - slack)
                mustnot = ~ins & (dist > d * reach + slack)
            else:
                must = ins & (dist > -d * reach + slack)
                mustnot = ~ins | (dist < -d - slack if join != "round" else dist < -d * 0.98 - slack)
            bad = must & (c == 0)
            if bad.any():
                rec.fail(what + "(%g, %g) at distance %g is not covered; %s" % (
                    x[bad][0], y[bad][0], dist[bad][0], "; ".join(map(geo.fmt, polys[:3]))))
            bad = mustnot & (c > 0)
            if bad.any():
                rec.fail(what + "(%g, %g) at distance %g is covered; %s" % (
                    x[bad][0], y[bad][0], dist[bad][0], "; ".join(map(geo.fmt, polys[:3]))))
            if (c > 1).any():
                rec.fail(what + "overlapping result")
    rec.state((A, case["jf"]))


def gen_euclid(tier):
    tri = list(lattice.triangles(3))
    q = list(lattice.quads(3))
    for a in tri + q:
        for jf in (False, True) if tier == "thorough" else (False,):
            yield dict(a=[(2 * x, 2 * y) for x, y in a], jf=jf)
    for n in lattice.SIMPLE:
        for jf in (False, True):
            yield dict(a=SP[n], jf=jf)
            yield dict(a=[(x - y, x + 2 * y) for x, y in SP[n]], jf=jf)


def run_forms(case, rec):
    import gdspy

    o, A = c11.form(case["form"])
    s = c11.snapshot(o)
    for d in (0.5, -0.1):
        for join in ("miter", "bevel", "round"):
            for jf in (False, True):
                for args in ((0, 0, 199), (3, 4, 8), (1, 2, 0)):
                    kw = dict(layer=args[0], datatype=args[1], max_points=args[2], join_first=jf)
                    r = gdspy.offset(o, d, join, 16 if join == "round" else 2, **kw)
                    q = gdspy.offset([np.array(p) for p in A], d, join, 16 if join == "round" else 2, **kw)
                    what = "%s offset %r %r: " % (case["form"], d, join)
                    if (r is None) != (q is None):
                        rec.fail(what + "%r but %r for the list of its polygons" % (r, q))
                        continue
                    if c11.snapshot(o) != s:
                        return rec.fail(what + "operand changed")
                    if r is None:
                        rec.expect(not A or d < 0, what + "None")
                        continue
                    if not common(rec, r, what, *args):
                        continue
                    qs = lattice.nonzero(q.polygons)
                    why = geo.check_cover(r.polygons, q.polygons, qs, 0.05)
                    if why:
                        rec.fail(what + "not the offset of its polygons: " + why)
    rec.state(case["form"])


def run_scale(case, rec):
    import gdspy

    k, prec, mp = case["k"], case["prec"], case["mp"]
    A = [(k * x, k * y) for x, y in SP[case["a"]]]
    cells = lattice.cells_of(SP[case["a"]])
    for d in (0.25, 1, -0.25):
        r = gdspy.offset(gdspy.Polygon(A), k * d, precision=prec, max_points=mp, layer=5, datatype=6)
        check_rect(rec, r, [cells], d, "%r: " % (case,), k, prec, 5, 6, mp)
        r = gdspy.offset(gdspy.Polygon(A), k * d, precision=prec, max_points=mp, layer=5, datatype=6,
                         join_first=True)
        check_rect(rec, r, [cells], d, "%r join_first: " % (case,), k, prec, 5, 6, mp)
    rec.state(case)


def gen_scale(tier):
    for a in RECT:
        for k, prec in ((1, 1e-2), (1, 1e-6), (1e-2, 1e-5), (1e4, 1e-3), (0.37, 1e-4), (1.37e-5, 1e-9), (0.37, 0.005), (137, 1)):
            for mp in (0, 5, 7, 199):
                yield dict(a=a, k=k, prec=prec, mp=mp)


def run_huge(case, rec):
    import gdspy

    k, prec = case["k"], case["prec"]
    S = [SP[case["a"]][::-1], [(x + 3, y + 1) for x, y in SP[case["b"]]]]
    A = [[(k * x, k * y) for x, y in p] for p in S]
    cells = [lattice.cells_of(p) for p in S]
    for d in (0.25, 1, -0.25):
        for jf in (False, True):
            r = gdspy.offset(A, k * d, precision=prec, join_first=jf)
            check_rect(rec, r, [set().union(*cells)] if jf else cells, d, "%r join_first=%s: " % (case, jf), k, prec)
    rec.state(str(case))


def gen_huge(tier):
    for k, prec in lattice.HUGE:
        for a, b in itertools.product(RECT, RECT):
            yield dict(a=a, b=b, k=k, prec=prec)


def run_limit(case, rec):
    """Limits up to 4 mean no limit; the others do not change what is covered."""
    import gdspy

    A = [gdspy.Round((0, 0), 10, number_of_points=case["n"]), gdspy.Round((7, 1), 10, number_of_points=case["n"])]
    for kw in (dict(), dict(join_first=True), dict(join="round", tolerance=400), dict(join="bevel", join_first=True)):
        whole = gdspy.offset(A, case["d"], max_points=10 ** 6, **kw)
        for mp in (0, 1, 4, -1, 20, 150, 199, None):
            r = gdspy.offset(A, case["d"], **kw) if mp is None else gdspy.offset(A, case["d"], max_points=mp, **kw)
            what = "%r %r max_points=%r: " % (case, kw, mp)
            if not common(rec, r, what, 0, 0, 199 if mp is None else mp):
                return
            if mp is not None and mp < 5:
                why = geo.match_polygons(r.polygons, whole.polygons)
            else:
                why = geo.check_cover(r.polygons, whole.polygons, lattice.nonzero(whole.polygons), 0.008)
            rec.expect(why is None, lambda: what + why)
    rec.state((case["n"], case["d"]))


def groups(tier):
    return [
        Group("one", lambda: gen_one(tier), run_one,
              "all simple polygons of 3x3, 4x3 (4x4 thorough) cells and special ones x 11 distances x join_first"),
        Group("sets", lambda: gen_sets(tier), run_sets,
              "all pairs of rectangles, pairs of special shapes, all subsets of 3x3 and 4x3 (4x4) cells"),
        Group("euclid", lambda: gen_euclid(tier), run_euclid,
              "all triangles and quadrilaterals of the 3x3 lattice x 5 distances x 5 joints"),
        Group("forms", lambda: (dict(form=f) for f in c11.FORMS), run_forms, "all operand forms"),
        Group("huge", lambda: gen_huge(tier), run_huge, "pairs of shapes at %d sizes of up to 1e18 grid units" % len(lattice.HUGE)),
        Group("limit", lambda: (dict(n=n, d=d) for n in (64, 150, 199, 200, 201, 400) for d in (0.5, -0.5)), run_limit,
              "results of many vertices x limits x joints"),
        Group("scale", lambda: gen_scale(tier), run_scale, "sizes, precisions, vertex limits"),
    ]
