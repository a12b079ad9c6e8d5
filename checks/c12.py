"""C12: slice against strip membership on lattice layouts."""
import itertools

import numpy as np

from checks import c11
from mc import geo, lattice
from mc.engine import Group

SP = lattice.SPECIAL


def cyc(x, i):
    return x[i % len(x)] if isinstance(x, list) else x


def check(rec, res, A, pos, axis, prec, layer, datatype, scale=1.0, tag=""):
    import gdspy

    A = [np.asarray(p, dtype=float) for p in A]
    cuts = sorted(pos if isinstance(pos, list) else [pos])
    rec.step()
    what = "%sslice at %r along %d: " % (tag, pos, axis)
    if not isinstance(res, list) or len(res) != len(cuts) + 1:
        return rec.fail(what + "%r returned" % (res,))
    eps = max(1e-9 * scale, 8 * prec)
    lim = [-np.inf] + cuts + [np.inf]
    lines = []
    if A:
        bb = geo.bbox(A)
        for c in cuts:
            lines.append([(c, bb[0, 1] - 1), (c, bb[1, 1] + 1)] if axis == 0 else
                         [(bb[0, 0] - 1, c), (bb[1, 0] + 1, c)])
    inner = lattice.nonzero(A)
    for i, r in enumerate(res):
        lo, hi = lim[i], lim[i + 1]

        def want(x, y):
            v = x if axis == 0 else y
            return inner(x, y) & (v > lo) & (v < hi)

        if r is None:
            if A:
                x, y, ar = geo.faces(geo.edges(A + lines), eps)
                w = want(x, y)
                if w.any():
                    rec.fail(what + "part %d is None but should cover (%g, %g)" % (i, x[w][0], y[w][0]))
            continue
        if not isinstance(r, gdspy.PolygonSet) or len(r.polygons) == 0 or not (
                len(r.polygons) == len(r.layers) == len(r.datatypes)):
            return rec.fail(what + "part %d is %r" % (i, r))
        if set(r.layers) != {cyc(layer, i)} or set(r.datatypes) != {cyc(datatype, i)}:
            rec.fail(what + "part %d has layers %r datatypes %r" % (i, r.layers, r.datatypes))
        if not geo.on_grid(r.polygons, prec):
            rec.fail(what + "part %d: vertices are not multiples of the precision %g: %s" % (i, prec, "; ".join(map(geo.fmt, r.polygons[:4]))))
        # pieces of one polygon never overlap, but those of overlapping operands do
        why = geo.check_cover(r.polygons, A + lines, want, eps, overlap=len(A) == 1)
        if why:
            rec.fail(what + "part %d: %s; %s" % (i, why, "; ".join(map(geo.fmt, r.polygons[:4]))))
        b = geo.bbox(r.polygons)
        if b[0, axis] < lo - max(2 * prec, 1e-9 * scale) or b[1, axis] > hi + max(2 * prec, 1e-9 * scale):
            rec.fail(what + "part %d exceeds the cuts: %r" % (i, b))
        x, y, ar = geo.faces(geo.edges(A + lines), 1e-9 * scale)
        if float(ar[want(x, y)].sum()) == 0:
            rec.fail(what + "part %d is empty but not None: %s" % (i, geo.fmt(r.polygons[0])))


def positions(vals, depth):
    for n in range(1, depth + 1):
        for p in itertools.combinations_with_replacement(vals, n):
            yield list(p)


def run_shape(case, rec):
    import gdspy

    A = case["a"]
    for axis in (0, 1):
        for pos in positions(case["vals"], case["depth"]):
            check(rec, gdspy.slice(A, pos, axis), A, pos, axis, 1e-3, 0, 0)
            rec.state((A, axis, pos))
            if len(rec.fails) > 20:
                return
        for v in case["vals"]:
            check(rec, gdspy.slice(A, v, axis, layer=3, datatype=4), A, v, axis, 1e-3, 3, 4)


def gen_shape(tier):
    th = tier == "thorough"
    v = [-1, 0, 0.5, 1, 1.25, 2, 3]
    for a in list(lattice.rects(3)) + list(lattice.triangles(3)):
        yield dict(a=[a], vals=v, depth=3 if th else 2)
    for a in lattice.quads(3):
        yield dict(a=[a], vals=v if th else [0, 0.5, 1, 2.5], depth=2)
    if th:
        for a in lattice.triangles(4):
            yield dict(a=[a[::-1]], vals=[0.5, 1, 2, 2.25], depth=2)
    w = [-1, 0, 0.5, 1, 1.75, 2, 3, 4, 10]
    for n in SP:
        yield dict(a=[SP[n]], vals=w, depth=4 if th else 3)
    for n, m in itertools.product(lattice.SIMPLE, lattice.SIMPLE):
        yield dict(a=[SP[n], [(x + 2, y + 1) for x, y in SP[m]]], vals=w if th else [1, 2, 2.5], depth=2)


def run_args(case, rec):
    import gdspy

    A = [[(case["k"] * x, case["k"] * y) for x, y in SP[n]] for n in case["a"]]
    pos = case["pos"]
    pos = [case["k"] * p for p in pos] if isinstance(pos, list) else case["k"] * pos
    keep = list(pos) if isinstance(pos, list) else pos
    l = list(case["l"]) if isinstance(case["l"], list) else case["l"]
    d = list(case["d"]) if isinstance(case["d"], list) else case["d"]
    r = gdspy.slice(gdspy.PolygonSet(A, 9, 9), pos, case["axis"], case["prec"], l, d)
    check(rec, r, A, keep, case["axis"], case["prec"], case["l"], case["d"], case["k"])
    rec.expect(pos == keep and l == case["l"] and d == case["d"], "an argument was modified")
    rec.state(case)


def gen_args(tier):
    for l, d in itertools.product((0, 7, [1], [1, 2], [3, 4, 5]), (0, [9, 8], [1, 2, 3, 4])):
        for pos in (1.5, 1, [1.5], [0.5, 1.5], [2, 1], [2.5, 0.5, 1.5], [1, 1], [-5, 50], [50, -5, 1], []):
            for axis in (0, 1):
                for k, prec in ((1, 1e-3), (1e-2, 1e-6), (1e4, 1e-2), (1.37e-3, 1e-7), (1.37e-5, 1e-9), (137, 1), (0.37, 0.015)) + tuple(lattice.HUGE[:: 1 if tier == "thorough" or not l else 7]):
                    for a in (["ell"], ["cross", "you"]):
                        yield dict(l=l, d=d, pos=pos, axis=axis, k=k, prec=prec, a=a)


def run_forms(case, rec):
    import gdspy

    o, A = c11.form(case["form"])
    s = c11.snapshot(o)
    for axis in (0, 1):
        for pos in ([2.25], 3.1, [1, 2.5, 6]):
            r = gdspy.slice(o, pos, axis, layer=[1, 2], datatype=5)
            check(rec, r, A, pos, axis, 1e-3, [1, 2], 5, tag=case["form"] + " ")
            rec.state((case["form"], axis, pos))
            if c11.snapshot(o) != s:
                return rec.fail("slice of %s changed its operand" % case["form"])


def run_pixels(case, rec):
    """Frames with every hole pattern (as keyholed outlines), sliced."""
    import gdspy

    w, h = case["w"], case["h"]
    m = c11.MATS[case["m"]]
    frame = lattice.lin([[(0, 0), (w + 2, 0), (w + 2, h + 2), (0, h + 2)]], m)
    for mask in range(case["lo"], case["hi"]):
        px = lattice.lin(lattice.pixels(mask, w, h, 1, 1), m)
        A = gdspy.boolean(frame, px, "not").polygons if mask else frame
        for axis in (0, 1):
            for pos in case["pos"]:
                check(rec, gdspy.slice(A, pos, axis), A, pos, axis, 1e-3, 0, 0)
        rec.state((case["m"], mask))
        if len(rec.fails) > 20:
            return


def gen_pixels(tier):
    for m in ("id", "diag"):
        for lo in range(0, 512, 16):
            yield dict(w=3, h=3, m=m, lo=lo, hi=lo + 16,
                       pos=[[1.5], [1, 3]] if tier == "quick" else [[1.5], [2], [1, 3], [0.5, 2.25]])


INF = float("inf")


def run_far(case, rec):
    """Positions far from the polygons, infinity included."""
    import gdspy

    A = [SP[n] for n in case["a"]]
    for axis in (0, 1):
        r = gdspy.slice(A, list(case["pos"]), axis)
        # the oracle compares coordinates only: any far number stands for infinity
        check(rec, r, A, [max(-1e6, min(1e6, p)) for p in case["pos"]], axis, 1e-3, 0, 0, tag="%r: " % (case["pos"],))
    rec.state(str(case))


def gen_far(tier):
    v = [-INF, -1e300, -1e19, -9.3e15, -1e15, -1e6, 1.5, 1e6, 4.6e15, 1e16, 1.9e16, 1e30, INF]
    for a in (["ell"], ["cross", "you"], ["diamond"], ["keyhole"]):
        for n in (1, 2, 3) if tier == "thorough" else (1, 2):
            for pos in itertools.product(v, repeat=n):
                yield dict(a=a, pos=list(pos))


def groups(tier):
    return [
        Group("shapes", lambda: gen_shape(tier), run_shape,
              "rectangles, triangles, quadrilaterals of the 3x3 lattice and special outlines x all position lists (length <= 2, 3 for the special ones; one more in thorough) x both axes"),
        Group("args", lambda: gen_args(tier), run_args, "layers, datatypes, positions, sizes and precisions"),
        Group("forms", lambda: (dict(form=f) for f in c11.FORMS), run_forms, "all operand forms"),
        Group("far", lambda: gen_far(tier), run_far, "all lists of 1 and 2 (3) positions of a set with huge and infinite ones"),
        Group("pixels", lambda: gen_pixels(tier), run_pixels, "all hole patterns of 3x3 cells"),
    ]
