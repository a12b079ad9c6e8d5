"""C14: point membership on lattice polygons."""
import itertools

import numpy as np

from checks import c11
from mc import geo, lattice
from mc.engine import Group

SP = lattice.SPECIAL


def oracle(A, x, y):
    """(inside, decided): points on a boundary or in a doubly wound region are left out."""
    ok = np.ones(x.shape, dtype=bool)
    ins = np.zeros(x.shape, dtype=bool)
    segs = geo.edges(A)
    if segs:
        ok &= geo.dist_segments(x, y, segs) > 0.0021
    for p in A:
        w = geo.winding(p, x, y)
        ok &= (w % 2 != 0) == (w != 0)
        ins |= w != 0
    return ins, ok


def grid(A, step, k=1.0):
    b = geo.bbox(A)
    xs = np.arange(b[0, 0] - 2 * step, b[1, 0] + 2.01 * step, step)
    ys = np.arange(b[0, 1] - 2 * step, b[1, 1] + 2.01 * step, step)
    X, Y = np.meshgrid(xs, ys)
    return X.ravel(), Y.ravel()


def near(A, dist):
    """Points beside every edge and around every vertex, a bit off the boundary."""
    out = []
    for x0, y0, x1, y1 in geo.edges(A):
        L = np.hypot(x1 - x0, y1 - y0)
        if L == 0:
            continue
        nx, ny = -(y1 - y0) / L * dist, (x1 - x0) / L * dist
        for t in (0.02, 0.5, 0.97):
            for s in (1, -1):
                out.append((x0 + t * (x1 - x0) + s * nx, y0 + t * (y1 - y0) + s * ny))
        for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
            out.append((x0 + dx * dist, y0 + dy * dist))
    return np.array(out)


def run_shape(case, rec):
    import gdspy

    A = [np.asarray(p, dtype=float) for p in case["a"]]
    X, Y = grid(A, case["step"])
    nr = near(A, 0.004)
    X, Y = np.concatenate((X, nr[:, 0])), np.concatenate((Y, nr[:, 1]))
    ins, ok = oracle(A, X, Y)
    X, Y, ins = X[ok], Y[ok], ins[ok]
    pts = [(float(a), float(b)) for a, b in zip(X, Y)]
    for args in ((), ("all",), ("any",)):
        r = gdspy.inside(pts, case["a"], *args)
        rec.step()
        if not isinstance(r, tuple) or len(r) != len(pts):
            return rec.fail("result %r for %d points" % (r, len(pts)))
        bad = np.nonzero(np.array(r, dtype=bool) != ins)[0]
        if len(bad):
            i = bad[0]
            return rec.fail("%r: point (%r, %r) is reported %s" % (case["a"], X[i], Y[i], r[i]))
        if not all(v is True or v is False for v in r):
            rec.fail("non-boolean result")
    # groups: every pair of neighbours, runs of different length, everything
    groups = [pts[i : i + 2] for i in range(len(pts) - 1)] + [[p] for p in pts[::7]]
    groups += [pts[i : i + n] for n in (3, 5) for i in range(0, len(pts) - n, n)] + [pts, pts[::-1]]
    idx = {p: bool(v) for p, v in zip(pts, ins)}
    for sc, f in (("any", any), ("all", all)):
        r = gdspy.inside(groups, case["a"], sc)
        rec.step()
        exp = tuple(f(idx[p] for p in g) for g in groups)
        if r != exp:
            i = next((i for i, (a, b) in enumerate(zip(r, exp)) if a != b), -1)
            rec.fail("%r %s: group %r is reported %r" % (case["a"], sc, groups[i][:6], r[i] if i >= 0 else r))
    if gdspy.inside(groups, case["a"]) != tuple(any(idx[p] for p in g) for g in groups):
        rec.fail("the default is not 'any'")
    rec.state(case)


def gen_shape(tier):
    th = tier == "thorough"
    step = 0.25 if th else 0.5
    for a in list(lattice.rects(3)) + list(lattice.triangles(3)) + list(lattice.quads(3)):
        yield dict(a=[a], step=0.25)
        yield dict(a=[a[::-1]], step=0.5)
    for a in lattice.triangles(4):
        yield dict(a=[a], step=step)
    if th:
        for a in lattice.quads(4):
            yield dict(a=[a], step=0.5)
    for n in SP:
        yield dict(a=[SP[n]], step=step)
        for m in lattice.SIMPLE:
            for dx, dy in ((1, 1), (0, 3), (-2, 1), (20, 0)):
                q = [(x + dx, y + dy) for x, y in SP[m]]
                yield dict(a=[SP[n], q], step=step)
                yield dict(a=[q, SP[n]], step=step)
    r = list(lattice.rects(3))
    for a, b in itertools.combinations(r, 2):
        yield dict(a=[a, b[::-1]], step=step)
        if th:
            for c in r:
                yield dict(a=[a, b, c], step=0.5)


def run_args(case, rec):
    """Forms of the points, precision and size."""
    import gdspy

    k, prec = case["k"], case["prec"]
    A = [[(k * x, k * y) for x, y in SP[n]] for n in case["a"]]
    raw = [(0.5, 0.5), (1.5, 0.5), (1.5, 1.5), (3.5, 2.5), (-1, 1), (0.5, 2.5), (9, 9)]
    ins, ok = oracle([[(x, y) for x, y in SP[n]] for n in case["a"]],
                     np.array([p[0] for p in raw]), np.array([p[1] for p in raw]))
    P = [(k * x, k * y) for (x, y), o in zip(raw, ok) if o]
    exp = tuple(bool(v) for v, o in zip(ins, ok) if o)
    for form in (P, tuple(P), [list(p) for p in P], np.array(P), [np.array(p) for p in P]):
        r = gdspy.inside(form, A, precision=prec)
        rec.step()
        if r != exp:
            rec.fail("%r: %r, expected %r (points as %s)" % (case, r, exp, type(form)))
    for form in ([P, P[:2], P[4:5]], (tuple(P), tuple(P[:2]), tuple(P[4:5])),
                 [np.array(P), np.array(P[:2]), np.array(P[4:5])]):
        for sc, f in (("any", any), ("all", all)):
            r = gdspy.inside(form, gdspy.PolygonSet(A), sc, prec)
            rec.step()
            e = (f(exp), f(exp[:2]), f(exp[4:5]))
            if r != e:
                rec.fail("%r %s: %r, expected %r" % (case, sc, r, e))
    rec.expect(gdspy.inside([], A, precision=prec) == (), "no points")
    rec.expect(gdspy.inside(np.empty((0, 2)), A, precision=prec) == (), "no points in an array")
    for sc, f in (("any", any), ("all", all)):
        for form in ([[], P[:2], []], [P[:2], []], [[]], [[], [], P], [(), P[:1]], [np.empty((0, 2)), np.array(P)]):
            n = [len(x) for x in form]
            r = gdspy.inside(form, A, sc, prec)
            rec.expect(r == tuple(f(exp[:c]) for c in n), lambda: "%r %s: groups of %s points: %r" % (case, sc, n, r))
    for sc in ("any", "all"):
        rec.expect(gdspy.inside(P, [], sc) == (False,) * len(P), "inside of nothing")
        rec.expect(gdspy.inside([P, P[:2]], [], sc) == (False, False), "groups inside of nothing")
    rec.state(case)


def gen_args(tier):
    for a in itertools.product(lattice.SIMPLE, lattice.SIMPLE):
        for k, prec in ((1, 1e-3), (1, 1e-6), (1, 0.05), (1e-2, 1e-6), (1e4, 1e-3), (1e3, 1), (1.37e-5, 1e-9), (1.37e-3, 1e-6)) + tuple(lattice.HUGE):
            yield dict(a=list(a), k=k, prec=prec)


KINDS = [(0.5, 0.5), (2.5, 0.25), (3.5, 3.5), (-20.0, 30.0)]


def run_groups(case, rec):
    """Every small list of groups (or of plain points): no answer depends on the others."""
    import gdspy

    A = {"one": [[(0, 0), (1, 0), (1, 1), (0, 1)]],
         "two": [[(2, 0), (3, 0), (3, 1)], [(0, 0), (0, 1), (1, 1), (1, 0)]],
         "far": [[(5, 5), (6, 5), (6, 6)], [(-6, -6), (-5, -6), (-5, -5)], [(0, 0), (1, 0), (1, 1), (0, 1)]]}[case["a"]]
    ins, _ = oracle([np.asarray(p, dtype=float) for p in A], np.array([p[0] for p in KINDS]), np.array([p[1] for p in KINDS]))
    rec.step()
    g = case["groups"]
    for wrap in (list, np.array):
        if case["plain"]:
            for sc in ("any", "all"):
                r = gdspy.inside(wrap([KINDS[k] for k in g]), A, sc)
                rec.expect(r == tuple(bool(ins[k]) for k in g), lambda: "%s: points %s: %r" % (case["a"], [KINDS[k] for k in g], r))
            continue
        pts = [wrap([KINDS[k] for k in x]) for x in g]
        for sc, f in (("any", any), ("all", all)):
            r = gdspy.inside(pts, A, sc)
            e = tuple(f(bool(ins[k]) for k in x) for x in g)
            rec.expect(r == e, lambda: "%s: groups %s, %s: %r, expected %r" % (case["a"], [[KINDS[k] for k in x] for x in g], sc, r, e))
    rec.state(str(case))


def gen_groups(tier):
    small = [x for n in (1, 2) for x in itertools.product(range(4), repeat=n)]
    all3 = small + list(itertools.product(range(4), repeat=3))
    for a in ("one", "two", "far"):
        for n in (1, 2, 3, 4):
            for g in itertools.product(range(4), repeat=n):
                yield dict(a=a, groups=g, plain=True)
        for x in all3 + list(itertools.product(range(4), repeat=4)):
            yield dict(a=a, groups=[x], plain=False)
        for g in itertools.product(all3 if tier == "thorough" else small, repeat=2):
            yield dict(a=a, groups=g, plain=False)
        for g in itertools.product(small if tier == "thorough" else small[:8], repeat=3):
            yield dict(a=a, groups=g, plain=False)


def run_forms(case, rec):
    import gdspy

    o, A = c11.form(case["form"])
    s = c11.snapshot(o)
    A = [np.asarray(p, dtype=float) for p in A]
    X, Y = grid(A, 0.37) if A else (np.array([0.0, 1.0]), np.array([0.0, 2.0]))
    ins, ok = oracle(A, X, Y)
    pts = list(zip(X[ok].tolist(), Y[ok].tolist()))
    ins = [bool(v) for v in ins[ok]]
    rec.step()
    r = gdspy.inside(pts, o)
    if list(r) != ins:
        i = [a != b for a, b in zip(r, ins)].index(True)
        rec.fail("%s: point %r is reported %r" % (case["form"], pts[i], r[i]))
    g = [pts[i : i + 3] for i in range(0, len(pts), 2)]
    gi = [ins[i : i + 3] for i in range(0, len(pts), 2)]
    for sc, f in (("any", any), ("all", all)):
        if gdspy.inside(g, o, sc) != tuple(f(v) for v in gi):
            rec.fail("%s: wrong for groups with %s" % (case["form"], sc))
    rec.expect(c11.snapshot(o) == s, "inside changed its operand %s" % case["form"])
    rec.state(case["form"])


def groups(tier):
    return [
        Group("shapes", lambda: gen_shape(tier), run_shape,
              "all rectangles, triangles and quadrilaterals of the 3x3 lattice (4x4 triangles; quadrilaterals in thorough), special shapes, pairs (triples) x all points of a 1/4 or 1/2 lattice and beside every edge and vertex, singly and in groups"),
        Group("args", lambda: gen_args(tier), run_args, "point containers, sizes, precisions"),
        Group("groups", lambda: gen_groups(tier), run_groups, "all lists of up to 3 groups of up to 3 points (4 in a single group), of 4 kinds of points, and all plain lists of up to 4, on 3 layouts"),
        Group("forms", lambda: (dict(form=f) for f in c11.FORMS), run_forms, "all operand forms"),
    ]
