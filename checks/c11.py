"""C11: boolean operations as exact set algebra on lattice layouts."""
import hashlib
import itertools

import numpy as np

from mc import geo, hier, lattice, spec
from mc.engine import Group

OPS = ("or", "and", "not", "xor")
F = {"or": lambda a, b: a | b, "and": lambda a, b: a & b, "not": lambda a, b: a & ~b,
     "xor": lambda a, b: a ^ b}
SP = lattice.SPECIAL


def sp(name, dx=0, dy=0, k=1):
    return [(k * x + dx, k * y + dy) for x, y in SP[name]]


def check(rec, res, A, B, op, prec, layer=0, datatype=0, max_points=199, scale=1.0, tag="",
          overlap=True, key=None):
    """A and B: lists of polygons (as sets of points they cover)."""
    import gdspy

    A = [np.asarray(p, dtype=float) for p in A]
    B = [np.asarray(p, dtype=float) for p in B]
    a, b = lattice.nonzero(A), lattice.nonzero(B)
    want = lambda x, y: F[op](a(x, y), b(x, y))
    # rounding moves edges by up to one grid unit each time a piece is cut; slivers of
    # a few units between nearly parallel edges are not decided
    eps = max(1e-9 * scale, 8 * prec)
    if res is None:
        x, y, ar = geo.faces(geo.edges(A + B), eps) if A or B else (np.zeros(0),) * 3
        w = want(x, y)
        if w.any():
            rec.fail("%s%s is None but should cover (%g, %g)" % (tag, op, x[w][0], y[w][0]))
        return
    rec.step()
    if not isinstance(res, gdspy.PolygonSet):
        return rec.fail("%s%s returned %r" % (tag, op, res))
    if not (len(res.polygons) == len(res.layers) == len(res.datatypes)):
        return rec.fail("%slists of different length" % tag)
    if len(res.polygons) == 0:
        return rec.fail("%s%s returned an empty set instead of None" % (tag, op))
    if set(res.layers) != {layer} or set(res.datatypes) != {datatype}:
        rec.fail("%slayers %r datatypes %r" % (tag, res.layers, res.datatypes))
    if max_points > 4:
        big = max(len(p) for p in res.polygons)
        if big > max_points:
            rec.fail("%s%d vertices with max_points %d" % (tag, big, max_points))
    if (B or op in ("or", "and")) and not geo.on_grid(res.polygons, prec):
        rec.fail("%s%s: vertices are not multiples of the precision %g: %s" % (tag, op, prec, "; ".join(map(geo.fmt, res.polygons[:6]))))
    why = geo.check_cover(res.polygons, A + B, want, eps, overlap=overlap)
    if why:
        rec.fail("%s%s: %s; result %s" % (tag, op, why, "; ".join(map(geo.fmt, res.polygons[:6]))), key)
    x, y, ar = geo.faces(geo.edges(A + B), 1e-9 * scale)
    exp = float(ar[want(x, y)].sum())
    if exp == 0:
        rec.fail("%s%s of empty area is not None: %s" % (tag, op, geo.fmt(res.polygons[0])))


def run_pair(case, rec):
    import gdspy

    A, B = case["a"], case["b"]
    for op in OPS:
        r = gdspy.boolean(A, B, op)
        check(rec, r, A, B, op, 1e-3, key="hole-" + hashlib.blake2b(
            repr((A, B, op)).encode(), digest_size=6).hexdigest())
    rec.state((len(A), len(B), [p for p in A], [p for p in B]))


def fam(tier):
    r = list(lattice.rects(4))
    t = list(lattice.triangles(3))
    q = list(lattice.quads(3))
    return r, t, q


def gen_pairs(tier):
    r, t, q = fam(tier)
    for a, b in itertools.product(r, r):
        yield dict(a=[a], b=[b])
    if tier == "thorough":
        # the second triangle is shifted by half a cell as well: crossings off the lattice
        t4 = list(lattice.triangles(4))
        for i, a in enumerate(t4):
            for b in t4[i:]:
                yield dict(a=[a], b=[b[::-1]])
        for a, b in itertools.product(q, q):
            yield dict(a=[a], b=[b])
    else:
        for a, b in itertools.product(t, t):
            yield dict(a=[a], b=[b[::-1]])
        for a in q:
            for b in r[:9] + t[:20]:
                yield dict(a=[a], b=[b])
    names = list(SP)
    for m, n in itertools.product(names, names):
        for dx, dy in ((0, 0), (1, 1), (2, 0), (-1, 2)):
            yield dict(a=[sp(m)], b=[sp(n, dx, dy)])


# layouts on which Clipper is known to misplace a hole (KNOWN_FINDINGS.txt), explored by
# the larger families of the thorough tier and repeated in every run
KNOWN = [
    ([[(0, 0), (0, 2), (1, 1), (2, 1)]], [[(0, 1), (0, 2), (2, 1), (1, 1)]]),
    ([[(0, 1), (0, 2), (2, 1), (1, 1)]], [[(0, 0), (0, 2), (1, 1), (2, 1)]]),
    ([[(0, 2), (1, 0), (1, 1), (2, 1)]], [[(0, 2), (1, 0), (2, 2), (1, 1)]]),
    ([[(0, 0), (0, 1), (2, 1)], [(0, 2), (1, 1), (2, 1)]], [[(0, 0), (2, 0), (2, 2), (0, 2)]]),
    ([[(0, 0), (0, 1), (2, 1)], [(0, 2), (1, 2), (2, 0)]], [[(0, 0), (1, 0), (1, 2), (0, 2)]]),
    ([[(0, 0), (0, 1), (2, 1)], [(0, 2), (2, 0), (2, 2)]], [[(0, 0), (1, 0), (1, 2), (0, 2)]]),
    ([[(0, 0), (0, 1), (2, 2)], [(0, 2), (1, 2), (2, 1)]], [[(0, 0), (1, 0), (1, 2), (0, 2)]]),
    ([[(0, 0), (0, 1), (2, 2)], [(0, 2), (2, 1), (2, 2)]], [[(0, 0), (1, 0), (1, 2), (0, 2)]]),
    ([[(0, 0), (0, 2), (1, 1)], [(0, 0), (1, 0), (2, 2)]], [[(0, 0), (2, 0), (2, 2), (0, 2)]]),
    ([[(0, 0), (0, 2), (1, 1)], [(0, 0), (2, 1), (2, 2)]], [[(0, 0), (2, 0), (2, 2), (0, 2)]]),
    ([[(0, 0), (1, 0), (1, 2)], [(1, 0), (1, 1), (2, 2)]], [[(0, 0), (2, 0), (2, 2), (0, 2)]]),
    ([[(0, 0), (1, 0), (2, 2)], [(0, 0), (1, 1), (1, 2)]], [[(0, 0), (2, 0), (2, 2), (0, 2)]]),
    ([[(0, 1), (0, 2), (2, 0)], [(1, 1), (1, 2), (2, 0)]], [[(0, 0), (2, 0), (2, 2), (0, 2)]]),
    ([[(0, 1), (0, 2), (2, 0)], [(1, 1), (2, 0), (2, 2)]], [[(0, 0), (2, 0), (2, 2), (0, 2)]]),
]


def gen_known(tier):
    for a, b in KNOWN:
        yield dict(a=a, b=b)


def gen_sets(tier):
    """Operands that are sets of polygons: up to three rectangles and triangles together."""
    r = list(lattice.rects(3))
    t = list(lattice.triangles(3))[:: 1 if tier == "thorough" else 5]
    for a, b in itertools.combinations(r, 2):
        for c in r:
            yield dict(a=[a, b], b=[c])
            yield dict(a=[c], b=[a, b])
    for a, b in itertools.combinations(t, 2):
        for c in r[:: 1 if tier == "thorough" else 3]:
            yield dict(a=[a, b], b=[c])
    for n in lattice.SIMPLE:
        for m in lattice.SIMPLE:
            yield dict(a=[sp(n), sp(m, 1, 0)], b=[sp("ell", 0, 1), sp("cross", 1, 1)])


MATS = {
    "id": ((1, 0), (0, 1)),
    "diag": ((1, 1), (-1, 1)),
    "skew": ((3, 1), (-1, 2)),
    "flip": ((0, 2), (3, 0)),
    "shear": ((7, 3), (2, 5)),
}


def run_pixels(case, rec):
    """Unions of unit cells and a frame minus cells: every hole pattern."""
    import gdspy

    w, h = case["w"], case["h"]
    m = MATS[case["m"]]
    for mask in range(case["lo"], case["hi"]):
        px = lattice.lin(lattice.pixels(mask, w, h, 1, 1), m)
        frame = lattice.lin([[(0, 0), (w + 2, 0), (w + 2, h + 2), (0, h + 2)]], m)
        if mask:
            check(rec, gdspy.boolean(px, None, "or"), px, [], "or", 1e-3)
            check(rec, gdspy.boolean(px[:1], px[1:], "or"), px[:1], px[1:], "or", 1e-3)
        check(rec, gdspy.boolean(frame, px, "not"), frame, px, "not", 1e-3)
        if case["x"]:
            check(rec, gdspy.boolean(px, frame, "xor"), px, frame, "xor", 1e-3)
        rec.state((w, h, case["m"], mask))
        if len(rec.fails) > 20:
            return


def gen_pixels(tier):
    plan = [(3, 3, m, True) for m in MATS] + [(4, 3, "diag", False), (4, 3, "id", False)]
    if tier == "thorough":
        plan += [(4, 3, "skew", True), (4, 3, "shear", True), (3, 4, "shear", True), (4, 4, "id", False)]
    for w, h, m, x in plan:
        n = 1 << (w * h)
        for lo in range(0, n, 64):
            yield dict(w=w, h=h, m=m, lo=lo, hi=lo + 64, x=x)


# one operand, in every accepted form; the same region for all forms of a kind
FORMS = ["polygonset", "polygon", "list", "listnp", "tuple", "intset", "ref", "array", "flex",
         "robust", "flexlist", "mix", "reflist", "emptylist", "none", "emptyset", "missing",
         "round", "text", "cw"]


def form(name):
    """(operand, polygons it covers)."""
    import gdspy

    sq = [(0, 0), (4, 0), (4, 4), (0, 4)]
    tri = [(2, 2), (7, 3), (3, 8)]
    ell = [(x + 3, y - 1) for x, y in SP["ell"]]
    cell = gdspy.Cell("F", exclude_from_current=True)
    cell.add(gdspy.PolygonSet([sq, tri], 3, 4))
    cell.add(gdspy.FlexPath([(0, 6), (6, 6)], 1, layer=2))
    inner = [sq, tri, [(0, 5.5), (6, 5.5), (6, 6.5), (0, 6.5)]]
    rot = lambda ps, a, o: [geo.Aff(geo.rot(a), complex(*o)).pts(p) for p in ps]
    if name == "polygonset":
        return gdspy.PolygonSet([sq, tri], 5, 6), [sq, tri]
    if name == "polygon":
        return gdspy.Polygon(ell, 1), [ell]
    if name == "list":
        return [list(map(list, sq)), tri], [sq, tri]
    if name == "listnp":
        return [np.array(sq), np.array(tri, dtype=float)], [sq, tri]
    if name == "tuple":
        return (sq, tri, ell), [sq, tri, ell]
    if name == "intset":
        return gdspy.PolygonSet([np.array(sq, dtype=np.int32)]), [sq]
    if name == "cw":
        return [sq[::-1], tri], [sq, tri]
    if name == "ref":
        return gdspy.CellReference(cell, (1, 2), rotation=90), rot(inner, 90, (1, 2))
    if name == "array":
        return gdspy.CellArray(cell, 2, 1, (5, 9), (-1, 0)), [
            geo.Aff(1, complex(5 * i - 1, 0)).pts(p) for i in range(2) for p in inner]
    if name == "flex":
        return gdspy.FlexPath([(0, 0), (5, 0), (5, 5)], [1, 0.5], 2), hier.path_polys_of(
            gdspy.FlexPath([(0, 0), (5, 0), (5, 5)], [1, 0.5], 2))
    if name == "robust":
        return gdspy.RobustPath((0, 3), 1).segment((6, 3)), [[(0, 2.5), (6, 2.5), (6, 3.5), (0, 3.5)]]
    if name == "flexlist":
        return [gdspy.FlexPath([(0, 3), (6, 3)], 1), gdspy.RobustPath((1, 0), 2).segment((1, 9))], [
            [(0, 2.5), (6, 2.5), (6, 3.5), (0, 3.5)], [(0, 0), (2, 0), (2, 9), (0, 9)]]
    if name == "mix":
        return [sq, gdspy.Polygon(ell), gdspy.CellReference(cell, (3, 3)),
                gdspy.FlexPath([(0, 3), (6, 3)], 1), np.array(tri)], [
            sq, ell, [(0, 2.5), (6, 2.5), (6, 3.5), (0, 3.5)], tri] + [
            geo.Aff(1, 3 + 3j).pts(p) for p in inner]
    if name == "reflist":
        return [gdspy.CellReference(cell, (1, 2), rotation=90),
                gdspy.CellArray(cell, 2, 1, (5, 9), (-1, 0))], rot(inner, 90, (1, 2)) + [
            geo.Aff(1, complex(5 * i - 1, 0)).pts(p) for i in range(2) for p in inner]
    if name == "emptylist":
        return [], []
    if name == "none":
        return None, []
    if name == "emptyset":
        return gdspy.PolygonSet([]), []
    if name == "missing":
        return gdspy.CellReference("NOWHERE", ignore_missing=True), []
    if name == "round":
        r = gdspy.Round((3, 3), 3, number_of_points=24)
        return r, [np.array(r.polygons[0])]
    if name == "text":
        r = gdspy.Text("T", 6, (0, 0))
        return r, [np.array(p) for p in r.polygons]
    raise AssertionError(name)


def snapshot(o):
    import gdspy
    from mc import mem

    if o is None:
        return None
    if isinstance(o, (list, tuple)):
        return tuple(snapshot(x) if not isinstance(x, (list, tuple, np.ndarray)) else
                     (type(x).__name__, str(getattr(x, "dtype", "")), mem.rnd(x)) for x in o)
    if isinstance(o, (gdspy.CellReference, gdspy.CellArray)) and not isinstance(o.ref_cell, str):
        return mem.fp_element(o), mem.fingerprint(o.ref_cell)
    return mem.fp_element(o)


def run_forms(case, rec):
    import gdspy

    o1, A = form(case["a"])
    o2, B = form(case["b"])
    s1, s2 = snapshot(o1), snapshot(o2)
    for op in OPS:
        for layer, dt, mp, prec in case["args"]:
            r = gdspy.boolean(o1, o2, op, precision=prec, max_points=mp, layer=layer, datatype=dt)
            # with an empty second operand the first one is returned as it is
            ov = bool(len(B)) or op not in ("not", "xor")
            check(rec, r, A, B, op, prec, layer, dt, mp, tag="%s/%s " % (case["a"], case["b"]),
                  overlap=ov)
            rec.state((case["a"], case["b"], op, mp, prec))
        if (snapshot(o1), snapshot(o2)) != (s1, s2):
            return rec.fail("%s of %s and %s changed an operand" % (op, case["a"], case["b"]))


ARGS = [(0, 0, 199, 1e-3), (7, 9, 199, 1e-3), (1, 2, 5, 1e-3), (255, 0, 0, 1e-5), (1, 0, 8, 0.01)]


def gen_forms(tier):
    for a, b in itertools.product(FORMS, FORMS):
        yield dict(a=a, b=b, args=ARGS if tier == "thorough" else [
            ARGS[0], ARGS[1 + (len(a) + len(b)) % 4]])


def run_scale(case, rec):
    import gdspy

    k, prec = case["k"], case["prec"]
    A = [[(k * x, k * y) for x, y in sp(case["a"])]]
    B = [[(k * x, k * y) for x, y in sp(case["b"], 1, 1)]]
    for op in OPS:
        r = gdspy.boolean(A, B, op, prec, case["mp"], 2, 3)
        check(rec, r, A, B, op, prec, 2, 3, case["mp"], scale=k)
    rec.state((k, prec, case["a"], case["b"], case["mp"]))


def gen_scale(tier):
    for a, b in itertools.product(lattice.SIMPLE, lattice.SIMPLE):
        for k, prec in ((1, 1e-2), (1, 1e-6), (1e-2, 1e-5), (1e4, 1e-3), (1e3, 1), (0.37, 1e-4),
                        (1.37e-5, 1e-9), (0.37, 0.015), (137, 2.5)):
            yield dict(a=a, b=b, k=k, prec=prec, mp=199)
        for mp in (0, 4, 5, 6, 7):
            yield dict(a=a, b=b, k=1, prec=1e-3, mp=mp)


def run_huge(case, rec):
    """Coordinates of up to 1e18 grid units; polygons of both orientations; holes."""
    import gdspy

    k, prec = case["k"], case["prec"]
    big = lambda polys: [[(k * x, k * y) for x, y in p] for p in polys]
    if case["m"] is None:
        A = big([sp(case["a"])[::-1], sp(case["b"], 1, 1), sp(case["c"], 2, -1)[::-1]])
        B = big([sp(case["b"], 0, 2)[::-1], sp(case["c"], 3, 1)])
    else:
        m = MATS[case["m"]]
        A = big(lattice.lin([[(0, 0), (5, 0), (5, 4), (0, 4)]], m))
        B = big(lattice.lin(lattice.pixels(case["mask"], 3, 2, 1, 1), m))
    for op in OPS:
        r = gdspy.boolean(A, B, op, prec, layer=2, datatype=3)
        check(rec, r, A, B, op, prec, 2, 3, scale=k)
        if op == "or":
            r = gdspy.boolean(A + B, None, op, prec)
            check(rec, r, A + B, [], op, prec, scale=k)
    rec.state(str(case))


def gen_huge(tier):
    for k, prec in lattice.HUGE:
        for a, b, c in itertools.product(lattice.SIMPLE, lattice.SIMPLE, ("ell", "diamond", "you") if tier == "thorough" else ("ell",)):
            yield dict(k=k, prec=prec, a=a, b=b, c=c, m=None)
        for m in MATS:
            for mask in range(1, 64, 1 if tier == "thorough" else 3):
                yield dict(k=k, prec=prec, m=m, mask=mask)


def run_limit(case, rec):
    """Limits up to 4 mean no limit; the others do not change what is covered."""
    import gdspy

    A, B = gdspy.Round((0, 0), 10, number_of_points=case["n"]), gdspy.Round((7, 1), 10, number_of_points=case["n"])
    for op in OPS:
        whole = gdspy.boolean(A, B, op, max_points=10 ** 6)
        for mp in (0, 1, 4, -1, 150, 199):
            r = gdspy.boolean(A, B, op, max_points=mp)
            if mp < 5:
                rec.step()
                why = geo.match_polygons(r.polygons, whole.polygons)
                rec.expect(why is None, lambda: "%r max_points=%d: %s" % (case, mp, why))
            else:
                check(rec, r, A.polygons, B.polygons, op, 1e-3, max_points=mp)
        r = gdspy.boolean(A, B, op)
        rec.expect(max(len(p) for p in r.polygons) <= 199, "%r: default limit" % case)
    rec.state((case["n"],))


def groups(tier):
    return [
        Group("pairs", lambda: gen_pairs(tier), run_pair,
              "all ordered pairs of rectangles (4x4 lattice), triangles, quadrilaterals (3x3) and %d special outlines x 4 operations" % len(SP)),
        Group("sets", lambda: gen_sets(tier), run_pair, "all pairs of rectangles/triangles against a third"),
        Group("known", lambda: gen_known(tier), run_pair, "%d layouts of the known findings" % len(KNOWN)),
        Group("pixels", lambda: gen_pixels(tier), run_pixels,
              "all subsets of 3x3 and 4x3 (4x4 thorough) cells: unions and hole patterns under 5 lattice maps"),
        Group("forms", lambda: gen_forms(tier), run_forms, "%d operand forms squared" % len(FORMS)),
        Group("scale", lambda: gen_scale(tier), run_scale, "sizes, precisions and vertex limits"),
        Group("huge", lambda: gen_huge(tier), run_huge, "sets and hole patterns at %d sizes of up to 1e18 grid units" % len(lattice.HUGE)),
        Group("limit", lambda: (dict(n=n) for n in (64, 150, 199, 200, 201, 400, 1000)), run_limit, "results of many vertices x limits"),
    ]
