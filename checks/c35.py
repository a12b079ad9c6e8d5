"""C35: the numeric type of coordinates and parameters changes nothing.

Every constructor, command, transformation, operation and query is given the same numbers as
Python floats and as every other kind of number and array that holds them exactly.
"""
import io
import math
import warnings

import numpy as np

from mc.engine import Group

ARRAYS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "longdouble", "object"]
# five points of a star-shaped polygon; what a type cannot hold it is not given
BASES = {
    "small": [[1, 2], [101, 2], [101, 90], [50, 120], [1, 90]],
    "signed": [[-100, -90], [110, -80], [100, 90], [0, 120], [-120, 100]],
    "byte": [[200, 210], [250, 5], [100, 30], [3, 60], [50, 240]],
    "short": [[30000, 20000], [32000, 100], [20, 300], [100, 31000], [25000, 32000]],
    "shorts": [[-30000, -20000], [32000, -29000], [30020, 300], [100, 31000], [-25000, 32000]],
    "word": [[60000, 65000], [62000, 100], [20, 300], [100, 61000], [45000, 64000]],
    "long": [[100000, 70000], [900000, 100000], [1000000, 800000], [300000, 1200000], [20000, 500000]],
    "longs": [[-100000, -1070000], [900000, -100000], [1000000, 800000], [300000, 1200000], [-820000, 500000]],
    "huge": [[1800000000, 10], [1900000000, 1700000000], [1000000000, 2000000000], [3, 1800000000], [700000000, 20000000]],
}
FORMS = ["list", "tuples", "scalars", "floats", "noncontiguous", "fortran", "bigendian", "mixed0", "mixed1"]


def holds(dt, base):
    a = np.array(base, float)
    if dt in ("object", "float64", "longdouble"):
        return True
    t = np.dtype(dt)
    if t.kind == "f":
        with np.errstate(all="ignore"):
            return bool((a.astype(t).astype(float) == a).all())
    i = np.iinfo(t)
    return bool((a >= i.min).all() and (a <= i.max).all())


def given(kind, base):
    """(points, angle, factor): the points in the form `kind`, functions for angles and factors."""
    a = np.array(base)
    num = float
    if kind.startswith("mixed"):
        # every second point and parameter is between integers, the others are given as integers
        # (as floats for the reference, "mixed0f" and "mixed1f")
        first, whole = int(kind[5]), float if kind.endswith("f") else int
        calls = [first]

        def num(v):
            calls[0] += 1
            return v + 0.5 if calls[0] % 2 else whole(v)

        return [[v + 0.5 if (i + j // (1 + first)) % 2 else whole(v) for j, v in enumerate(p)] for i, p in enumerate(a.tolist())], num
    if kind in ARRAYS:
        a = a.astype(kind)
        # signed integers of 32 bits or more, doubles and Python integers: the functions of numpy
        # compute with less precision in smaller types, and negative values wrap in unsigned ones
        num = np.dtype(kind).type if kind in ("int32", "int64", "float64") else int
    elif kind == "list":
        a, num = a.tolist(), int
    elif kind == "tuples":
        a, num = tuple(map(tuple, a.tolist())), int
    elif kind == "scalars":
        a, num = [[np.int64(x), np.int32(y) if abs(y) < 2 ** 31 else np.int64(y)] for x, y in a.tolist()], np.int32
    elif kind == "floats":
        a = a.astype(float).tolist()
    elif kind == "noncontiguous":
        b = np.zeros((len(a) * 2, 4))
        b[::2, 1:3] = a
        a = b[::2, 1:3]
    elif kind == "fortran":
        a = np.asfortranarray(a.astype(float))
    elif kind == "bigendian":
        a, num = a.astype(">i4" if np.abs(a).max() < 2 ** 31 else ">i8"), int
    return a, num


def polys(e):
    import gdspy

    ps = e.polygons if isinstance(e, gdspy.PolygonSet) else e.get_polygons() if hasattr(e, "get_polygons") else e
    return [np.asarray(p, dtype=float).reshape(-1, 2) for p in ps]


def gds(e):
    b = io.BytesIO()
    e.to_gds(b, 1000.0)
    return b.getvalue()


def svg(e, scaling=10):
    s = io.StringIO()
    e.to_svg(s, scaling, 4)
    return s.getvalue().replace("-0.0 ", "0.0 ").replace("-0.0)", "0.0)").replace("-0.0,", "0.0,")


def star(d):
    """The points as a simple polygon around their centre (a list of the rows given)."""
    f = np.array([[float(x), float(y)] for x, y in d])
    c = f.mean(axis=0)
    return [d[i] for i in np.argsort(np.arctan2(f[:, 1] - c[1], f[:, 0] - c[0]), kind="stable")]


def world():
    import gdspy

    c = gdspy.Cell("C", exclude_from_current=True)
    c.add([gdspy.Rectangle((0.0, 0.0), (3.0, 2.0)), gdspy.Label("a", (1.0, 2.0)), gdspy.FlexPath([(0.0, 0.0), (5.0, 1.0)], 1.0)])
    return c


def uses():
    import gdspy as g

    c = world()
    pi = math.pi
    u = {}

    def poly(d):
        return g.Polygon(d)

    u["area"] = lambda d, n: [float(poly(d).area()), float(g.PolygonSet([d]).area()), sorted((k, float(v)) for k, v in poly(d).area(True).items()), float(g.Rectangle(d[0], d[2]).area())]
    u["bbox"] = lambda d, n: [poly(d).get_bounding_box(), g.PolygonSet([d, d]).get_bounding_box(), g.Rectangle(d[1], d[3]).get_bounding_box()]
    u["svg"] = lambda d, n: [svg(poly(d)), svg(g.Rectangle(d[0], d[2])), svg(g.Label("t", d[1])), svg(g.CellReference(c, d[1])), svg(poly(d), n(3))]
    u["gds"] = lambda d, n: [gds(e).hex() for e in (poly(d), g.Rectangle(d[0], d[2]), g.Label("t", d[1]), g.CellReference(c, d[1]))] if np.abs(np.array(d, float)).max() < 2e6 else 0
    u["translate"] = lambda d, n: [polys(f(d).translate(d[k][0], d[k][1])) for k in (0, 2) for f in (g.Polygon, lambda d: g.Rectangle(d[0], d[2]))]
    u["rotate"] = lambda d, n: [polys(poly(d).rotate(0.5, d[k])) for k in (0, 3)] + [polys(poly(d).rotate(n(2)))]
    u["scale"] = lambda d, n: [polys(poly(d).scale(n(2), n(3), d[k])) for k in (0, 3)] + [polys(poly(d).scale(n(3)))]
    u["mirror"] = lambda d, n: [polys(poly(d).mirror(d[k], d[j])) for k, j in ((0, 1), (2, 1), (3, 0))] + [polys(poly(d).mirror(d[1]))]
    u["fillet"] = lambda d, n: [polys(poly(star(d)).fillet(n(3))), polys(g.Polygon(star(d)).fillet([n(1), n(2), n(3), n(2), n(1)])), polys(g.Rectangle(d[0], d[2]).fillet(n(2)))]
    u["fracture"] = lambda d, n: [polys(g.Polygon(list(star(d)) + [star(d)[-1]]).fracture(5, 1e-2))]
    u["boolean"] = lambda d, n: [polys(g.boolean(g.Polygon(star(d)), g.Rectangle(d[0], d[2]), op, precision=0.01)) for op in ("or", "and", "not")] + [polys(g.boolean([star(d)], [d[1:4]], "xor", precision=0.01))]
    u["offset"] = lambda d, n: [polys(g.offset(g.Polygon(star(d)), n(2), precision=0.01)), polys(g.offset([star(d)], -0.5, precision=0.01))]
    u["slice"] = lambda d, n: [polys([q for r in g.slice(e, [d[3][0], d[2][0]], 0, precision=0.01) if r for q in r.polygons]) for e in (g.Polygon(star(d)), [star(d)])]
    u["inside"] = lambda d, n: [list(g.inside(d, g.Polygon(star(d)).scale(0.75), precision=0.01)), list(g.inside([d, d[1:3]], [star(d)], "any", precision=0.01))]
    u["copy"] = lambda d, n: [polys(g.copy(poly(d), d[1][0], d[1][1]))]
    u["PolygonSet"] = lambda d, n: [polys(g.PolygonSet([d, d[1:4]], 3, 4).translate(d[0][0], d[0][1]))]
    u["Round"] = lambda d, n: [polys(g.Round(d[0], n(7))), polys(g.Round(d[1], [n(9), n(5)], n(3), n(1), n(2), number_of_points=24)), polys(g.Round(d[2], n(5), max_points=9, number_of_points=20))]
    u["Text"] = lambda d, n: [polys(g.Text("a\tb\nc", n(9), d[0])), polys(g.Text("a\tb\nc", n(9), d[1], False, n(1)))]
    u["PolyPath"] = lambda d, n: [polys(g.PolyPath(star(d), n(2), 2, n(5), corners="bevel", ends="extended"))]
    u["L1Path"] = lambda d, n: [polys(g.L1Path(d[0], "+x", n(2), [n(9), n(8), n(30)], [1, -1], 2, n(4)))]

    def path(d, n, *q):
        p = g.Path(n(2), d[0], 2, n(5)).segment(n(30), "+x").turn(n(9), "l").arc(n(9), n(1), n(2)).segment(n(8), n(2), n(1), n(4))
        return polys(p) + [np.array([p.x, p.y], float).reshape(1, 2), np.array([[float(p.length), 0]])]

    u["Path"] = lambda d, n: [path(d, n), polys(g.Path(n(2), d[0]).segment(20, 0.5).translate(d[1][0], d[1][1]).rotate(n(1), d[2]).scale(n(2), n(3), d[1]).mirror(d[1], d[3]).segment(n(5)))]
    u["Path curves"] = lambda d, n: [polys(g.Path(n(2), d[0]).bezier([(5, 5), (9, n(3)), (20, 8)], final_width=n(4))), polys(g.Path(n(2), d[0]).smooth([(20, 5), (40, n(3))]))]

    def flex(e):
        return polys(e) + [np.asarray(e.points, float)]

    for k, kw in (("natural", {}), ("miter", dict(corners="miter", ends="extended")), ("bevel", dict(corners="bevel", ends="round")), ("round", dict(corners="round", ends=(1, 2)))):
        u["FlexPath " + k] = lambda d, n, kw=kw: [flex(g.FlexPath(star(d), n(2), **kw)), flex(g.FlexPath(star(d), [n(2), n(3)], n(5), **kw)), flex(g.FlexPath(star(d), [n(2), n(1)], [n(3), n(0)], **kw))]
    u["FlexPath array"] = lambda d, n: [flex(g.FlexPath(d[:3], n(2))), flex(g.FlexPath(d[:2], n(2)))]
    u["FlexPath bend"] = lambda d, n: [flex(g.FlexPath(star(d)[:3], n(2), n(1), corners="circular bend", bend_radius=n(6)))]
    u["FlexPath commands"] = lambda d, n: [flex(g.FlexPath(d[:1], n(2)).segment(d[1]).segment(d[2], n(4), n(1), relative=True).segment(d[3], [n(2)], [n(0)], True)),
                                           flex(g.FlexPath([d[0]], n(2)).arc(n(9), n(0), n(1)).turn(n(8), n(1)).turn(n(5), "l")),
                                           flex(g.FlexPath([d[0]], n(2)).segment(d[1]).turn(n(8), "r")),
                                           flex(g.FlexPath([d[0]], n(2), tolerance=50).bezier(d[1:4])), flex(g.FlexPath([d[0]], n(2), tolerance=50).smooth(d[1:4], relative=False)),
                                           flex(g.FlexPath([d[0]], n(2), tolerance=50).smooth([d[1]], relative=True))]
    u["FlexPath transforms"] = lambda d, n: [flex(g.FlexPath(star(d), [n(2), n(3)], n(5)).translate(d[1][0], d[1][1]).rotate(n(1), d[2]).scale(n(3), d[3])), flex(g.FlexPath(star(d), n(2)).scale(n(2))),
                                             flex(g.FlexPath(star(d), n(2)).transform(d[1], n(1), n(2), True))]
    u["FlexPath gds"] = lambda d, n: [gds(g.FlexPath(star(d), [n(2), n(3)], n(5), ends=(n(1), n(2)), gdsii_path=True)).hex()] if np.abs(np.array(d, float)).max() < 2e6 else 0

    def rob(e):
        out = [np.array([e(t) for t in (0, 0.5, 1)], float), np.array(e.x, float).reshape(1, 2)]
        return out + (polys(e) if np.abs(out[0]).max() < 1e5 else [])

    u["RobustPath"] = lambda d, n: [rob(g.RobustPath(d[0], n(2), tolerance=0.1).segment(d[1]).segment(d[3], n(4), n(1))), rob(g.RobustPath(d[0], [n(2), n(3)], n(5), tolerance=0.1).segment(d[1], relative=True).segment(d[2], [n(2), n(1)], [n(3), n(0)], relative=True)),
                                    rob(g.RobustPath(d[0], [n(2), n(3)], [n(1), n(0)], tolerance=0.1).arc(n(9), n(0), n(1)).turn(n(8), n(1)).turn(n(5), "l")), rob(g.RobustPath(d[0], n(2)).segment(d[1]).turn(n(8), "r"))]
    u["RobustPath curves"] = lambda d, n: [np.array(e(t)).reshape(-1, 2).astype(float) for f in (lambda: g.RobustPath(d[0], n(2)).bezier(d[1:4], relative=False), lambda: g.RobustPath(d[0], n(2)).bezier(d[1:4], relative=True),
                                           lambda: g.RobustPath(d[0], n(2)).smooth(d[1:4], relative=False), lambda: g.RobustPath(d[0], n(2)).smooth(d[1:4], relative=True)) for e in [f()] for t in (0, 0.3, 1)]
    u["RobustPath transforms"] = lambda d, n: [rob(g.RobustPath(d[0], [n(2), n(3)], n(5), tolerance=0.1).segment(d[1]).translate(d[1][0], d[1][1]).rotate(n(1), d[2]).scale(n(3), d[3]).segment(d[0], relative=True)),
                                               rob(g.RobustPath(d[0], n(2), tolerance=0.1).segment(d[1]).transform(d[1], n(1), n(2), True).segment(d[2]))]

    def curve(e):
        return [np.asarray(e.get_points(), float)]

    u["Curve"] = lambda d, n: [curve(g.Curve(d[0][0], d[0][1], 50).l(d[1][0], d[1][1], d[2][0], d[2][1]).h(d[0][0], d[3][0]).V(d[1][1]).L(d[0][0], d[0][1])), curve(g.Curve(d[0][0], d[0][1], 50).c(d[1][0], d[1][1], d[2][0], d[2][1], d[3][0], d[3][1]).s(d[0][0], d[0][1], d[1][0], d[1][1])),
                               curve(g.Curve(d[0][0], d[0][1], 50).q(d[1][0], d[1][1], d[2][0], d[2][1]).t(d[0][0], d[0][1]).H(d[1][0]).v(d[2][1])), curve(g.Curve(d[0][0], d[0][1], 50).Q(d[1][0], d[1][1], d[2][0], d[2][1]).T(d[3][0], d[3][1])),
                               curve(g.Curve(d[0][0], d[0][1], 50).C(d[1][0], d[1][1], d[2][0], d[2][1], d[3][0], d[3][1]).S(d[0][0], d[0][1], d[1][0], d[1][1])),
                               curve(g.Curve(d[0][0], d[0][1]).arc(n(5), n(0), n(2)).arc([n(5), n(9)], n(1), n(3), n(1)))]
    u["Curve points"] = lambda d, n: [curve(g.Curve(d[0][0], d[0][1], 50).B(*[v for q in d[1:4] for v in q])), curve(g.Curve(d[0][0], d[0][1], 50).b(*[v for q in d[1:4] for v in q])), curve(g.Curve(0, 0, 50).I(d[1:4])), curve(g.Curve(0, 0, 50).i(d[1:4], cycle=True))]

    def q(r):
        return [polys(r.get_polygons()), [p for s in r.get_polygonsets() for p in polys(s)], polys([np.array(l.position) for l in r.get_labels()]), [p for e in r.get_paths() for p in polys(e)],
                r.get_bounding_box(), sorted((k, float(v)) for k, v in r.area(True).items()), polys([p for v in r.get_polygons(True).values() for p in v])]

    u["CellReference"] = lambda d, n: [q(g.CellReference(c, d[0])), q(g.CellReference(c, d[1], n(45), n(2), True)), q(g.CellReference(c, d[1], n(90), n(3)))]
    u["CellArray"] = lambda d, n: [q(g.CellArray(c, 3, 2, d[1], d[0])), q(g.CellArray(c, 2, 3, d[0], d[1], n(45), n(2), True)), q(g.CellArray(c, 2, 2, d[0], d[1], n(90), n(3)))]
    u["reference translate"] = lambda d, n: [q(g.CellReference(c, d[0]).translate(d[1][0], d[1][1])), q(g.CellArray(c, 2, 2, d[2], d[0]).translate(d[1][0], d[1][1]))]
    u["array gds"] = lambda d, n: [gds(g.CellArray(c, 3, 2, d[1], d[0], *t)).hex() for t in ((), (None, None, True), (n(90),), (n(45), n(2), True))] if np.abs(np.array(d, float)).max() < 2e5 else 0
    u["array svg"] = lambda d, n: [svg(g.CellArray(c, 3, 2, d[1], d[0])), svg(g.CellArray(c, 2, 2, d[1], d[0], n(90), n(2), True), n(3))]
    u["Label"] = lambda d, n: [polys([g.Label("a", d[0]).translate(d[1][0], d[1][1]).position]), [str(v) for v in (g.Label("a", d[0], layer=n(3)).layer,)] and []]

    def cell(d, n):
        e = g.Cell("D", exclude_from_current=True)
        e.add([g.Polygon(d), g.FlexPath(d[:2], n(2)), g.CellReference(c, d[0]), g.CellArray(c, 2, 2, d[2], d[1]), g.Label("x", d[3])])
        f = e.copy("E", translation=d[1], rotation=n(1), scale=n(2), x_reflection=True)
        return [polys(e.get_polygons()), polys(f.get_polygons()), polys([np.array(l.position) for k in (e, f) for l in k.get_labels()]), e.get_bounding_box(), float(e.area())]

    u["Cell"] = cell
    return u


# what takes points one by one and keeps them as they are given: no types that overflow in ordinary arithmetic
SINGLE = {"CellReference", "CellArray", "reference translate", "array gds", "array svg", "Label", "Cell", "svg", "gds"}
# what takes points as an array and so any object that numpy can convert
WHOLE = {"area", "bbox", "translate", "rotate", "scale", "mirror", "fillet", "fracture", "boolean", "offset", "inside", "PolygonSet", "PolyPath", "FlexPath natural", "FlexPath miter", "FlexPath bevel", "FlexPath round", "FlexPath array", "FlexPath bend"}


def close(a, b, tol):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool((np.abs(a - b) <= tol * (1 + np.abs(b).max(initial=0))).all())
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return abs(a - b) <= tol * (1 + abs(b))
    return a == b


USES = {}
WANT = {}


def answer(use, kind, base):
    if not USES:
        USES.update(uses())
    d, n = given(kind, BASES[base])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return USES[use](d, n)


def want(use, base, mixed):
    """The answer for Python floats and an array of doubles made from them."""
    if (use, base, mixed) not in WANT:
        WANT[use, base, mixed] = answer(use, mixed + "f" if mixed else "float64", base)
    return WANT[use, base, mixed]


def run(case, rec):
    for kind in case["kinds"]:
        w = want(case["use"], case["base"], kind if kind.startswith("mixed") else "")
        rec.step()
        try:
            got = answer(case["use"], kind, case["base"])
        except Exception as ex:
            rec.fail("%s of %s points given as %s: %s: %s" % (case["use"], case["base"], kind, type(ex).__name__, ex))
            return
        if not close(got, w, 1e-9):
            rec.fail("%s of %s points given as %s: %s, as floats %s" % (case["use"], case["base"], kind, str(got)[:150], str(w)[:150]))
            return
        rec.state((case["use"], case["base"], kind))


def gen():
    for use in uses():
        for base in BASES:
            kinds = [k for k in ARRAYS + FORMS if k in FORMS or holds(k, BASES[base])]
            if use in SINGLE:
                kinds = [k for k in kinds if k in FORMS + ["int32", "int64", "float64", "longdouble"] and (base != "huge" or k not in ("int32", "bigendian", "scalars"))]
            if use not in WHOLE:
                kinds = [k for k in kinds if k != "object" and (base != "huge" or k != "float32")]
            for k in kinds:
                yield dict(use=use, base=base, kinds=[k])


def groups(tier):
    return [Group("types", gen, run, "all constructors, commands, transformations, operations and queries x 9 sets of points x all types of arrays, scalars and sequences that hold them")]
