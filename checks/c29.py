"""C29: no query or operation modifies its operands, and nothing shares mutable state.

Every public query is followed by the destruction of its result and by every other query;
results are held while the layout is edited; arguments are changed after each call.
"""
import copy
import io
import itertools
import math
import warnings

import numpy as np

from mc.engine import Group

# ---- what can be observed about anything


def canon(x, deep=True):
    """Hashable image of all public state (never calls a method that may cache)."""
    import gdspy

    if x is None or isinstance(x, (str, bytes, bool)):
        return x
    if isinstance(x, (int, float, np.number)):
        return round(float(x), 8)
    if isinstance(x, complex):
        return canon([x.real, x.imag])
    if isinstance(x, np.ndarray):
        return ("array", x.shape, tuple(canon(v) for v in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(v) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((canon(v) for v in x), key=repr))
    if isinstance(x, gdspy.Cell):
        return ("cell", x.name) + tuple(canon(list(getattr(x, a))) for a in ("polygons", "paths", "labels", "references"))
    if isinstance(x, gdspy.GdsLibrary):
        return ("lib", x.name, x.unit, x.precision, canon(dict(x.cells)))
    if isinstance(x, gdspy.Curve):
        return ("curve", canon(copy.deepcopy(x).get_points()))
    if isinstance(x, gdspy.RobustPath):
        at = [(canon(np.array([p(u, 0) for u in (0, 0.5, 1)], float)), canon([p.width(0.5)])) for k in x.paths for p in k]
        return ("RobustPath", tuple(at), canon([list(x.x), x.n, x.widths, x.offsets, x.layers, x.datatypes, x.ends, x.properties,
                                                x.tolerance, x.precision, x.max_points, x.gdsii_path, x.width_transform]))
    if callable(x):
        return "function"
    names = []
    for c in type(x).__mro__:
        s = c.__dict__.get("__slots__", ())
        names += [s] if isinstance(s, str) else list(s)
    names += list(getattr(x, "__dict__", {}))
    out = [type(x).__name__]
    for n in sorted(set(names)):
        if n.startswith("_") or not hasattr(x, n):
            continue
        v = getattr(x, n)
        out.append((n, v.name if n == "ref_cell" and isinstance(v, gdspy.Cell) else canon(v)))
    return tuple(out)


def ruin(x, seen=None):
    """Change everything that can be changed in place in a result or argument."""
    import gdspy

    seen = set() if seen is None else seen
    if id(x) in seen or x is None or isinstance(x, (str, bytes, int, float, complex, gdspy.Cell, gdspy.GdsLibrary)):
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x += np.array(1000).astype(x.dtype)
        return
    if isinstance(x, tuple):
        for v in x:
            ruin(v, seen)
        return
    if isinstance(x, list):
        for v in x:
            ruin(v, seen)
        if x:
            x.append(x[0])
            x.reverse()
            if isinstance(x[-1], (int, float)):
                x[-1] += 13
        else:
            x.append(None)
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            ruin(v, seen)
        x.clear()
        x["ruined"] = 1
        return
    if isinstance(x, set):
        x.clear()
        return
    if isinstance(x, gdspy.Curve):
        x.l(1000, 1000)
        return
    if isinstance(x, Box):
        for v in vars(x).values():
            ruin(v, seen)
        return
    if isinstance(x, (gdspy.FlexPath, gdspy.RobustPath, gdspy.PolygonSet, gdspy.Label)):
        for n in ("polygons", "layers", "datatypes", "properties", "points", "widths", "offsets", "position", "ends", "corners", "bend_radius", "x"):
            v = getattr(x, n, None)
            if isinstance(v, (list, dict, np.ndarray)):
                ruin(v, seen)
        for n in ("text",):
            if hasattr(x, n):
                setattr(x, n, "ruined")


# ---- a layout with everything in it

def world():
    import gdspy

    w = {}
    lib = w["lib"] = gdspy.GdsLibrary("L")
    leaf, mid, top = [lib.new_cell(n) for n in ("LEAF", "MID", "TOP")]
    ps = gdspy.PolygonSet([[(0, 0), (4, 0), (4, 3)], np.array([(5, 5), (9, 5), (9, 9), (5, 9)], float)])
    ps.layers, ps.datatypes = [1, 2], [3, 4]
    ps.properties[1] = "one"
    r = gdspy.Round((2, 2), 3, inner_radius=1, number_of_points=20, layer=5)
    fl = gdspy.FlexPath([(0, 0), (10, 0), (10, 8)], [0.5, 0.75], [-1, 1], corners=["natural", "bevel"], ends=["flush", (1, 0.5)], layer=[1, 6], datatype=[2, 7])
    fl.properties[2] = "two"
    sm = gdspy.FlexPath([(20, 0), (30, 0), (30, 8)], 1, corners="circular bend", bend_radius=2, gdsii_path=True, layer=8)
    rb = gdspy.RobustPath((0, 12), [1, 0.5], 2, ends=["flush", "extended"], layer=[3, 4], datatype=[1, 2]).segment((8, 12), [0.5, 1]).turn(3, "l")
    rb.properties[3] = "three"
    rg = gdspy.RobustPath((0, 30), 1, gdsii_path=True, layer=9).segment((8, 30)).arc(4, -math.pi / 2, 0)
    lb = gdspy.Label("lbl", (1, 2), "nw", 30, 2, True, 3, 4)
    lb.properties[4] = "four"
    leaf.add([ps, r, fl, sm, rb, rg, lb])
    ref = gdspy.CellReference(leaf, [3, -2], 90, 2, True)
    ref.properties[5] = "five"
    arr = gdspy.CellArray(mid, 2, 2, [60, 70], np.array((1.0, 1.0)), 45)
    arr.properties[6] = "six"
    plain = gdspy.CellReference(leaf)
    mid.add([ref, gdspy.Rectangle((0, 0), (1, 2), layer=11), gdspy.Label("mid", (0, 0))])
    top.add([arr, plain, gdspy.Rectangle((5, 5), (7, 8)), gdspy.Path(1, (0, 0)).segment(5, "+y").turn(2, "r")])
    cv = gdspy.Curve(0, 0).l(3, 0, 3, 3).c(0, 1, -1, 2, -2, 2)
    w.update(LEAF=leaf, MID=mid, TOP=top, ps=ps, round=r, flex=fl, flexgds=sm, rob=rb, robgds=rg, label=lb, ref=ref, arr=arr, plain=plain, curve=cv)
    return w


def binary(o):
    b = io.BytesIO()
    o.to_gds(b, 1000)
    return b.getvalue()


def svg(o):
    b = io.StringIO()
    o.to_svg(b, 3, 6)
    return b.getvalue()


def written(w):
    b = io.BytesIO()
    w["lib"].write_gds(b, timestamp=__import__("datetime").datetime(2020, 1, 1))
    return b.getvalue()


def drawn(w):
    b = io.StringIO()
    w["TOP"].write_svg(b)
    # the order of the definitions is not fixed
    return "\n".join(sorted(b.getvalue().split("\n")))


def make_queries():
    q = {}

    def add(name, f):
        q[name] = f

    for c in ("LEAF", "MID", "TOP"):
        for d in (None, 0, 1):
            if d is not None and c == "LEAF":
                continue
            add("%s.polygons(%s)" % (c, d), lambda w, c=c, d=d: w[c].get_polygons(depth=d))
            add("%s.spec(%s)" % (c, d), lambda w, c=c, d=d: w[c].get_polygons(True, d))
            add("%s.paths(%s)" % (c, d), lambda w, c=c, d=d: w[c].get_paths(d))
            add("%s.sets(%s)" % (c, d), lambda w, c=c, d=d: w[c].get_polygonsets(d))
            add("%s.labels(%s)" % (c, d), lambda w, c=c, d=d: w[c].get_labels(d, True))
        for k in ((1, 3), (6, 7)) if c == "LEAF" else ((11, 0),) if c == "MID" else ((0, 0), (4, 2)):
            add("%s.one(%s)" % (c, k), lambda w, c=c, k=k: w[c].get_polygons(k))
        add(c + ".labels", lambda w, c=c: w[c].get_labels())
        add(c + ".bbox", lambda w, c=c: w[c].get_bounding_box())
        add(c + ".area", lambda w, c=c: w[c].area(True))
        add(c + ".layers", lambda w, c=c: w[c].get_layers())
        add(c + ".datatypes", lambda w, c=c: w[c].get_datatypes())
        add(c + ".texttypes", lambda w, c=c: w[c].get_texttypes())
        add(c + ".classes", lambda w, c=c: w[c].get_svg_classes())
        add(c + ".deps", lambda w, c=c: w[c].get_dependencies(True))
        add(c + ".copy", lambda w, c=c: parts(w[c].copy("COPY", deep_copy=True)))
        add(c + ".moved", lambda w, c=c: parts(w[c].copy("COPY", deep_copy=True, translation=(1, 2), rotation=0.5, scale=2, x_reflection=True)))
        add(c + ".shallow", lambda w, c=c: [list(getattr(w[c].copy("COPY"), a)) and None for a in ("polygons", "paths", "labels", "references")])
        add(c + ".iter", lambda w, c=c: [type(e).__name__ for e in w[c]])
        add(c + ".str", lambda w, c=c: str(w[c]))
    for r in ("ref", "arr", "plain"):
        add(r + ".polygons", lambda w, r=r: w[r].get_polygons())
        add(r + ".spec", lambda w, r=r: w[r].get_polygons(True))
        add(r + ".one", lambda w, r=r: w[r].get_polygons((2, 4)))
        add(r + ".sets", lambda w, r=r: w[r].get_polygonsets())
        add(r + ".paths", lambda w, r=r: w[r].get_paths())
        add(r + ".labels", lambda w, r=r: w[r].get_labels(set_transform=True))
        add(r + ".bbox", lambda w, r=r: w[r].get_bounding_box())
        add(r + ".area", lambda w, r=r: w[r].area(True))
        add(r + ".gds", lambda w, r=r: binary(w[r]))
    for e in ("ps", "round"):
        add(e + ".bbox", lambda w, e=e: w[e].get_bounding_box())
    for e in ("ps", "round", "flex", "flexgds", "rob", "robgds"):
        add(e + ".area", lambda w, e=e: w[e].area(True))
        add(e + ".gds", lambda w, e=e: binary(w[e]))
        add(e + ".svg", lambda w, e=e: svg(w[e]))
    for e in ("flex", "flexgds", "rob", "robgds"):
        add(e + ".polygons", lambda w, e=e: w[e].get_polygons())
        add(e + ".spec", lambda w, e=e: w[e].get_polygons(True))
        add(e + ".set", lambda w, e=e: w[e].to_polygonset())
    add("rob()", lambda w: [w["rob"](u, a) for u in (0, 0.5, 1, 2) for a in (-1, 0, 1)])
    add("rob.grad", lambda w: [w["rob"].grad(u, 0, s) for u in (0, 1, 1.5, 2) for s in "-+"])
    add("rob.width", lambda w: [w["rob"].width(u) for u in (0, 1, 1.5, 2)])
    add("label.gds", lambda w: binary(w["label"]))
    add("label.svg", lambda w: svg(w["label"]))
    add("curve", lambda w: w["curve"].get_points())
    for e in ("ps", "round", "flex", "rob", "label", "curve"):
        add("copy " + e, lambda w, e=e: gcopy(w[e], 1))
        add("copy0 " + e, lambda w, e=e: gcopy(w[e], 0))
        add("str " + e, lambda w, e=e: str(w[e]) + repr(w[e]) if e == "label" else str(w[e]) if e != "curve" else "")
    add("top_level", lambda w: [c.name for c in w["lib"].top_level()])
    add("top_level list", lambda w: w["lib"].top_level())
    add("write", written)
    add("svg file", drawn)
    for a, b in (("ps", "round"), ("flex", "rob"), ("ref", "arr")):
        for op in ("or", "and", "not", "xor"):
            add("boolean %s %s %s" % (a, op, b), lambda w, a=a, b=b, op=op: result(op, w[a], w[b]))
    add("boolean not nothing", lambda w: result("not", w["ps"], None))
    add("boolean xor empty", lambda w: result("xor", w["ps"], []))
    add("boolean list", lambda w: result("or", [w["ps"], w["flex"]], [w["ref"], w["round"]]))
    add("boolean not list", lambda w: result("not", [w["ps"], w["round"].polygons[0]], []))
    for a in ("ps", "flex", "rob", "ref"):
        add("offset " + a, lambda w, a=a: call("offset", w[a], 0.25))
        add("offset0 " + a, lambda w, a=a: call("offset", w[a], -0.25, join_first=True))
        add("slice " + a, lambda w, a=a: call("slice", w[a], [1, 6], 0))
        add("slice off " + a, lambda w, a=a: call("slice", w[a], [5000], 1))
        add("slice none " + a, lambda w, a=a: call("slice", w[a], [], 1))
        add("inside " + a, lambda w, a=a: call("inside", [(0.5, 0.1), (6, 6), (-90, 3)], w[a]))
    return q


def parts(c):
    return [list(c.polygons), list(c.paths), list(c.labels), [Box(r) for r in c.references]]


class Box:
    """The mutable attributes of a reference of a copied cell."""

    def __init__(self, ref):
        self.origin, self.properties, self.spacing = ref.origin, ref.properties, getattr(ref, "spacing", None)


def gcopy(o, d):
    import gdspy

    # curves cannot be translated
    return gdspy.copy(o, d, 2 * d) if not isinstance(o, gdspy.Curve) else copy.deepcopy(o)


def result(op, a, b):
    import gdspy

    return gdspy.boolean(a, b, op)


def call(name, *a, **k):
    import gdspy

    return getattr(gdspy, name)(*a, **k)


QUERIES = make_queries()
BASE = {}


def base(q):
    if q not in BASE:
        BASE[q] = canon(QUERIES[q](world()))
    return BASE[q]


def state(w):
    return canon({k: v for k, v in w.items()})


START = []


def start():
    if not START:
        START.append(state(world()))
    return START[0]


def run(case, rec):
    """Query, ruin the result, query everything else (ruining each result too, in thorough pairs)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = world()
        hist = []
        for q in case["q"]:
            r = QUERIES[q](w)
            rec.step()
            if not rec.expect(canon(r) == base(q), lambda: "%s after %s (results ruined) gives another result" % (q, hist)):
                return
            if not rec.expect(state(w) == start(), lambda: "%s modifies the layout: %s" % (q, differs(w))):
                return
            ruin(r)
            hist.append(q)
            if not rec.expect(state(w) == start(), lambda: "the result of %s shares memory with the layout: %s" % (q, differs(w))):
                return
        if case.get("all"):
            for q in QUERIES:
                r = QUERIES[q](w)
                rec.step()
                if not rec.expect(canon(r) == base(q), lambda: "%s changes after the result of %s was modified" % (q, hist)):
                    return
        rec.state(tuple(case["q"]))


def differs(w):
    a, b = dict((k, canon(v)) for k, v in world().items()), dict((k, canon(v)) for k, v in w.items())
    return [k for k in a if a[k] != b[k]]


def gen(tier):
    for q in QUERIES:
        yield dict(q=[q], all=1)
    for q in QUERIES:
        yield dict(q=[q, q], all=1)
    if tier == "thorough":
        for e in itertools.product(QUERIES, repeat=2):
            yield dict(q=list(e) + [e[0], e[1]])


# ---- results held while the layout changes

EDITS = {
    "ps.translate": lambda w: w["ps"].translate(3, 4), "ps.rotate": lambda w: w["ps"].rotate(0.3), "ps.scale": lambda w: w["ps"].scale(2),
    "ps.mirror": lambda w: w["ps"].mirror((1, 1)), "ps.fracture": lambda w: w["round"].fracture(6), "ps.fillet": lambda w: w["ps"].fillet(0.3),
    "ps.vertex": lambda w: w["ps"].polygons[0].__iadd__(5), "ps.layer": lambda w: w["ps"].layers.__setitem__(0, 50), "ps.props": lambda w: w["ps"].properties.__setitem__(1, "new"),
    "ps.drop": lambda w: [getattr(w["ps"], a).pop() for a in ("polygons", "layers", "datatypes")],
    "flex.translate": lambda w: w["flex"].translate(1, 1), "flex.rotate": lambda w: w["flex"].rotate(1), "flex.scale": lambda w: w["flexgds"].scale(3),
    "flex.segment": lambda w: w["flex"].segment((0, 8)), "flex.point": lambda w: w["flex"].points.__iadd__(2), "flex.layer": lambda w: w["flex"].layers.__setitem__(1, 51),
    "rob.translate": lambda w: w["rob"].translate(1, 1), "rob.rotate": lambda w: w["rob"].rotate(1), "rob.scale": lambda w: w["rob"].scale(2), "rob.segment": lambda w: w["rob"].segment((0, 20)),
    "rob.layer": lambda w: w["rob"].layers.__setitem__(1, 52),
    "label.translate": lambda w: w["label"].translate(1, 1), "label.position": lambda w: w["label"].position.__iadd__(3), "label.text": lambda w: setattr(w["label"], "text", "new"),
    "label.props": lambda w: w["label"].properties.__setitem__(4, "new"),
    "ref.translate": lambda w: w["ref"].translate(1, 1), "ref.set": lambda w: setattr(w["ref"], "rotation", 10), "arr.translate": lambda w: w["arr"].translate(1, 1),
    "ref.origin": lambda w: w["ref"].origin.__setitem__(0, 77), "arr.spacing": lambda w: w["arr"].spacing.__setitem__(0, 77), "arr.origin": lambda w: w["arr"].origin.__iadd__(7),
    "ref.props": lambda w: w["ref"].properties.__setitem__(5, "new"), "cell.add": lambda w: w["LEAF"].add(w["plain"].__class__(w["MID"]) and __import__("gdspy").Rectangle((0, 0), (99, 99))),
    "cell.remove": lambda w: w["LEAF"].remove_polygons(lambda p, l, d: l == 1), "cell.flatten": lambda w: w["TOP"].flatten(),
    "cell.paths": lambda w: w["LEAF"].remove_paths(lambda p: True), "cell.labels": lambda w: w["LEAF"].remove_labels(lambda p: True),
    "curve.l": lambda w: w["curve"].l(9, 9),
    "lib.new": lambda w: w["lib"].new_cell("EXTRA"), "lib.rename": lambda w: w["lib"].rename_cell(w["LEAF"], "RENAMED"), "lib.remove": lambda w: w["lib"].remove("MID"),
}


def held(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = case["q"]
        for name in EDITS:
            w = world()
            r = QUERIES[q](w)
            import gdspy
            has_cells = q.endswith(".deps") or q == "top_level list"
            if has_cells:
                r = [c.name for c in r]
                if name == "lib.rename":
                    continue
            old = canon(r)
            EDITS[name](w)
            rec.step()
            if not rec.expect(canon(r) == old, lambda: "the result of %s changes with %s" % (q, name)):
                return
            # an edit gives the same layout whether or not there was a query before
            if name not in AFTER:
                v = world()
                EDITS[name](v)
                AFTER[name] = state(v)
            if not rec.expect(state(w) == AFTER[name], lambda: "%s has another effect after %s" % (name, q)):
                return
            rec.state((q, name))


AFTER = {}


# ---- arguments

def arg_calls():
    """name -> (factory of mutable arguments, call with them returning what must not change)"""
    import gdspy

    A = np.array
    tri = [(0, 0), (4, 0), (4, 3)]
    sq = [[1, 1], [5, 1], [5, 5], [1, 5]]
    out = {}

    def add(name, args, f):
        out[name] = (args, f)

    for form, conv in (("list", lambda v: copy.deepcopy(v)), ("array", lambda v: A(v, float))):
        add("Polygon " + form, lambda c=conv: [c(sq)], gdspy.Polygon)
        add("PolygonSet " + form, lambda c=conv: [[c(sq), c([list(p) for p in tri])]], gdspy.PolygonSet)
        add("Rectangle " + form, lambda c=conv: [c([0, 1]), c([3, 4])], gdspy.Rectangle)
        add("Round " + form, lambda c=conv: [c([0, 1]), c([5, 4]), c([2, 3])], gdspy.Round)
        add("Text " + form, lambda c=conv: [c([2, 3])], lambda p: gdspy.Text("Ab", 9, p))
        add("Label " + form, lambda c=conv: [c([2, 3])], lambda p: gdspy.Label("t", p))
        add("Path " + form, lambda c=conv: [c([2, 3])], lambda p: gdspy.Path(1, p).segment(4).turn(2, "l"))
        add("Path.bezier " + form, lambda c=conv: [c([[2, 3], [5, 3]])], lambda p: gdspy.Path(1).bezier(p))
        add("Path.smooth " + form, lambda c=conv: [c([[4, 3], [8, 3]])], lambda p: gdspy.Path(1).smooth(p))
        add("FlexPath " + form, lambda c=conv: [c([[0, 0], [4, 0], [4, 6]])], lambda p: gdspy.FlexPath(p, 1))
        add("FlexPath.bezier " + form, lambda c=conv: [c([[4, 0], [4, 6]])], lambda p: gdspy.FlexPath([(0, 0)], 1).bezier(p))
        add("FlexPath.smooth " + form, lambda c=conv: [c([[4, 0], [4, 6]])], lambda p: gdspy.FlexPath([(0, 0)], 1).smooth(p, relative=False))
        add("FlexPath.segment " + form, lambda c=conv: [c([4, 0])], lambda p: gdspy.FlexPath([(0, 0)], 1).segment(p))
        add("FlexPath.segment relative " + form, lambda c=conv: [c([4, 0])], lambda p: gdspy.FlexPath([(1, 0)], 1).segment(p, relative=True))
        add("FlexPath.rotate " + form, lambda c=conv: [c([4, 0])], lambda p: gdspy.FlexPath([(1, 0), (4, 5)], 1).rotate(1, p).scale(2, p))
        add("RobustPath " + form, lambda c=conv: [c([4, 0])], lambda p: gdspy.RobustPath(p, 1).segment((9, 9)))
        add("RobustPath.segment " + form, lambda c=conv: [c([4, 0])], lambda p: gdspy.RobustPath((1, 1), 1).segment(p))
        add("RobustPath.segment relative " + form, lambda c=conv: [c([4, 0])], lambda p: gdspy.RobustPath((1, 1), 1).segment(p, relative=True))
        add("RobustPath.segment then more " + form, lambda c=conv: [c([4, 0])], lambda p: gdspy.RobustPath((1, 1), 1).segment(p).turn(2, "l").rotate(1, p).scale(2, p))
        add("RobustPath.bezier " + form, lambda c=conv: [c([[4, 0], [4, 6]])], lambda p: gdspy.RobustPath((0, 0), 1).bezier(p))
        add("RobustPath.smooth " + form, lambda c=conv: [c([[4, 0], [4, 6]])], lambda p: gdspy.RobustPath((0, 0), 1).smooth(p, relative=False))
        add("Curve.I " + form, lambda c=conv: [c([[4, 0], [4, 6]])], lambda p: gdspy.Curve(0, 0).I(p))
        add("Curve.i " + form, lambda c=conv: [c([[4, 0], [4, 6]])], lambda p: gdspy.Curve(1, 0).i(p))
        add("Curve.arc " + form, lambda c=conv: [c([4, 3])], lambda p: gdspy.Curve(1, 0).arc(p, 0, 1))
        add("set.rotate " + form, lambda c=conv: [c([4, 3])], lambda p: gdspy.Rectangle((0, 0), (1, 1)).rotate(1, p).scale(2, center=p).mirror(p))
        add("Path.rotate " + form, lambda c=conv: [c([4, 3])], lambda p: gdspy.Path(1).segment(4).rotate(1, p).scale(2, center=p).mirror(p))
        for op in ("or", "not", "xor", "and"):
            add("boolean %s %s" % (op, form), lambda c=conv: [[c(sq)], [c([list(p) for p in tri])]], lambda a, b, op=op: gdspy.boolean(a, b, op))
        add("boolean not empty " + form, lambda c=conv: [[c(sq)]], lambda a: gdspy.boolean(a, [], "not"))
        add("offset " + form, lambda c=conv: [[c(sq)]], lambda a: gdspy.offset(a, 0.5))
        add("slice " + form, lambda c=conv: [[c(sq)], [2, 3]], lambda a, p: gdspy.slice(a, p, 0))
        add("slice off " + form, lambda c=conv: [[c(sq)], [20, 30], [4, 5], [6, 7]], lambda a, p, l, d: gdspy.slice(a, p, 1, layer=l, datatype=d))
        add("inside " + form, lambda c=conv: [c([[2, 2], [9, 9]]), [c(sq)]], gdspy.inside)
        add("inside any " + form, lambda c=conv: [[c([[2, 2], [9, 9]]), c([[7, 7]])], [c(sq)]], lambda a, b: gdspy.inside(a, b, short_circuit="any"))
    add("FlexPath lists", lambda: [[1, 0.5], [-1, 1.5], ["natural", "bevel"], ["flush", "round"], [None, 2], [1, 2], [3, 4]],
        lambda w, o, c, e, b, l, d: gdspy.FlexPath([(0, 0), (5, 0), (5, 5)], w, o, c, e, b, layer=l, datatype=d))
    add("FlexPath lists kept", lambda: [[1, 0.5], [-1, 1.5], [2, 1], [-2, 2]],
        lambda w, o, w2, o2: gdspy.FlexPath([(0, 0), (5, 0), (5, 5)], w, o).segment((9, 9), w2, o2).turn(2, "l", width=w2, offset=o).bezier([(1, 1), (5, 0)], w, o2))
    add("FlexPath offsets only", lambda: [[-1, 1.5]], lambda o: gdspy.FlexPath([(0, 0), (5, 0), (5, 5)], 1, o))
    add("RobustPath lists", lambda: [[1, 0.5], [-1, 1.5], ["flush", "round"], [1, 2], [3, 4]],
        lambda w, o, e, l, d: gdspy.RobustPath((0, 0), w, o, e, layer=l, datatype=d).segment((9, 0)))
    add("RobustPath lists kept", lambda: [[1, 0.5], [-1, 1.5], [2, 1], [-2, 2]],
        lambda w, o, w2, o2: gdspy.RobustPath((0, 0), w, o).segment((9, 0), w2, o2).turn(3, "l", w, o).segment((0, 20), w2, o2))
    add("RobustPath offsets only", lambda: [[-1, 1.5]], lambda o: gdspy.RobustPath((0, 0), 1, o).segment((9, 0)))
    add("Path lists", lambda: [[1, 2], [3, 4]], lambda l, d: gdspy.Path(1, number_of_paths=2, distance=3).segment(5, layer=l, datatype=d).turn(5, "l", layer=l, datatype=d))
    add("Path.smooth options", lambda: [[(4, 3), (8, 3)], [0.1, None, 0.2], [1, 1.1, 1.2], [1.2, 1.1, 1]],
        lambda p, a, i, o: gdspy.Path(1).smooth(p, a, t_in=i, t_out=o))
    for cls in ("FlexPath", "RobustPath"):
        add(cls + ".smooth options", lambda: [[(4, 3), (8, 3)], [0.1, None, 0.2], [1, 1.1, 1.2], [1.2, 1.1, 1]],
            lambda p, a, i, o, cls=cls: getattr(gdspy, cls)([(0, 0)] if cls == "FlexPath" else (0, 0), 1).smooth(p, a, t_in=i, t_out=o))
    add("Curve.I options", lambda: [[(4, 3), (8, 3)], [0.1, None, 0.2], [1, 1.1, 1.2], [1.2, 1.1, 1]],
        lambda p, a, i, o: gdspy.Curve(0, 0).I(p, a, t_in=i, t_out=o))
    add("Curve.I cycle options", lambda: [[(4, 3), (8, 3)], [None, 0.1, 0.2], [1, 1.1, 1.2], [1.2, 1.1, 1]],
        lambda p, a, i, o: gdspy.Curve(0, 0).I(p, a, t_in=i, t_out=o, cycle=True))
    add("fillet", lambda: [[0.1, 0.2, 0.1, 0.3]], lambda r: gdspy.Rectangle((0, 0), (3, 3)).fillet(r))
    add("fillet lists", lambda: [[[0.1, 0.2, 0.1, 0.3], [0.1, 0.2, 0.1]]], lambda r: gdspy.PolygonSet([sq, tri]).fillet(r))
    add("Cell.add", lambda: [[gdspy.Rectangle((0, 0), (3, 3)), gdspy.Rectangle((1, 1), (2, 2))]], lambda e: gdspy.Cell("C").add(list(e) and [copy.deepcopy(v) for v in e]))
    add("Cell.add list", lambda: [ListOnly([gdspy.Rectangle((0, 0), (3, 3)), gdspy.Label("x", (1, 1))])], lambda e: gdspy.Cell("C").add(e))
    add("L1Path", lambda: [[3, 4, 5], [1, -1]], lambda l, t: gdspy.L1Path((0, 0), "+x", 1, l, t))
    add("CellReference origin", lambda: [[1, 2]], lambda o: gdspy.Cell("D").add(gdspy.CellReference(gdspy.Cell("C"), o)))
    add("CellArray lists", lambda: [[5, 6], [1, 2]], lambda s, o: gdspy.Cell("D").add(gdspy.CellArray(gdspy.Cell("C"), 2, 2, s, o)))
    add("Cell.copy", lambda: [[1, 2]], lambda t: gdspy.Cell("D").add([gdspy.Label("x", (0, 0)), gdspy.Rectangle((0, 0), (1, 1)), gdspy.FlexPath([(0, 0), (3, 3)], 1),
                                                                     gdspy.CellReference(gdspy.Cell("C"))]).copy("E", deep_copy=True, translation=t, rotation=1))
    return out


class ListOnly(list):
    """A list whose elements belong to the cell afterwards: only the list itself is changed."""


def args(case, rec):
    name = case["name"]
    make, f = arg_calls()[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = make()
        before = canon(a)
        r = f(*a)
        rec.step()
        if not rec.expect(canon(a) == before, lambda: "%s changes its arguments" % name):
            return
        old = canon(r)
        want = answers(f(*make()))
        for x in a:
            if isinstance(x, ListOnly):
                x.clear()
            else:
                ruin(x)
        if not rec.expect(canon(r) == old, lambda: "%s keeps a reference to its arguments" % name):
            return
        rec.step()
        rec.expect(answers(r) == want, lambda: "%s: later results depend on the arguments changed afterwards" % name)
        # and the other way around
        a = make()
        r = f(*a)
        ruin(r)
        rec.step()
        rec.expect(canon(a) == before or isinstance(a[0], ListOnly), lambda: "changing the result of %s changes its arguments" % name)
        rec.state(name)


def answers(r):
    import gdspy

    if isinstance(r, (gdspy.FlexPath, gdspy.RobustPath)):
        return canon([r.get_polygons(True), binary(r) if r.gdsii_path else None])
    if isinstance(r, gdspy.Cell):
        return canon([r.get_polygons(True), r.get_labels(), r.get_bounding_box()])
    if isinstance(r, gdspy.Curve):
        return canon(r.get_points())
    return canon(r)


# ---- elements added to several cells, results used as arguments

def chains(case, rec):
    """The result of an operation is used as an operand: the operand and the result stay apart."""
    import gdspy

    w = world()
    steps = case["ops"]
    cur = w["ps"]
    keep = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s in steps:
            r = OPERATE[s](cur, w)
            rec.step()
            if r is None:
                return
            keep.append((cur, canon(cur)))
            for obj, old in keep:
                if not rec.expect(canon(obj) == old, lambda: "%s of %s modifies an operand" % (s, steps)):
                    return
            cur = r
        ruin(cur)
        for obj, old in keep:
            if not rec.expect(canon(obj) == old, lambda: "changing the result of %s changes an earlier operand" % (steps,)):
                return
        rec.expect(state(w) == start(), lambda: "%s modify the layout: %s" % (steps, differs(w)))
    rec.state(tuple(steps))


def sliced(cur, w):
    import gdspy

    r = gdspy.slice(cur, [2.5], 0, layer=[1, 2], datatype=[3, 4])
    return r[0] or r[1]


OPERATE = {
    "or": lambda c, w: result("or", c, w["round"]), "and": lambda c, w: result("and", c, w["round"]), "not": lambda c, w: result("not", c, w["flex"]),
    "xor": lambda c, w: result("xor", [c], [w["rob"]]), "not none": lambda c, w: result("not", c, None), "or none": lambda c, w: result("or", c, []),
    "offset": lambda c, w: call("offset", c, 0.1, join_first=True), "shrink": lambda c, w: call("offset", [c], -0.1),
    "slice": sliced, "copy": lambda c, w: gcopy(c, 1), "copy0": lambda c, w: gcopy(c, 0),
    "set": lambda c, w: __import__("gdspy").PolygonSet(c.polygons), "polygon": lambda c, w: __import__("gdspy").Polygon(c.polygons[0]) if c.polygons else None,
}


# ---- the parts of one result are as independent of each other

SIMPLE = (str, bytes, bool, int, float, complex, np.number)


def walk(x, path, out, on):
    """(where, container) of everything that can be changed in place."""
    import gdspy

    if x is None or isinstance(x, SIMPLE) or id(x) in on:
        return
    on = on | {id(x)}
    if isinstance(x, np.ndarray):
        out.append((path, x))
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out.append((path, x))
        for i, v in enumerate(x):
            walk(v, "%s[%d]" % (path, i), out, on)
    elif isinstance(x, dict):
        out.append((path, x))
        for k, v in x.items():
            walk(v, "%s[%r]" % (path, k), out, on)
    elif isinstance(x, set):
        out.append((path, x))
    elif isinstance(x, (gdspy.PolygonSet, gdspy.FlexPath, gdspy.RobustPath, gdspy.Label, gdspy.CellReference, gdspy.CellArray, Box)):
        out.append((path, x))
        for n in ("polygons", "layers", "datatypes", "properties", "points", "widths", "offsets", "position", "ends", "corners", "bend_radius",
                  "origin", "spacing", "x"):
            walk(getattr(x, n, None), "%s.%s" % (path, n), out, on)
    elif isinstance(x, gdspy.Cell):
        for n in ("polygons", "paths", "labels", "references"):
            walk(getattr(x, n), "%s.%s" % (path, n), out, on)


def reread(w):
    import gdspy

    b = io.BytesIO(written(w))
    return dict(gdspy.GdsLibrary(infile=b).cells)


def reread_plain(w):
    """A library of elements without any properties."""
    for c in ("LEAF", "MID", "TOP"):
        for e in w[c]:
            e.properties = {}
    return reread(w)


def flat(w, c):
    w[c].flatten(5, 6, 7)
    return w[c]


def world_cells(w):
    return dict((c, w[c]) for c in ("LEAF", "MID", "TOP"))


def variety(w):
    import gdspy

    return [gdspy.Rectangle((0, 0), (1, 1)), gdspy.Rectangle((0, 0), (1, 1)), gdspy.Text("ab", 10), gdspy.Text("a", 10), gdspy.Path(1, (0, 0), 3, 2).segment(5, "+x").segment(5),
            gdspy.Path(1, (0, 0), 3, 2).segment(5, "+x"), gdspy.L1Path((0, 0), "+x", 1, [5, 5], [1], 2, 3), gdspy.PolyPath([(0, 0), (5, 5), (9, 0)], 1, 2, 3),
            gdspy.Round((0, 0), 5, max_points=20, number_of_points=60), gdspy.Label("a", (0, 0)), gdspy.Label("a", (0, 0)), gdspy.FlexPath([(0, 0), (5, 5)], 1), gdspy.FlexPath([(0, 0), (5, 5)], [1, 2], 3),
            gdspy.RobustPath((0, 0), 1), gdspy.RobustPath((0, 0), [1, 2], 3), gdspy.CellReference(w["LEAF"]), gdspy.CellReference(w["LEAF"]), gdspy.CellArray(w["LEAF"], 2, 2, (9, 9)),
            gdspy.CellArray(w["LEAF"], 2, 2, (9, 9))]


MAKERS = {
    "the layout itself": world_cells, "constructors": variety, "a library read": reread, "a library read without properties": reread_plain,
    "flatten MID": lambda w: flat(w, "MID"), "flatten TOP": lambda w: flat(w, "TOP"),
    "fracture": lambda w: [w["round"].fracture(6), w["ps"]], "fillet": lambda w: [w["ps"].fillet([0.2, 0.3])],
}


def siblings(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = world()
        r = (QUERIES.get(case["q"]) or MAKERS[case["q"]])(w)
        rec.step()
        out = []
        if isinstance(r, (list, tuple, dict, set)) and case["q"] in ("top_level list",) or case["q"].endswith(".deps"):
            return
        walk(r, "result", out, frozenset())
        seen, arrays = {}, []
        for path, x in out:
            rec.step()
            if not rec.expect(id(x) not in seen, lambda: "%s: %s and %s are one object: changing one changes the other" % (case["q"], seen[id(x)], path)):
                return
            seen[id(x)] = path
            if isinstance(x, np.ndarray) and x.size and x.dtype != object:
                lo, hi = np.lib.array_utils.byte_bounds(x) if hasattr(np.lib, "array_utils") else np.byte_bounds(x)
                arrays.append((lo, hi, path, x))
        arrays.sort(key=lambda a: a[:2])
        for i, (lo, hi, path, x) in enumerate(arrays):
            for lo2, hi2, path2, x2 in arrays[i + 1:]:
                if lo2 >= hi:
                    break
                if not rec.expect(not (np.shares_memory(x, x2) and x.flags.writeable and x2.flags.writeable),
                                  lambda: "%s: %s and %s share memory" % (case["q"], path, path2)):
                    return
        rec.state((case["q"], len(out)))


MOVED = {
    "rectangle": lambda: gdspy.Rectangle((0, 1), (3, 2)), "round": lambda: gdspy.Round((1, 1), 2, tolerance=0.1), "text": lambda: gdspy.Text("ab", 4),
    "polygonset": lambda: gdspy.PolygonSet([[(0, 0), (2, 0), (1, 3)], [(5, 5), (6, 5), (6, 6)]], 1, 2),
    "path": lambda: gdspy.Path(1, (0, 1), 2, 3).segment(5, "+x").turn(4, "l"), "l1path": lambda: gdspy.L1Path((0, 0), "+x", 1, [5, 4], [1]),
    "polypath": lambda: gdspy.PolyPath([(0, 0), (5, 5), (9, 4)], 1),
    "flex": lambda: gdspy.FlexPath([(0, 0), (5, 5), (9, 4)], [1, 2], 4, ends="round"),
    "flexgds": lambda: gdspy.FlexPath([(0, 0), (5, 5)], 1, gdsii_path=True, ends=(1, 2)),
    "robust": lambda: gdspy.RobustPath((1, 0), [1, 2], 4).segment((9, 1)).arc(20, -1, 0.5),
    "label": lambda: gdspy.Label("x", (1, 2), "nw", 0.5, 2, True), "reference": lambda: ref(False), "array": lambda: ref(True),
}


def ref(array):
    c = gdspy.Cell("REF", exclude_from_current=True)
    c.add([gdspy.Rectangle((0, 0), (1, 2)), gdspy.Label("l", (1, 1))])
    return gdspy.CellArray(c, 2, 3, (4, 5), (1, 2), 30, 2, True) if array else gdspy.CellReference(c, (1, 2), 30, 2, True)


def where(o):
    """All coordinates of an object."""
    if isinstance(o, gdspy.Label):
        return [np.array([o.position], dtype=float)], [str(o.text), o.layer, o.texttype, o.anchor, o.rotation, o.magnification, o.x_reflection]
    if isinstance(o, (gdspy.CellReference, gdspy.CellArray)):
        return ([np.array(p) for p in o.get_polygons()] + [np.array([l.position]) for l in o.get_labels()] + [np.array([o.origin], dtype=float)],
                [o.rotation, o.magnification, o.x_reflection])
    if isinstance(o, gdspy.PolygonSet):
        return [np.array(p) for p in o.polygons] + ([np.array([(o.x, o.y)], dtype=float)] if type(o) is gdspy.Path else []), [o.layers, o.datatypes]
    return [np.array(p) for v in o.get_polygons(True).values() for p in v] + (
        [o(0.5), np.array([o.x])] if hasattr(o, "paths") else []), [o.layers, o.datatypes, o.ends]


def moved(case, rec):
    """gdspy.copy and translate move everything by the same vector; copies leave the original in place."""
    global gdspy
    import gdspy

    make, d = MOVED[case["kind"]], tuple(case["d"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = make()
        p0, a0 = where(o)
        c = gdspy.copy(o, *d) if not case.get("kw") else gdspy.copy(o, **{k: v for k, v in zip(("dx", "dy"), d) if v})
        t = make()
        back = t.translate(*(d + (0,) * (2 - len(d))))
        rec.step(2)
        rec.expect(back is t or back is None, "translate returns another object")
        for what, x, v in (("original", o, (0, 0)), ("copy", c, d), ("translated", t, d)):
            p, a = where(x)
            v = np.array(v + (0,) * (2 - len(v)), dtype=float)
            rec.expect(type(x) is type(o) and repr(a) == repr(a0), lambda: "%s of %s: attributes %s, expected %s" % (what, case["kind"], a, a0))
            rec.expect(len(p) == len(p0) and all(q.shape == r.shape and np.abs(q - r - v).max() < 1e-9 for q, r in zip(p, p0)),
                       lambda: "%s of %s by %s is at %s instead of %s + %s" % (what, case["kind"], d, [q.tolist() for q in p], [q.tolist() for q in p0], v))
        rec.expect(c is not o, "the copy is the original")
        rec.state((case["kind"], d, bool(case.get("kw"))))


def gen_moved(tier):
    r = (0, 3, -2, 0.5) if tier == "quick" else (0, 3, -2, 0.5, 1e-6, 1e4, -7.25)
    for k in MOVED:
        yield dict(kind=k, d=[])
        for x in r:
            yield dict(kind=k, d=[x])
            for y in r:
                yield dict(kind=k, d=[x, y])
                yield dict(kind=k, d=[x, y], kw=True)


def groups(tier):
    n = len(QUERIES)
    return [
        Group("queries", lambda: gen(tier), run, "%d queries, each result ruined, then all queries%s" % (n, "; all pairs, twice" if tier == "thorough" else "")),
        Group("held", lambda: (dict(q=q) for q in QUERIES), held, "%d queries x %d edits with the result held" % (n, len(EDITS))),
        Group("arguments", lambda: (dict(name=k) for k in arg_calls()), args, "all constructors and methods with list, array or sequence arguments"),
        Group("chains", lambda: (dict(ops=list(e)) for k in (1, 2, 3) + ((4,) if tier == "thorough" else ()) for e in itertools.product(OPERATE, repeat=k)), chains,
              "all sequences of %d operations up to depth %d" % (len(OPERATE), 4 if tier == "thorough" else 3)),
        Group("moved", lambda: gen_moved(tier), moved, "%d kinds of objects copied and translated by all vectors of a lattice" % len(MOVED)),
        Group("siblings", lambda: (dict(q=q) for q in list(QUERIES) + list(MAKERS)), siblings,
              "%d results (queries, constructors, libraries read, flattened cells): all pairs of changeable parts" % (n + len(MAKERS))),
    ]
