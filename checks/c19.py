"""C19: FlexPath edits, transformations and queries in any order."""
import io
import itertools
import math
import warnings

import numpy as np

from checks import c18
from mc import geo, strip
from mc.engine import Group

H = math.pi / 2


def arr(x):
    return np.array(x, dtype=float)


class State:
    """What the path must be: vertices, widths, offsets, ends, radii, layers."""

    def __init__(self, kw):
        p = arr(kw["points"]).reshape(-1, 2)
        n = max(len(kw[k]) if isinstance(kw.get(k), list) else 1 for k in ("width", "offset"))
        w = kw["width"]
        o = kw.get("offset", 0)
        self.n = n
        self.points = p
        self.widths = np.tile(arr(w if isinstance(w, list) else [w] * n), (len(p), 1))
        o = o if isinstance(o, list) else [(i - (n - 1) / 2) * o for i in range(n)]
        self.offsets = np.tile(arr(o), (len(p), 1))
        lst = lambda v: [v[i % len(v)] for i in range(n)] if isinstance(v, list) else [v] * n
        self.corners, self.ends = lst(kw.get("corners", "natural")), lst(kw.get("ends", "flush"))
        self.bend_radius = lst(kw.get("bend_radius"))
        self.layers, self.datatypes = lst(kw.get("layer", 0)), lst(kw.get("datatype", 0))
        self.gdsii, self.wt = kw.get("gdsii_path", False), kw.get("width_transform", True)
        self.tolerance = kw.get("tolerance", 0.01)
        self.max_points = kw.get("max_points", 199)
        self.reflected_offsets = False

    def scale(self, s):
        if self.wt or not self.gdsii:
            self.widths = self.widths * s
        self.offsets = self.offsets * s
        self.bend_radius = [r if r is None else r * s for r in self.bend_radius]
        self.ends = [tuple(x * s for x in e) if isinstance(e, tuple) else e for e in self.ends]

    def apply(self, f, s=1):
        self.points = np.array([f(p) for p in self.points])
        if s != 1:
            self.scale(s)


def R(a):
    return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])


def op_translate(dx, dy):
    return lambda fp: fp.translate(dx, dy), lambda s: s.apply(lambda p: p + (dx, dy))


def op_rotate(a, c=None):
    cc = arr((0, 0) if c is None else c)
    return (lambda fp: fp.rotate(a) if c is None else fp.rotate(a, c)), lambda s: s.apply(lambda p: R(a) @ (p - cc) + cc)


def op_scale(f, c=None):
    cc = arr((0, 0) if c is None else c)
    return (lambda fp: fp.scale(f) if c is None else fp.scale(f, c)), lambda s: s.apply(lambda p: f * (p - cc) + cc, f)


def op_transform(t, r, m, x, at=None):
    def model(s):
        mm = 1 if m is None else m
        q = R(0 if r is None else r)
        F = np.diag((1.0, -1.0 if x else 1.0))
        tt = arr((0, 0) if t is None else t)
        a = arr((0, 0) if at is None else at)
        # scaled about the origin, moved to its place in the array, reflected, rotated, moved
        s.apply(lambda p: q @ (F @ (mm * p + a)) + tt, mm)
        if x and s.offsets.any():
            s.reflected_offsets = True
    return (lambda fp: fp.transform(t, r, m, x) if at is None else fp.transform(t, r, m, x, arr(at))), model


def op_layers(ls, ds):
    def real(fp):
        fp.layers = [ls[i % len(ls)] for i in range(fp.n)]
        fp.datatypes = [ds[i % len(ds)] for i in range(fp.n)]
        return fp

    def model(s):
        s.layers = [ls[i % len(ls)] for i in range(s.n)]
        s.datatypes = [ds[i % len(ds)] for i in range(s.n)]
    return real, model


def op_layer1():
    """Changes the last layer and datatype only."""
    def go(o):
        o.layers[-1] += 20
        o.datatypes = o.datatypes[:-1] + [9]
        return o
    return go, go


def op_cmd(real, new, ramp=None):
    """A construction command; `new(p, v)` gives its vertices; widths and offsets are kept
    or set at its end by `ramp`."""
    def model(s):
        v = s.points[-1] - s.points[-2] if len(s.points) > 1 else None
        add = arr(new(s.points[-1], v))
        w1, o1 = (s.widths[-1], s.offsets[-1]) if ramp is None else ramp(s)
        u = np.arange(1, len(add) + 1)[:, None] / len(add)
        s.widths = np.vstack((s.widths, (1 - u) * s.widths[-1] + u * w1))
        s.offsets = np.vstack((s.offsets, (1 - u) * s.offsets[-1] + u * o1))
        s.points = np.vstack((s.points, add))
    return real, model


def ramped(s):
    return s.widths[-1] if s.gdsii else np.full(s.n, 1.25), s.offsets[-1] + 0.5


def op_turn():
    """The number of points of the arc is up to the path: taken from it, checked by C18."""
    def real(fp):
        return fp.turn(11, "l")

    def model(s, fp):
        v = s.points[-1] - s.points[-2]
        a0 = math.atan2(v[1], v[0]) - H
        k = len(fp.points) - len(s.points)
        c = s.points[-1] - 11 * arr((math.cos(a0), math.sin(a0)))
        add = np.array([c + 11 * arr((math.cos(a), math.sin(a))) for a in np.linspace(a0, a0 + H, k + 1)[1:]])
        s.points = np.vstack((s.points, add))
        s.widths = np.vstack((s.widths, np.tile(s.widths[-1], (k, 1))))
        s.offsets = np.vstack((s.offsets, np.tile(s.offsets[-1], (k, 1))))
    model.needs_path = True
    return real, model


EDITS = {
    "seg": op_cmd(lambda fp: fp.segment((3, 16), relative=True), lambda p, v: [p + (3, 16)]),
    "segabs": op_cmd(lambda fp: fp.segment((60, 40), width=1.25, offset=0.5), lambda p, v: [(60, 40)], ramped),
    "again": op_cmd(lambda fp: fp.segment((0, 0), relative=True), lambda p, v: [p]),
    "line": op_cmd(lambda fp: fp.parametric(lambda u: np.array((-4 * u, 18 * u))), lambda p, v: [p + (-4, 18)]),
    "bez": op_cmd(lambda fp: fp.bezier([(18, 6)]), lambda p, v: [p + (18, 6)]),
    "turn": op_turn(),
    "tr": op_translate(3, -2.5), "rot": op_rotate(0.3, (1, 2)), "rot90": op_rotate(-H), "sc": op_scale(2, (1, -1)),
    "sch": op_scale(0.5), "tf": op_transform((1, 2), 0.5, 1.5, False), "tfa": op_transform(None, H, 2, False, (5, 3)),
    "mir": op_transform((-1, 0), None, None, True), "mirall": op_transform((0, 4), 0.25, 0.5, True, (2, 1)),
    "lay": op_layers([7, 8], [1]), "lay1": op_layer1(),
    "mov": op_transform((4, -3), None, None, False), "place": op_transform(None, 0, 1, False, (2, 7)),
}
QUERIES = ["none", "polys", "spec", "set", "area", "gds", "svg", "bbox"]


def query(fp, q):
    import gdspy

    if q == "polys":
        return fp.get_polygons()
    if q == "spec":
        return fp.get_polygons(True)
    if q == "set":
        return fp.to_polygonset()
    if q == "area":
        return fp.area(True)
    if q == "gds":
        b = io.BytesIO()
        fp.to_gds(b, 1000)
        return b.getvalue()
    if q == "svg":
        b = io.StringIO()
        fp.to_svg(b, 1, 6)
        return b.getvalue()
    if q == "bbox":
        return gdspy.Cell("C").add(fp).get_bounding_box()


PATHS = {
    "plain": dict(points=[(0, 0), (20, 5)], width=2),
    "two": dict(points=[(0, 0), (20, 5)], width=[1, 2], offset=3, corners=["miter", "natural"], ends=["extended", (1.5, 0.5)],
                layer=[1, 2]),
    "round": dict(points=[(0, 0), (24, 6), (40, 30)], width=2, corners="round", ends="round"),
    "bend": dict(points=[(0, 0), (24, 6), (40, 30)], width=2, corners="circular bend", bend_radius=3, max_points=0),
    "gds": dict(points=[(0, 0), (24, 6), (40, 30)], width=2, ends=(1, 2), gdsii_path=True, layer=3),
    "gdsw": dict(points=[(0, 0), (20, 5)], width=[2, 1], offset=[-2, 2], ends="round", gdsii_path=True, width_transform=False),
}


def arrays(rec, fp, s, what):
    for name in ("points", "widths", "offsets"):
        g, e = np.asarray(getattr(fp, name), dtype=float), getattr(s, name)
        if g.shape == e.shape and np.abs(g - e).max() < 1e-8:
            continue
        if name == "offsets" and g.shape == e.shape and s.reflected_offsets:
            continue
        rec.fail("%s: %s %s, expected %s" % (what, name, g.tolist(), e.tolist()))
        return False
    if [r for r in fp.bend_radius] != s.bend_radius and any(
            (a is None) != (b is None) or a is not None and abs(a - b) > 1e-9 for a, b in zip(fp.bend_radius, s.bend_radius)):
        rec.fail("%s: bend radius %r, expected %r" % (what, fp.bend_radius, s.bend_radius))
        return False
    return True


def same_result(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_result(a[k], b[k]) for k in a)
    if isinstance(a, (bytes, str)):
        return a == b
    if hasattr(a, "polygons"):
        return same_result(a.polygons, b.polygons) and a.layers == b.layers and a.datatypes == b.datatypes
    if isinstance(a, list):
        return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.abs(np.asarray(x) - y).max() < 1e-9 for x, y in zip(a, b))
    return np.abs(np.asarray(a) - b).max() < 1e-9


def run(case, rec):
    import gdspy

    kw = PATHS[case["path"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = gdspy.FlexPath(**kw)
        s = State(kw)
        for e in case["edits"]:
            real, model = EDITS[e]
            r = real(ref)
            rec.expect(r is ref, "%s does not return the path" % e)
            model(s, ref) if hasattr(model, "needs_path") else model(s)
            if e in ("mir", "mirall") and s.reflected_offsets:
                # the reflected path lies on the other side of its spine
                k = "flexpath-reflection-offset"
                if np.abs(ref.offsets - s.offsets).max() < 1e-9:
                    rec.fail("%s: offsets keep their sign under reflection: %s" % (e, ref.offsets.tolist()), k)
                elif np.abs(ref.offsets + s.offsets).max() < 1e-9:
                    s.offsets = -s.offsets
                s.reflected_offsets = False
            if not arrays(rec, ref, s, e):
                return
        rec.step(len(case["edits"]))
        want = {q: query(ref, q) for q in QUERIES}
        s.points, s.widths, s.offsets = (np.array(x) for x in (s.points, s.widths, s.offsets))
        if not arrays(rec, ref, s, "after all queries"):
            return
        if case.get("cover", True) and all(strip.regular(
                s.points, s.widths[:, k], s.offsets[:, k], s.corners[k], s.bend_radius[k]) for k in range(s.n)):
            if not c18.cover(rec, s, range(s.n), want["spec"], "polygons"):
                return
            rec.step()
        check_queries(rec, s, want)
        # the same edits with queries in between
        masks = itertools.product((0, 1), repeat=len(case["edits"]))
        for j, mask in enumerate(masks):
            if not any(mask):
                continue
            fp = gdspy.FlexPath(**kw)
            for i, (e, q) in enumerate(zip(case["edits"], mask)):
                if q:
                    query(fp, QUERIES[1 + (case["i"] + i + j) % 7])
                EDITS[e][0](fp)
            last = QUERIES[1 + (case["i"] + j) % 7]
            query(fp, last)
            rec.step(len(case["edits"]))
            for q in QUERIES:
                got = query(fp, q)
                if not rec.expect(same_result(got, want[q]), lambda: "%s after queries before %r of %r differs from the path never queried" % (
                        q, [e for e, m in zip(case["edits"], mask) if m], case["edits"])):
                    return
            if not arrays(rec, fp, s, "with queries"):
                return
        rec.state((case["path"], np.round(s.points, 6).tolist(), np.round(s.widths, 6).tolist(), s.layers))


def check_queries(rec, s, want):
    flat = [p for v in want["spec"].values() for p in v]
    rec.expect(geo.match_polygons(want["polys"], flat) is None, "get_polygons() and get_polygons(True) differ")
    ps = want["set"]
    got = {}
    for p, l, d in zip(ps.polygons, ps.layers, ps.datatypes):
        got.setdefault((l, d), []).append(p)
    rec.expect(set(got) == set(want["spec"]) and all(geo.match_polygons(got[k], want["spec"][k]) is None for k in got),
               "to_polygonset differs from the polygons")
    for k, v in want["area"].items():
        a = sum(geo.area(p) for p in want["spec"][k])
        rec.expect(abs(v - a) < 1e-6 * (1 + a), lambda: "area %s of %s, polygons have %s" % (v, k, a))
    rec.expect(set(want["area"]) == set(want["spec"]), "keys of area")
    rec.expect(geo.same_bbox(want["bbox"], geo.bbox(flat)), "bounding box")


def gen(tier):
    deep = tier == "thorough"
    i = 0
    for p in PATHS:
        for k in (1, 2):
            for e in itertools.product(EDITS, repeat=k):
                i += 1
                yield dict(path=p, edits=list(e), i=i)
    few = ["seg", "segabs", "again", "turn", "rot", "sc", "tfa", "mirall", "lay", "mov"]
    for p in PATHS if deep else ("two", "bend", "gds"):
        for e in itertools.product(EDITS if deep and p in ("two", "gds") else few, repeat=3):
            i += 1
            yield dict(path=p, edits=list(e), i=i, cover=i % 4 == 0 or deep)
    if deep:
        for p in ("two", "gds"):
            for e in itertools.product(["seg", "turn", "rot", "sc", "mirall", "lay"], repeat=4):
                i += 1
                yield dict(path=p, edits=list(e), i=i, cover=False)


PTS = [(x, y) for x in (-2, 0, 3) for y in (-1, 0, 2)]


def placements():
    for p in PTS:
        yield "translate", p
        for a in (H, -H, math.pi, 0.4, -2.2, 5, 0):
            yield "rotate", (a, p)
        for f in (0.5, 1, 3):
            yield "scale", (f, p)
        for r, m, x in itertools.product((None, 0, H, -math.pi, 0.4), (None, 1, 2, 0.5), (False, True)):
            yield "transform", (p, r, m, x)
            yield "transform", (None, r, m, x, p)
            yield "transform", ((1, -2), r, m, x, p)


def placement(name, a):
    if name == "translate":
        return op_translate(*a)
    if name == "rotate":
        return op_rotate(*a)
    if name == "scale":
        return op_scale(*a)
    return op_transform(*a)


def run_args(case, rec):
    """One transformation with each of all small arguments, queried before and after, and a
    section after it."""
    import gdspy

    name, a = case["op"], [tuple(v) if isinstance(v, list) else v for v in case["args"]]
    real, model = placement(name, a)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for path in case["paths"]:
            kw = PATHS[path]
            fp, fresh, s = gdspy.FlexPath(**kw), gdspy.FlexPath(**kw), State(kw)
            fp.get_polygons(), fp.area(True)
            rec.expect(real(fp) is fp, "%s does not return the path" % name)
            real(fresh)
            model(s)
            what = "%s.%s%r" % (path, name, tuple(a))
            if s.reflected_offsets:
                # see the known finding of the histories
                if np.abs(fp.offsets + s.offsets).max() < 1e-9:
                    s.offsets = -s.offsets
                s.reflected_offsets = False
            for more in (None, "seg"):
                if more:
                    for o in (fp, fresh):
                        EDITS[more][0](o)
                    EDITS[more][1](s)
                rec.step()
                if not arrays(rec, fp, s, what) or not arrays(rec, fresh, s, what):
                    return
                for q in QUERIES[1:]:
                    if not rec.expect(same_result(query(fp, q), query(fresh, q)), lambda: "%s: %s differs from the path never queried" % (what, q)):
                        return
            rec.state((path, name, a))


def groups(tier):
    return [Group("arguments", lambda: (dict(op=n, args=list(a), paths=list(PATHS) if tier == "thorough" else ["two", "bend", "gdsw"])
                                        for n, a in placements()), run_args,
                  "every transformation with all arguments of a 3 x 3 lattice (7 angles, 4 factors, reflection, place in an array)"),
            Group("histories", lambda: gen(tier), run,
                  "all histories of %d edits up to depth 2, selected to depth %d, 6 paths, queries before every subset of the edits" % (
                      len(EDITS), 4 if tier == "thorough" else 3))]
