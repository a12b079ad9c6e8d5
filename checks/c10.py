"""C10: filters and flatten over all short histories."""
import copy
import io
import itertools
from datetime import datetime

import numpy as np

from mc import geo, gds, hier, mem, spec
from mc.engine import Group

TS = datetime(2000, 1, 1)
LEAF = [
    dict(t="poly", polys=[[(0, 0), (3, 0), (1, 2)], [(5, 1), (8, 1), (8, 4)]], ld=[(1, 2), (3, 2)]),
    dict(t="flex", pts=[(0, 0), (10, 0)], w=[1, 2], off=5, l=[1, 5], d=[2, 6]),
    dict(t="label", text="leaf", pos=(2, 1), l=1, tt=8, rot=10),
]
CONFIGS = [
    [dict(t="poly", polys=[[(0, 0), (1, 0), (0, 1)], [(-5, 0), (-4, 0), (-5, 1)], [(7, 7), (8, 7), (7, 9)]],
          ld=[(1, 2), (2, 2), (1, 3)]),
     dict(t="poly", polys=[[(20, 0), (21, 0), (20, 1)]], ld=[(2, 3)]),
     dict(t="flex", pts=[(0, 0), (0, 9)], w=1, l=1, d=2, gds=True),
     dict(t="rob", pts=[(1, 0), (1, 9)], w=1, l=2, d=2),
     dict(t="label", text="a", pos=(0, 0), l=1, tt=2), dict(t="label", text="b", pos=(1, 0), l=2, tt=2),
     dict(t="ref", cell="LEAF", o=(30, 0), rot=90), dict(t="ref", cell="NONE", o=(1, 1))],
    [dict(t="arr", cell="LEAF", cols=2, rows=1, sp=(50, 5), xr=False, mag=2),
     dict(t="label", text="c", pos=(-1, 0), l=1, tt=0)],
    [dict(t="poly", polys=[[(0, 0), (1, 0), (0, 1)], [(0, 0), (2, 0), (0, 2)]], ld=[(1, 2), (1, 2)]),
     dict(t="poly", polys=[[(0, 0), (1, 0), (0, 1)], [(0, 0), (2, 0), (0, 2)]], ld=[(2, 2), (1, 2)]),
     dict(t="rob", pts=[(1, 0), (1, 9)], w=[1, 0.5], off=3, l=[1, 2], d=[2, 0])],
]


class M:
    """Contents: polygon sets and paths as lists of ((layer, datatype), points), labels as
    dicts, references as descriptions."""

    def __init__(self, desc):
        self.polys, self.paths, self.labels, self.refs = [], [], [], []
        for s in desc:
            self.add(s)

    def add(self, s):
        if s["t"] == "poly":
            self.polys.append([(tuple(ld), np.array(p, dtype=float)) for p, ld in zip(s["polys"], s["ld"])])
        elif s["t"] in ("flex", "rob"):
            self.paths.append([(k, p) for k, v in hier.path_polygons(s).items() for p in v])
        elif s["t"] == "label":
            self.labels.append([s["text"], s["l"], s["tt"], s["pos"]])
        else:
            self.refs.append(s)


DESC = {"LEAF": LEAF}


def flatten(m, l, d, t):
    for s in m.refs:
        if s["cell"] not in DESC:
            continue
        for q in hier.placements(s):
            for e in hier.elements(DESC, s["cell"], q):
                items = [(tuple(k), np.array(p)) for k, p in zip(e["ld"], e["polys"])]
                (m.polys if e["t"] == "poly" else m.paths).append(items)
            for x in hier.labels(DESC, s["cell"], None, q):
                m.labels.append([x[0], x[1], x[2], x[4]])
    m.refs = []
    f = lambda k: (k[0] if l is None else l, k[1] if d is None else d)
    m.polys = [[(f(k), p) for k, p in e] for e in m.polys]
    m.paths = [[(f(k), p) for k, p in e] for e in m.paths]
    for x in m.labels:
        x[1] = x[1] if l is None else l
        x[2] = x[2] if t is None else t


def filt(m, test):
    m.polys = [[(k, p) for k, p in e if not test(p, *k)] for e in m.polys]
    m.polys = [e for e in m.polys if e]


TESTS = {
    "layer1": lambda p, l, d: l == 1,
    "dt2": lambda p, l, d: d == 2,
    "left": lambda p, l, d: bool((p[:, 0] < 0).any()),
    "big": lambda p, l, d: geo.area(p) > 1,
    "all": lambda p, l, d: 1,
    "none": lambda p, l, d: None,
}
PTEST = {"layer1": lambda ls: 1 in ls, "all": lambda ls: True, "none": lambda ls: 0,
         "multi": lambda ls: len(ls) > 1}
LTEST = {"layer1": lambda l, t: l == 1, "tt2": lambda l, t: t == 2, "all": lambda l, t: True}
ADD = {
    "poly": dict(t="poly", polys=[[(40, 0), (41, 0), (40, 1)], [(-50, 0), (-49, 0), (-50, 1)]], ld=[(1, 1), (9, 2)]),
    "label": dict(t="label", text="new", pos=(3, 3), l=1, tt=9),
    "flex": dict(t="flex", pts=[(0, 0), (4, 0)], w=1, l=1, d=5),
    "ref": dict(t="ref", cell="LEAF", o=(0, 77)),
}
OPS = ([("poly", k) for k in TESTS] + [("poly2",)] + [("path", k) for k in PTEST]
       + [("label", k) for k in LTEST]
       + [("flat", a) for a in ((None, None, None), (9, None, None), (None, 8, None), (0, 0, 0),
                                (9, 8, 7), (None, None, 7), (5, None, 0))]
       + [("add", k) for k in ADD] + [("move",), ("query",), ("write",), ("copy",)])


def apply_model(m, op):
    k = op[0]
    if k == "poly":
        filt(m, TESTS[op[1]])
    elif k == "poly2":
        n = [0]

        def every_other(p, l, d):
            n[0] += 1
            return n[0] % 2 == 0
        filt(m, every_other)
    elif k == "path":
        m.paths = [e for e in m.paths if not PTEST[op[1]]([kk[0] for kk, _ in e])]
    elif k == "label":
        m.labels = [x for x in m.labels if not LTEST[op[1]](x[1], x[2])]
    elif k == "flat":
        flatten(m, *op[1])
    elif k == "add":
        m.add(ADD[op[1]])
    elif k in ("move",):
        for e in m.polys:
            for i, (kk, p) in enumerate(e):
                e[i] = (kk, p * 2 + (1, -1))


def apply_real(c, cells, op, rec):
    import gdspy

    k = op[0]
    if k == "poly":
        r = c.remove_polygons(TESTS[op[1]])
    elif k == "poly2":
        n = [0]

        def every_other(p, l, d):
            n[0] += 1
            return n[0] % 2 == 0
        r = c.remove_polygons(every_other)
    elif k == "path":
        r = c.remove_paths(lambda p: PTEST[op[1]](list(p.layers)))
    elif k == "label":
        r = c.remove_labels(lambda l: LTEST[op[1]](l.layer, l.texttype))
    elif k == "flat":
        r = c.flatten(*op[1])
    elif k == "add":
        r = c.add(spec.build(ADD[op[1]], cells))
    elif k == "move":
        for p in c.polygons:
            p.scale(2).translate(1, -1)
        return c
    elif k == "query":
        c.get_polygons(True)
        c.get_bounding_box()
        c.get_labels()
        c.area(True)
        return c
    elif k == "write":
        c.to_gds(io.BytesIO(), 1000, timestamp=TS)
        return c
    elif k == "copy":
        return c.copy(c.name, deep_copy=True)
    rec.expect(r is c, lambda: "%r does not return the cell" % (op,))
    return c


def verify(rec, c, m, hist):
    def note(what):
        rec.fail("after %r: %s" % (hist, what))

    for el in c.polygons:
        if not (len(el.polygons) == len(el.layers) == len(el.datatypes)):
            return note("polygons, layers and datatypes have different lengths")
        for x in (el.polygons, el.layers, el.datatypes):
            if not isinstance(x, list):
                note("a polygon set holds a %s" % type(x).__name__)
    got = [[((l, d), p) for p, l, d in zip(e.polygons, e.layers, e.datatypes)] for e in c.polygons]
    if [[k for k, _ in e] for e in got] != [[k for k, _ in e] for e in m.polys]:
        return note("layers and datatypes of the polygons %r, expected %r" % (
            [[k for k, _ in e] for e in got], [[k for k, _ in e] for e in m.polys]))
    for a, b in zip(got, m.polys):
        for (_, p), (_, q) in zip(a, b):
            if not geo.same_polygon(p, q):
                note("polygon %s, expected %s" % (geo.fmt(p), geo.fmt(q)))
    if len(c.paths) != len(m.paths):
        return note("%d paths, expected %d" % (len(c.paths), len(m.paths)))
    for a, b in zip(c.paths, m.paths):
        why = hier.match_dict(a.get_polygons(True), b)
        if why:
            note("path: %s" % why)
        if sorted(zip(a.layers, a.datatypes)) != sorted(k for k, _ in b):
            note("layers of the path %r" % (list(zip(a.layers, a.datatypes)),))
    lab = [[l.text, l.layer, l.texttype] for l in c.labels]
    if lab != [x[:3] for x in m.labels]:
        return note("labels %r, expected %r" % (lab, m.labels))
    for l, x in zip(c.labels, m.labels):
        if np.abs(np.array(l.position) - x[3]).max() > 1e-8:
            note("label at %r, expected %r" % (l.position, x))
    if len(c.references) != len(m.refs):
        return note("%d references, expected %d" % (len(c.references), len(m.refs)))
    # the cell still works: all queries and the stream agree
    items = [i for e in m.polys + m.paths for i in e]
    for s in m.refs:
        for q in hier.placements(s):
            items += hier.polygons(DESC, s["cell"], None, q)
    why = hier.match_dict(c.get_polygons(True), items)
    if why:
        note("get_polygons: %s" % why)
    rec.expect(c.get_layers() >= {k[0] for k, _ in items}, "get_layers")
    if not geo.same_bbox(c.get_bounding_box(), geo.bbox([p for _, p in items])):
        note("bounding box %r" % c.get_bounding_box())
    f = io.BytesIO()
    c.to_gds(f, 1000, timestamp=TS)
    st = gds.parse_cell(f.getvalue())
    n = len([e for e in st["elements"] if e["kind"] == gds.BOUNDARY])
    want = sum(len(e) for e in m.polys) + sum(len(b) for a, b in zip(c.paths, m.paths) if not a.gdsii_path)
    if n != want:
        note("%d polygons written, expected %d" % (n, want))
    bl = [(e["layer"], e["type"]) for e in st["elements"] if e["kind"] == gds.BOUNDARY]
    if sorted(bl)[:0] != [] or not set(k for e in m.polys for k, _ in e) <= set(bl):
        note("layers written %r" % bl)
    rec.state((mem.fingerprint(c)))


def gen(tier):
    depth = 4 if tier == "thorough" else 3
    for ci in range(len(CONFIGS)):
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                yield dict(cfg=ci, first=[a, b], depth=depth)


def run(case, rec):
    def go(hist):
        cells = hier.build(dict(DESC, TOP=CONFIGS[case["cfg"]]))
        c = cells["TOP"]
        m = M(CONFIGS[case["cfg"]])
        for op in hist:
            c = apply_real(c, cells, op, rec)
            apply_model(m, op)
        rec.step(len(hist))
        verify(rec, c, m, hist)

    hist = [OPS[i] for i in case["first"]]
    if case["first"][1] == 0:
        go(hist[:1])
    go(hist)
    if case["depth"] > 2:
        for op in OPS:
            go(hist + [op])
            if case["depth"] > 3 and op[0] in ("poly", "flat", "add") and len(rec.fails) < 40:
                for op2 in OPS:
                    if op2[0] in ("poly", "flat", "path", "label"):
                        go(hist + [op, op2])


def gen_flat(tier):
    """flatten with every combination of its arguments, after every operation (or none) and
    before every operation (or none)."""
    v = (None, 0, 1, 9) if tier != "thorough" else (None, 0, 1, 9, 2, 255, 32767)
    few = [("poly", "layer1"), ("label", "layer1"), ("path", "layer1"), ("copy",), ("flat", (5, None, 0))]
    for ci in range(len(CONFIGS)):
        for a in itertools.product(v, repeat=3):
            yield dict(cfg=ci, hist=[("flat", a)])
            for op in few:
                yield dict(cfg=ci, hist=[op, ("flat", a)])
                yield dict(cfg=ci, hist=[("flat", a), op])


def run_flat(case, rec):
    cells = hier.build(dict(DESC, TOP=CONFIGS[case["cfg"]]))
    c, m = cells["TOP"], M(CONFIGS[case["cfg"]])
    for op in case["hist"]:
        op = tuple(tuple(x) if isinstance(x, list) else x for x in op)
        c = apply_real(c, cells, op, rec)
        apply_model(m, op)
        rec.step()
    verify(rec, c, m, case["hist"])


def groups(tier):
    return [
        Group("flatten", lambda: gen_flat(tier), run_flat,
              "3 cells x flatten with all combinations of %d^3 arguments, alone, before and after 5 operations"
              % (7 if tier == "thorough" else 4)),
        Group("histories", lambda: gen(tier), run,
              "3 cells x all histories of length 3%s over %d operations, verified after each"
              % (" (and 4 with a filter or flatten last)" if tier == "thorough" else "", len(OPS))),
    ]
