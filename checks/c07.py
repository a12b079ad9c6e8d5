"""C07: bounding boxes under all histories of edits and queries."""
import copy
import itertools

import numpy as np

from mc import geo, hier, spec
from mc.engine import Group


def configs():
    P = lambda x, y, w=2, h=1, l=0: dict(t="poly", polys=[[(x, y), (x + w, y), (x + w / 2, y + h)]],
                                         ld=[(l, 0)])
    F = dict(t="flex", pts=[(0, 0), (6, 0)], w=1, l=3)
    R = dict(t="rob", pts=[(1, -4), (1, 3)], w=0.5, l=4)
    mk = lambda mid, top, leaf: {"LEAF": leaf, "MID": mid, "TOP": top}
    out = []
    refs = [
        (dict(t="ref", cell="LEAF", o=(5, 5), rot=90), dict(t="ref", cell="MID", o=(-3, 2), rot=30)),
        (dict(t="ref", cell="LEAF", o=(5, 5), rot=45, xr=True), dict(t="arr", cell="MID", cols=2, rows=2, sp=(20, 15), o=(-3, 2), rot=90)),
        (dict(t="arr", cell="LEAF", cols=2, rows=3, sp=(7, -9), mag=2), dict(t="ref", cell="MID", xr=True, mag=0.5)),
        (dict(t="arr", cell="LEAF", cols=3, rows=1, sp=(4, 4), rot=30, xr=True), dict(t="arr", cell="MID", cols=1, rows=2, sp=(5, 30), rot=-60)),
        (dict(t="ref", cell="LEAF", rot=180, mag=3), dict(t="ref", cell="MID", rot=None, o=(1, 1))),
        (dict(t="arr", cell="LEAF", cols=2, rows=1, sp=(9, 9), rot=270), dict(t="ref", cell="MID", rot=0, xr=True)),
    ]
    for a, b in refs:
        out.append(mk([P(1, 1), a], [b, dict(t="label", text="x", pos=(1000, 1000))], [P(0, 0), F]))
        out.append(mk([a], [b, P(2, -1), dict(t="ref", cell="NONE")], []))
        out.append(mk([R, a], [b, b], [P(0, 0, 4, 2), R]))
    return out


NEW = {
    "p": dict(t="poly", polys=[[(-30, 40), (-25, 40), (-25, 47)]], ld=[(5, 5)]),
    "f": dict(t="flex", pts=[(50, 0), (50, -60)], w=2, l=5),
    "l": dict(t="label", text="far", pos=(500, 500)),
    "r": dict(t="ref", cell="LEAF", o=(100, 3), rot=20),
    "a": dict(t="arr", cell="LEAF", cols=2, rows=2, sp=(-11, 13), o=(0, 70), rot=90),
}

OPS = [("q", "LEAF"), ("q", "MID"), ("q", "TOP"), ("qr", "MID"), ("qr", "TOP"),
       ("add", "LEAF", "p"), ("add", "LEAF", "f"), ("add", "MID", "p"), ("add", "MID", "r"),
       ("add", "TOP", "a"), ("add", "LEAF", "l"), ("pop", "LEAF"), ("rmpoly", "LEAF"),
       ("rmpath", "MID"), ("rmpath", "LEAF"), ("move", "LEAF"), ("movepath", "LEAF"), ("scale", "MID"),
       ("tref", "TOP"), ("rot", "MID"), ("rot", "TOP"), ("norefs", "MID"), ("flat", "MID"),
       ("replace",), ("vertex", "LEAF")]

KINDS = {"poly": 0, "flex": 1, "rob": 1, "label": 2, "ref": 3, "arr": 3}


def first(els, kinds):
    return [i for i, s in enumerate(els) if s["t"] in kinds]


def model(desc, op):
    """New description, or None when the operation does not apply."""
    k = op[0]
    if k in ("q", "qr"):
        return desc
    d = {n: list(v) for n, v in desc.items()}
    if k == "add":
        d[op[1]].append(NEW[op[2]])
        return d
    if k == "pop":
        i = first(d[op[1]], ("poly",))
        if not i:
            return None
        del d[op[1]][i[0]]
        return d
    if k == "rmpoly":
        i = first(d[op[1]], ("poly",))
        if not i:
            return None
        d[op[1]] = [s for s in d[op[1]] if s["t"] != "poly" or (5, 5) not in s["ld"]]
        return d
    if k == "rmpath":
        if not first(d[op[1]], ("flex", "rob", "fpath")):
            return None
        d[op[1]] = [s for s in d[op[1]] if s["t"] not in ("flex", "rob", "fpath")]
        return d
    if k in ("move", "scale", "vertex"):
        i = first(d[op[1]], ("poly",))
        if not i:
            return None
        s = d[op[1]][i[0]]
        if k == "move":
            pol = [[(x - 17, y + 0.5) for x, y in p] for p in s["polys"]]
        elif k == "scale":
            pol = [[(3 * x, -2 * y) for x, y in p] for p in s["polys"]]
        else:
            pol = [[(x, y) for x, y in p] for p in s["polys"]]
            pol[0][0] = (-77, -1)
        d[op[1]][i[0]] = dict(s, polys=pol)
        return d
    if k == "movepath":
        i = first(d[op[1]], ("flex", "rob"))
        if not i:
            return None
        s = d[op[1]][i[0]]
        d[op[1]][i[0]] = dict(s, pts=[(x + 3, y - 40) for x, y in s["pts"]])
        return d
    if k in ("tref", "rot"):
        i = first(d[op[1]], ("ref", "arr"))
        if not i:
            return None
        s = d[op[1]][i[0]]
        o = s.get("o", (0, 0))
        d[op[1]][i[0]] = dict(s, o=(o[0] + 9, o[1] - 5)) if k == "tref" else dict(s, rot=(s.get("rot") or 0) + 75)
        return d
    if k == "norefs":
        if not first(d[op[1]], ("ref", "arr")):
            return None
        d[op[1]] = [s for s in d[op[1]] if s["t"] not in ("ref", "arr")]
        return d
    if k == "flat":
        if not first(d[op[1]], ("ref", "arr")):
            return None
        flat = []
        for s in d[op[1]]:
            if s["t"] in ("ref", "arr"):
                for q in hier.placements(s):
                    flat += hier.elements(d, s["cell"], q)
        own = [s for s in d[op[1]] if s["t"] not in ("ref", "arr")]
        d[op[1]] = own + flat
        return d
    if k == "replace":
        for n in d:
            d[n] = [dict(s, cell="NEW") if s.get("cell") == "LEAF" else s for s in d[n]]
        return d
    raise ValueError(op)


class Real:
    def __init__(self, desc):
        import gdspy

        desc = dict(desc)
        self.cells = hier.build(desc)
        self.lib = gdspy.GdsLibrary("L")
        self.lib.add(list(self.cells.values()), include_dependencies=False)

    def act(self, op):
        import gdspy

        k = op[0]
        c = self.cells.get(op[1]) if len(op) > 1 else None
        if k == "q":
            c.get_bounding_box()
        elif k == "qr":
            for r in c.references:
                r.get_bounding_box()
        elif k == "add":
            c.add(spec.build(NEW[op[2]], self.cells))
        elif k == "pop":
            c.polygons.pop(0)
        elif k == "rmpoly":
            c.remove_polygons(lambda p, l, d: (l, d) == (5, 5))
        elif k == "rmpath":
            c.remove_paths(lambda p: True)
        elif k == "move":
            c.polygons[0].translate(-17, 0.5)
        elif k == "scale":
            c.polygons[0].scale(3, -2)
        elif k == "vertex":
            c.polygons[0].polygons[0][0] = (-77, -1)
        elif k == "movepath":
            c.paths[0].translate(3, -40)
        elif k == "tref":
            c.references[0].translate(9, -5)
        elif k == "rot":
            c.references[0].rotation = (c.references[0].rotation or 0) + 75
        elif k == "norefs":
            c.references = []
        elif k == "flat":
            c.flatten()
        elif k == "replace":
            self.lib.replace_references("LEAF", self.cells["NEW"])


ORDERED = ("move", "scale", "vertex", "pop", "movepath")


def gen(tier):
    n = 4 if tier == "thorough" else 3
    for ci in range(len(configs())):
        for first_op in range(len(OPS)):
            yield dict(cfg=ci, first=first_op, depth=n if tier == "thorough" and ci % 3 != 2
                       else 3 if tier == "thorough" or ci in (0, 2, 4, 6, 10, 14) else 2)


def run(case, rec):
    desc0 = dict(configs()[case["cfg"]])
    desc0["NEW"] = [dict(t="poly", polys=[[(0, 0), (90, 0), (0, 33)]], ld=[(8, 8)])]
    memo = {}

    def verify(desc, real, hist):
        k = repr(desc)
        if k not in memo:
            memo[k] = {n: geo.bbox([p for _, p in hier.polygons(desc, n)]) for n in desc}
        want = memo[k]
        for n in ("LEAF", "TOP", "MID"):
            got = real.cells[n].get_bounding_box()
            rec.expect(geo.same_bbox(got, want[n]),
                       lambda: "after %r: bounding box of %s is %r, expected %r" % (
                           hist, n, None if got is None else got.tolist(),
                           None if want[n] is None else want[n].tolist()))
        for n in ("MID", "TOP"):
            i = first(desc[n], ("ref", "arr"))
            for j, r in zip(i, real.cells[n].references):
                s = desc[n][j]
                w = geo.bbox([p for q in hier.placements(s)
                              for _, p in hier.polygons(desc, s["cell"], None, q)])
                got = r.get_bounding_box()
                rec.expect(geo.same_bbox(got, w), lambda: "after %r: bounding box of the reference "
                           "in %s is %r, expected %r" % (hist, n, got, w))
        rec.state((case["cfg"], k))

    def go(desc, hist):
        real = Real(desc0)
        for o in hist:
            real.act(o)
        rec.step(len(hist))
        verify(desc, real, hist)
        if len(rec.fails) > 30 or len(hist) >= case["depth"]:
            return
        for o in OPS:
            if hist and o == hist[-1] and o[0] in ("q", "qr"):
                continue
            d = model(desc, o)
            if d is None:
                continue
            go(d, hist + [o])

    o = OPS[case["first"]]
    d = model(desc0, o)
    if d is not None:
        go(d, [o])


def run_names(case, rec):
    """Cells of the same name in one hierarchy keep their own bounding boxes."""
    desc = configs()[case["cfg"]]
    cells = hier.build(desc)
    for n, name in zip(sorted(desc), case["names"]):
        cells[n].name = name
    want = {n: geo.bbox([p for _, p in hier.polygons(desc, n)]) for n in desc}
    for n in case["order"]:
        got = cells[n].get_bounding_box()
        rec.step()
        rec.expect(geo.same_bbox(got, want[n]), lambda: "cells named %r, queries in order %r: bounding box of %s is %r, expected %r" % (
            case["names"], case["order"], n, got, want[n]))
    rec.state(str(case))


SIBLINGS = {
    "A": [dict(t="poly", polys=[[(0, 0), (1, 0), (0, 1)]], ld=[(1, 0)])],
    "B": [dict(t="poly", polys=[[(0, 0), (70, 0), (0, 31)]], ld=[(1, 0)])],
    "C": [dict(t="ref", cell="A", o=(9, 2), rot=30), dict(t="poly", polys=[[(-3, 0), (5, 0), (0, 6)]], ld=[(1, 0)])],
    "E": [],
}
REFER = [lambda c: dict(t="ref", cell=c, o=(3, 1)), lambda c: dict(t="ref", cell=c, rot=90, xr=True), lambda c: dict(t="ref", cell=c, rot=40),
         lambda c: dict(t="arr", cell=c, cols=2, rows=1, sp=(5, 5))]


def run_siblings(case, rec):
    import gdspy

    desc = dict(SIBLINGS, TOP=[REFER[case["how"]](c) for c in case["order"]])
    cells = hier.build(desc)
    for n, name in zip("ABCE", case["names"]):
        cells[n].name = name
    for n in ("TOP", "A", "B", "C", "E"):
        got, want = cells[n].get_bounding_box(), geo.bbox([p for _, p in hier.polygons(desc, n)])
        rec.step()
        rec.expect(geo.same_bbox(got, want), lambda: "cells A, B, C, E named %r: bounding box of %s is %r, expected %r" % (case["names"], n, got, want))
    rec.state(str(case))


def gen_siblings(tier):
    for names in itertools.product("XY", repeat=4):
        for order in itertools.permutations("ABCE", 3):
            for how in range(len(REFER)):
                yield dict(names=names, order=order, how=how)


def run_angles(case, rec):
    import gdspy

    tri = np.array([(-2e3, 1e3), (1e4, 0), (3e3, 9e3)])
    c = gdspy.Cell("X").add(gdspy.Polygon(tri))
    mid = gdspy.Cell("M").add(gdspy.CellReference(c, (5, 5), case["inner"]))
    for base in range(-720, 721, 90):
        for d in (0, 1e-4, 1e-3, 9e-3, 0.05, 0.4, 45):
            for a in (base + d, base - d):
                for ref, T in ((gdspy.CellReference(mid, (1, 2), a, None, case["xr"]), None),
                               (gdspy.CellArray(mid, 2, 2, (1e3, 2e3), (1, 2), a, None, case["xr"]), None)):
                    kw = dict(o=(1, 2), rot=a, xr=case["xr"])
                    s = dict(kw, t="ref") if isinstance(ref, gdspy.CellReference) else dict(kw, t="arr", cols=2, rows=2, sp=(1e3, 2e3))
                    q0 = hier.placements(dict(t="ref", o=(5, 5), rot=case["inner"]))[0]
                    want = geo.bbox([q.pts(q0.pts(tri)) for q in hier.placements(s)])
                    rec.step()
                    for got in (ref.get_bounding_box(), gdspy.Cell("T").add(ref).get_bounding_box()):
                        rec.expect(got is not None and np.abs(got - want).max() < 1e-6, lambda: "rotation %r of rotation %r: bounding box %r, expected %r" % (
                            a, case["inner"], got, want))
    rec.state(str(case))


def gen_angles(tier):
    for inner in (None, 0, 90, -180, 1e-3, 30):
        for xr in (False, True):
            yield dict(inner=inner, xr=xr)


def gen_names(tier):
    for c in range(len(configs())):
        for names in (("A", "A", "A"), ("A", "A", "B"), ("A", "B", "A"), ("B", "A", "A")):
            for order in itertools.permutations(("LEAF", "MID", "TOP")):
                yield dict(cfg=c, names=names, order=order)


def elements():
    """Every kind of element with each of its parts the extreme one in turn."""
    box = lambda x, y: [(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)]
    far = [(-20, 3), (20, -2), (1, 30), (2, -30)]
    for n in (1, 2, 3, 4):
        for k in range(n):
            for p in far:
                polys = [box(i, i) for i in range(n)]
                polys[k] = box(*p)
                yield "poly", polys
                for kind in ("flex", "rob"):
                    for lays in ("same", "all"):
                        # one trace away from the others, or wider than them
                        off = [0.0, 2, -2, 4][:n]
                        off[k] = p[1]
                        yield kind, dict(width=[1.0] * n, offset=off, layer=list(range(n)) if lays == "all" else 3)
                        wid = [1.0] * n
                        wid[k] = abs(p[0])
                        yield kind, dict(width=wid, offset=[0.0, 2, -2, 4][:n], layer=list(range(n)) if lays == "all" else 3)


def element(kind, a):
    import gdspy

    if kind == "poly":
        return gdspy.PolygonSet(a), [np.array(p, dtype=float) for p in a]
    own = []
    if kind == "flex":
        p = gdspy.FlexPath([(0, 0), (10, 0)], **a)
    else:
        p = gdspy.RobustPath((0, 0), **a).segment((10, 0))
    for w, o in zip(a["width"], a["offset"]):
        # to the left of a FlexPath, to the right of a RobustPath
        y = o if kind == "flex" else -o
        own.append(np.array([(0, y - w / 2), (10, y - w / 2), (10, y + w / 2), (0, y + w / 2)]))
    return p, own


REFS = [None] + [dict(t=t, cell="X", o=o, rot=r, mag=m, xr=x, cols=2, rows=3, sp=(9, -7))
                 for t in ("ref", "arr") for o, r, m, x in (((3, -2), None, None, False), ((0, 0), 90, 2, True), ((1, 1), 30, None, True), ((0, 5), -135, 0.5, False))]


def run_elements(case, rec):
    import gdspy

    for kind, a in case["els"]:
        try:
            el, own = element(kind, a)
        except Exception as e:
            return rec.fail("%s %s: %r" % (kind, a, e))
        c = gdspy.Cell("X").add(el)
        for s in REFS:
            rec.step()
            if s is None:
                got, want = c.get_bounding_box(), geo.bbox(own)
            else:
                r = spec.build(s, {"X": c})
                top = gdspy.Cell("T").add(r)
                got, want = top.get_bounding_box(), geo.bbox([q.pts(p) for q in hier.placements(s) for p in own])
                rec.expect(geo.same_bbox(r.get_bounding_box(), want), lambda: "%s %s in %s: bounding box of the reference %r, expected %r" % (
                    kind, a, s, r.get_bounding_box(), want))
            rec.expect(geo.same_bbox(got, want), lambda: "%s %s in %s: bounding box %r, expected %r" % (kind, a, s, got, want))
        rec.state((kind, str(a)))


def gen_elements(tier):
    els = list(elements())
    for i in range(0, len(els), 8):
        yield dict(els=els[i:i + 8])


def groups(tier):
    return [
        Group("names", lambda: gen_names(tier), run_names,
              "the 18 hierarchies with all ways of giving two or three cells the same name, all orders of queries"),
        Group("siblings", lambda: gen_siblings(tier), run_siblings,
              "up to three of four cells of equal and different names side by side, in all orders, below 4 kinds of references"),
        Group("angles", lambda: gen_angles(tier), run_angles, "rotations of up to two turns about all multiples of a quarter turn, and of 6 inner rotations"),
        Group("elements", lambda: gen_elements(tier), run_elements,
              "sets of up to 4 polygons and paths of up to 4 traces, each the extreme one in turn, alone and below 8 references"),
        Group("histories", lambda: gen(tier), run,
              "18 three-level hierarchies x all histories of length %s over 25 operations; after every "
              "history all cells and references are queried" % (
                  "4 (3 for a third of them)" if tier == "thorough" else "3 (6 hierarchies) or 2")),
    ]
