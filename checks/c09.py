"""C09: Cell.copy: exact transformation, complete independence."""
import itertools
import math

from mc import geo, hier, mem, spec
from mc.engine import Group
from checks import c06

LEAF = c06.LEAF
ROT = [None, 0, 90, 30, -143.25, 180]
SC = [None, 1, 2, 0.5]
TR = [None, (3, -2)]

OWN = [
    dict(t="poly", polys=[[(0, 0), (3, 0), (1, 2)], [(5, 1), (8, 1), (8, 4), (5, 3)]],
         ld=[(1, 2), (3, 4)], props=[(1, "abc")]),
    dict(t="flex", pts=[(0, 0), (10, 0), (10, 8)], w=1, l=5, d=6, props=[(2, "fp")]),
    dict(t="rob", pts=[(-3, 0), (-3, 9)], w=2, l=3, d=6, props=[(3, "rp")]),
    dict(t="label", text="own", pos=(2, 1), rot=20, mag=3, xr=True, anchor="nw", l=7, tt=8,
         props=[(4, "lb")]),
    dict(t="label", text="plain", pos=(-4, 5), l=1, tt=2),
]


def gen(tier):
    subs = [None]
    for t in c06.trans(tier, True):
        subs.append(dict(t="ref", cell="LEAF", props=[(5, "ref")], **t))
        for a in c06.ARR[:2]:
            subs.append(dict(t="arr", cell="LEAF", props=[(6, "arr")], **dict(a, **t)))
    for r, s, x, t in itertools.product(ROT, SC, (False, True), TR):
        for sub in subs:
            if tier != "thorough" and sub and sub["t"] == "arr" and sub["cols"] == 3:
                continue
            els = OWN + ([] if sub is None else [sub])
            for deep in (False, True):
                if deep and tier != "thorough" and sub is not None:
                    continue
                yield dict(desc={"TOP": els, "LEAF": LEAF}, rot=r, sc=s, xr=x, tr=t, deep=deep)


def run(case, rec):
    desc = case["desc"]
    cells = hier.build(desc)
    top = cells["TOP"]
    before = mem.fingerprint(top), mem.fingerprint(cells["LEAF"])
    c = top.copy("COPY", deep_copy=case["deep"], translation=case["tr"],
                 rotation=None if case["rot"] is None else math.radians(case["rot"]),
                 scale=case["sc"], x_reflection=case["xr"])
    rec.step()
    rec.expect(c.name == "COPY" and c is not top, "the copy is not a new cell of the given name")
    T = geo.placement(case["tr"] or (0, 0), case["rot"], case["sc"], case["xr"])
    why = hier.match_dict(c.get_polygons(True), hier.polygons(desc, "TOP", None, T))
    rec.expect(why is None, lambda: "polygons: %s" % why)
    pw = hier.match_dict(hier.by_spec(c06.path_items(c.get_paths())),
                         hier.polygons(desc, "TOP", None, T, ("flex", "rob")))
    rec.expect(pw is None, lambda: "paths: %s" % pw)
    tr = (case["xr"], case["sc"] or 1, (case["rot"] or 0) % 360)
    lw = hier.match_labels(c.get_labels(set_transform=True), hier.labels(desc, "TOP", None, T, tr), True)
    rec.expect(lw is None, lambda: "labels: %s" % lw)
    # one element of every kind per original, with its layers and properties
    for a, b in ((top.polygons, c.polygons), (top.paths, c.paths), (top.labels, c.labels),
                 (top.references, c.references)):
        rec.expect(len(a) == len(b), "number of elements")
        rec.expect([x.properties for x in a] == [x.properties for x in b], "properties")
        for x, y in zip(a, b):
            if hasattr(x, "layers"):
                rec.expect(x.layers == y.layers and x.datatypes == y.datatypes, "layers")
            if hasattr(x, "ref_cell"):
                rec.expect(x.ref_cell is y.ref_cell, "reference of the copy to another cell")
    rec.expect((mem.fingerprint(top), mem.fingerprint(cells["LEAF"])) == before,
               "the original cell changed")
    # copies keep working: written, moved, copied back
    for l in c.labels:
        l.translate(1, 2)
    for r in c.references:
        r.translate(1, 2)
    got = [hier.label_tuple(l)[4] for l in c.labels]
    want = [T(complex(*s["pos"])) + (1 + 2j) for s in desc["TOP"] if s["t"] == "label"]
    rec.expect(all(abs(complex(*g) - w) < 1e-9 for g, w in zip(got, want)),
               lambda: "labels of the copy cannot be moved: %r" % got)
    rec.state((case["rot"], case["sc"], case["xr"], case["tr"], mem.fingerprint(c)))


EDITS = [
    ("poly-translate", lambda c, g: c.polygons[0].translate(1, 1)),
    ("poly-rotate", lambda c, g: c.polygons[0].rotate(1)),
    ("poly-scale", lambda c, g: c.polygons[0].scale(2)),
    ("poly-layer", lambda c, g: c.polygons[0].layers.__setitem__(0, 99)),
    ("poly-datatype", lambda c, g: c.polygons[0].datatypes.__setitem__(1, 98)),
    ("poly-vertex", lambda c, g: c.polygons[0].polygons[0].__setitem__((0, 0), 77)),
    ("poly-drop", lambda c, g: (c.polygons[0].polygons.pop(), c.polygons[0].layers.pop(),
                                c.polygons[0].datatypes.pop())),
    ("poly-props", lambda c, g: c.polygons[0].properties.__setitem__(1, "new")),
    ("poly-props-add", lambda c, g: c.polygons[0].properties.__setitem__(9, "new")),
    ("flex-translate", lambda c, g: c.paths[0].translate(1, 1)),
    ("flex-segment", lambda c, g: c.paths[0].segment((1, 30))),
    ("flex-scale", lambda c, g: c.paths[0].scale(2)),
    ("flex-layer", lambda c, g: c.paths[0].layers.__setitem__(0, 97)),
    ("flex-props", lambda c, g: c.paths[0].properties.__setitem__(2, "new")),
    ("rob-translate", lambda c, g: c.paths[1].translate(1, 1)),
    ("rob-segment", lambda c, g: c.paths[1].segment((1, 30))),
    ("rob-rotate", lambda c, g: c.paths[1].rotate(1)),
    ("rob-props", lambda c, g: c.paths[1].properties.__setitem__(3, "new")),
    ("label-translate", lambda c, g: c.labels[0].translate(1, 1)),
    ("label-rotation", lambda c, g: setattr(c.labels[0], "rotation", 12)),
    ("label-text", lambda c, g: setattr(c.labels[0], "text", "new")),
    ("label-props", lambda c, g: c.labels[0].properties.__setitem__(4, "new")),
    ("ref-translate", lambda c, g: c.references[0].translate(1, 1)),
    ("ref-rotation", lambda c, g: setattr(c.references[0], "rotation", 12)),
    ("ref-cell", lambda c, g: setattr(c.references[0], "ref_cell", g.Cell("OTHER"))),
    ("ref-props", lambda c, g: c.references[0].properties.__setitem__(5, "new")),
    ("arr-spacing", lambda c, g: setattr(c.references[1], "spacing", (1, 1))),
    ("arr-translate", lambda c, g: c.references[1].translate(1, 1)),
    ("arr-props", lambda c, g: c.references[1].properties.__setitem__(6, "new")),
    ("remove-polygons", lambda c, g: c.remove_polygons(lambda p, l, d: l == 1)),
    ("remove-paths", lambda c, g: c.remove_paths(lambda p: True)),
    ("remove-labels", lambda c, g: c.remove_labels(lambda l: True)),
    ("add", lambda c, g: c.add(g.Rectangle((0, 0), (1, 1)))),
    ("add-ref", lambda c, g: c.add(g.CellReference("X", ignore_missing=True))),
    ("flatten", lambda c, g: c.flatten(50, 51, 52)),
    ("fracture", lambda c, g: c.polygons[0].fracture(5)),
    ("fillet", lambda c, g: c.polygons[0].fillet(0.1)),
    ("mirror", lambda c, g: c.polygons[0].mirror((0, 0), (1, 1))),
    ("flex-mirror", lambda c, g: c.paths[0].mirror((0, 0), (1, 1))),
    ("rob-mirror", lambda c, g: c.paths[1].mirror((0, 0), (1, 1))),
    ("clear-polygons", lambda c, g: c.polygons.clear()),
    ("clear-paths", lambda c, g: c.paths.clear()),
    ("clear-labels", lambda c, g: c.labels.clear()),
    ("clear-refs", lambda c, g: c.references.clear()),
]
# edits of the lists of the cell itself, safe on a shallow copy too
LISTS = {"remove-paths", "remove-labels", "add", "add-ref", "clear-polygons", "clear-paths",
         "clear-labels", "clear-refs"}


def gen_edit(tier):
    kinds = ["deep", "rotation", "scale", "x_reflection", "translation", "shallow"]
    for k in kinds:
        for side in (0, 1):
            for e in range(len(EDITS)):
                yield dict(kind=k, side=side, edits=[e])
            if tier == "thorough" or k in ("deep", "translation"):
                for e in itertools.product(range(len(EDITS)), repeat=2):
                    yield dict(kind=k, side=side, edits=list(e))


def run_edit(case, rec):
    import gdspy

    desc = {"TOP": OWN + [dict(t="ref", cell="LEAF", o=(1, 2), props=[(5, "ref")]),
                          dict(t="arr", cell="LEAF", cols=2, rows=2, sp=(3, 4), props=[(6, "arr")])],
            "LEAF": LEAF[:1]}
    kw = dict(deep=dict(deep_copy=True), shallow={}, rotation=dict(rotation=0.5),
              scale=dict(scale=2), x_reflection=dict(x_reflection=True),
              translation=dict(translation=(1, 2)))[case["kind"]]
    top = hier.build(desc)["TOP"]
    c = top.copy("COPY", **kw)
    edited, other = (c, top) if case["side"] else (top, c)
    if case["kind"] == "shallow" and any(EDITS[e][0] not in LISTS for e in case["edits"]):
        # elements are shared by a shallow copy
        rec.expect(all(a is b for a, b in zip(top.polygons + top.paths + top.labels + top.references,
                                              c.polygons + c.paths + c.labels + c.references)),
                   "a shallow copy does not share its elements")
        rec.step()
        return
    before = mem.fingerprint(other)
    for e in case["edits"]:
        try:
            EDITS[e][1](edited, gdspy)
        except (IndexError, AttributeError):
            # the object edited second was removed by the first edit
            break
        rec.step()
    rec.expect(mem.fingerprint(other) == before,
               lambda: "%s copy: %r of the %s is visible in the other" % (
                   case["kind"], [EDITS[e][0] for e in case["edits"]],
                   "copy" if case["side"] else "original"))
    rec.state((case["kind"], mem.fingerprint(edited)))


def groups(tier):
    return [
        Group("transformations", lambda: gen(tier), run,
              "96 transformations x own elements and %d references" % (36 if tier == "thorough" else 24)),
        Group("independence", lambda: gen_edit(tier), run_edit,
              "6 kinds of copy x both sides x all single edits (%d) and pairs of edits" % len(EDITS)),
    ]
