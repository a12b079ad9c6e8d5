"""C06: flattening is the composition of the placements."""
import itertools

from mc import geo, hier, spec
from mc.engine import Group

LEAF = [
    dict(t="poly", polys=[[(0, 0), (3, 0), (1, 2)], [(5, 1), (8, 1), (8, 4), (5, 3)]],
         ld=[(1, 2), (3, 4)]),
    dict(t="flex", pts=[(0, 0), (10, 0), (10, 8)], w=1, l=5, d=6),
    dict(t="flex", pts=[(0, -5), (7, -5)], w=0.5, off=2, l=[1, 5], d=[2, 7]),
    dict(t="rob", pts=[(-3, 0), (-3, 9)], w=2, l=3, d=6),
    dict(t="label", text="leaf", pos=(2, 1), rot=20, mag=3, xr=True, anchor="nw", l=7, tt=8),
    dict(t="label", text="plain", pos=(-4, 5), l=1, tt=2),
]
LEAF[2] = dict(LEAF[2], w=[0.5, 0.5], off=2, l=1, d=7)
MID = [dict(t="poly", polys=[[(0, 0), (0, 4), (2, 4)]], ld=[(1, 2)]),
       dict(t="label", text="mid", pos=(1, 1), rot=-10, l=3, tt=2)]
TOP = [dict(t="poly", polys=[[(20, 20), (22, 20), (22, 25)]], ld=[(9, 9)]),
       dict(t="ref", cell="MISSING", o=(1, 1)),
       dict(t="arr", cell="MISSING", cols=2, rows=2, sp=(1, 1))]

SPECS = [(1, 2), (3, 4), (5, 6), (1, 7), (9, 9), (3, 6), (1, 4), (0, 0)]


def trans(tier, small=False):
    rot = [None, 0, 90, 180, -90, 30, -45.5]
    mag = [None, 1, 2, 0.5]
    org = [(0, 0), (3, -2)]
    if small:
        rot, mag, org = [None, 90, 30], [None, 2], [(3, -2)]
    for r, m, x, o in itertools.product(rot, mag, (False, True), org):
        yield dict(rot=r, mag=m, xr=x, o=o)


ARR = [dict(cols=2, rows=3, sp=(40, 30)), dict(cols=3, rows=1, sp=(-25, 5.5)),
       dict(cols=1, rows=1, sp=(0, 0))]


def place(kind, cell, t):
    return dict(t="ref", cell=cell, **t) if kind == "ref" else dict(
        t="arr", cell=cell, **dict(ARR[kind], **t))


def gen_one(tier):
    for t in trans(tier):
        for k in ["ref", 0, 1, 2]:
            yield dict(desc={"TOP": TOP + [place(k, "LEAF", t)], "LEAF": LEAF}, refs=True)


def gen_two(tier):
    ts = list(trans(tier, True))
    if tier == "thorough":
        ts = [t for t in trans(tier) if t["o"] != (0, 0) and t["rot"] != 0 and t["mag"] != 1]
    for t1, t2 in itertools.product(ts, ts):
        for k1, k2 in (("ref", "ref"), ("ref", 0), (0, "ref"), (0, 1)):
            yield dict(desc={"TOP": TOP + [place(k2, "MID", t2), place("ref", "LEAF", t1)],
                             "MID": MID + [place(k1, "LEAF", t1)], "LEAF": LEAF})


def gen_three(tier):
    ts = list(trans(tier, True))
    if tier != "thorough":
        ts = ts[1::2]
    for t1, t2, t3 in itertools.product(ts, ts, ts):
        yield dict(desc={"TOP": [place("ref", "UP", t3)], "UP": MID + [place(0, "MID", t2)],
                         "MID": MID + [place("ref", "LEAF", t1)], "LEAF": LEAF[:2] + LEAF[4:5]})


def path_items(paths):
    out = []
    for p in paths:
        for k, v in p.get_polygons(True).items():
            out += [(k, q) for q in v]
    return out


def set_items(sets):
    return [((l, d), p) for ps in sets for p, l, d in zip(ps.polygons, ps.layers, ps.datatypes)]


def compare(rec, obj, exp_poly, desc, name, depth, T, where, get=None):
    """All queries of obj (cell or reference) against the flattened meaning; exp(...)
    produces the expected items for given kinds."""
    def note(what, why):
        if why:
            rec.fail("%s, depth %r, %s: %s" % (where, depth, what, why))

    full = exp_poly(depth, ("poly", "flex", "rob"), True)
    note("get_polygons(False)", geo.match_polygons(obj.get_polygons(depth=depth),
                                                   [p for _, p in full]))
    note("get_polygons(True)", hier.match_dict(obj.get_polygons(True, depth), full))
    d = hier.by_spec(k for k in full if isinstance(k[0], tuple))
    for s in SPECS:
        note("get_polygons(%r)" % (s,), geo.match_polygons(obj.get_polygons(s, depth), d.get(s, [])))
    rec.step(2 + len(SPECS))


def run(case, rec):
    desc = case["desc"]
    cells = hier.build(desc)
    top = cells["TOP"]
    depths = (None, -1, 0, 1, 2) if case.get("refs") or len(desc) < 4 else (None, 0, 1, 2, 3)
    for depth in depths:
        compare(rec, top, lambda dp, kinds, boxes: hier.polygons(desc, "TOP", dp, geo.ID, kinds, boxes),
                desc, "TOP", depth, geo.ID, "cell")
        if depth == -1:
            continue
        rec.step(4)

        def note(what, why):
            if why:
                rec.fail("cell, depth %r, %s: %s" % (depth, what, why))

        items = hier.polygons(desc, "TOP", depth, geo.ID, ("poly",), False)
        note("get_polygonsets", hier.match_dict(hier.by_spec(set_items(top.get_polygonsets(depth))), items))
        items = hier.polygons(desc, "TOP", depth, geo.ID, ("flex", "rob"), False)
        note("get_paths", hier.match_dict(hier.by_spec(path_items(top.get_paths(depth))), items))
        lab = hier.labels(desc, "TOP", depth)
        note("get_labels", hier.match_labels(top.get_labels(depth), lab, False))
        note("get_labels(set_transform)", hier.match_labels(top.get_labels(depth, True), lab, True))
        rec.state((depth, sorted(str(hier.label_tuple(l)) for l in top.get_labels(depth, True)), desc))
    if case.get("refs"):
        r, s = top.references[-1], desc["TOP"][-1]
        for depth in (None, -1, 0, 1):
            def exp(dp, kinds, boxes):
                out = []
                for q in hier.placements(s):
                    out += hier.polygons(desc, s["cell"], dp, q, kinds, boxes)
                return out
            compare(rec, r, exp, desc, "LEAF", depth, None, "reference")
            if depth != -1:
                def note(what, why):
                    if why:
                        rec.fail("reference, depth %r, %s: %s" % (depth, what, why))
                note("get_polygonsets", hier.match_dict(
                    hier.by_spec(set_items(r.get_polygonsets(depth))), exp(depth, ("poly",), False)))
                note("get_paths", hier.match_dict(
                    hier.by_spec(path_items(r.get_paths(depth))), exp(depth, ("flex", "rob"), False)))
                lab = []
                tr = (bool(s.get("xr")), s.get("mag") or 1, (s.get("rot") or 0) % 360)
                for q in hier.placements(s):
                    lab += hier.labels(desc, s["cell"], depth, q, tr)
                note("get_labels", hier.match_labels(r.get_labels(depth), lab, False))
                note("get_labels(set_transform)", hier.match_labels(r.get_labels(depth, True), lab, True))
                rec.step(4)
        # a moved reference
        r.translate(7, -11)
        desc2 = dict(desc, TOP=desc["TOP"][:-1] + [dict(s, o=(s["o"][0] + 7, s["o"][1] - 11))])
        why = hier.match_dict(top.get_polygons(True), hier.polygons(desc2, "TOP"))
        rec.step()
        rec.expect(why is None, lambda: "translated reference: %s" % why)
        desc, case = desc2, dict(case, desc=desc2)
    # the hierarchy itself is untouched by all queries, and flatten shows the same
    top.flatten()
    rec.step()
    rec.expect(top.references == [], "references left after flatten")
    for what, got, want in (
        ("polygons", set_items(top.polygons), hier.polygons(desc, "TOP", None, geo.ID, ("poly",), False)),
        ("paths", path_items(top.paths), hier.polygons(desc, "TOP", None, geo.ID, ("flex", "rob"), False)),
    ):
        why = hier.match_dict(hier.by_spec(got), want)
        rec.expect(why is None, lambda: "flatten: %s: %s" % (what, why))
    why = hier.match_labels(top.labels, hier.labels(desc, "TOP"), False)
    rec.expect(why is None, lambda: "flatten: %s" % why)
    for n in desc:
        if n != "TOP":
            why = hier.match_dict(cells[n].get_polygons(True), hier.polygons(desc, n))
            rec.expect(why is None, lambda: "cell %s changed: %s" % (n, why))


def gen_offset(tier):
    """FlexPaths with an offset to one side: the recorded finding."""
    for xr in (False, True):
        for rot in (None, 90, 30):
            for mag in (None, 2):
                yield dict(rot=rot, mag=mag, xr=xr, o=(3, -2))


def run_offset(case, rec):
    s = dict(t="flex", pts=[(0, 0), (10, 0), (10, 8)], w=1, off=[1.5], l=5, d=6)
    neg = dict(s, off=[-1.5])
    desc = {"TOP": [dict(t="ref", cell="LEAF", **case)], "LEAF": [s]}
    bad = {"TOP": [dict(t="ref", cell="LEAF", **case)], "LEAF": [neg]}
    top = hier.build(desc)["TOP"]
    got = hier.by_spec(path_items(top.get_paths()))
    rec.step()
    why = hier.match_dict(got, hier.polygons(desc, "TOP"))
    if why:
        wrong = case["xr"] and hier.match_dict(got, hier.polygons(bad, "TOP")) is None
        rec.fail("get_paths: %s" % why, "flexpath-reflection-offset" if wrong else None)
    why = hier.match_dict(top.get_polygons(True), hier.polygons(desc, "TOP"))
    rec.expect(why is None, lambda: "get_polygons: %s" % why)
    rec.state((case["xr"], case["rot"], case["mag"], bool(why)))


def groups(tier):
    return [
        Group("one-level", lambda: gen_one(tier), run,
              "112 transformations x reference and 3 arrays, all queries and depths"),
        Group("two-level", lambda: gen_two(tier), run,
              "all pairs of transformations (%d each) x 4 reference/array combinations" % (
                  12 if tier != "thorough" else 48)),
        Group("three-level", lambda: gen_three(tier), run,
              "all triples of %d transformations" % (6 if tier != "thorough" else 12)),
        Group("offset-paths", lambda: gen_offset(tier), run_offset,
              "one-sided FlexPath under 12 transformations"),
    ]
