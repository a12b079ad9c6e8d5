"""C08: set queries, areas and top level cells over all small hierarchies."""
import itertools

import numpy as np

from mc import geo, hier, spec
from mc.engine import Group

SQ = lambda x, n, ld: dict(t="poly", polys=[[(x, 0), (x + n, 0), (x + n, n), (x, n)]], ld=[ld])
CONTENT = [
    [],
    [SQ(0, 1, (1, 2)), SQ(5, 2, (1, 3))],
    [dict(t="poly", polys=[[(0, 0), (2, 0), (0, 2)], [(9, 0), (9, 4), (12, 4)]], ld=[(2, 1), (1, 2)]),
     dict(t="label", text="a", pos=(0, 0), l=4, tt=6)],
    [dict(t="flex", pts=[(0, 0), (10, 0)], w=[1, 2], off=5, l=[5, 1], d=[7, 2]),
     dict(t="label", text="b", pos=(0, 0), l=1, tt=2)],
    [dict(t="rob", pts=[(0, 0), (0, 4)], w=0.5, l=6, d=1),
     dict(t="label", text="c", pos=(0, 0), l=8, tt=6), dict(t="label", text="d", pos=(1, 1), l=8, tt=0)],
    [dict(t="flex", pts=[(0, 0), (10, 0)], w=[1, 2, 0.5], off=5, l=[0, 1], d=[0], gds=True),
     SQ(3, 3, (0, 0))],
]
NAMES = ["A", "B", "C", "D"]
EDGE = [
    [],
    [dict(t="ref")],
    [dict(t="arr", cols=2, rows=3, sp=(20, 20), mag=0.5, rot=30)],
    [dict(t="ref", mag=2, xr=True), dict(t="ref", rot=90, o=(5, 5))],
    [dict(t="arr", cols=1, rows=2, sp=(9, 9))],
]
ASSIGN = [(1, 2, 3, 4), (0, 3, 1, 2), (5, 0, 4, 0), (2, 5, 0, 3), (0, 0, 0, 1), (4, 1, 5, 5)]


def gen(tier):
    e3 = list(itertools.combinations(range(3), 2))
    e4 = list(itertools.combinations(range(4), 2))
    for a in ASSIGN:
        for combo in itertools.product(range(len(EDGE)), repeat=len(e3)):
            for miss in (0, 1, 2, 4, 7):
                yield dict(n=3, edges=[(i, j, c) for (i, j), c in zip(e3, combo)], miss=miss, assign=a)
    k = len(EDGE) if tier == "thorough" else 3
    for a in ASSIGN if tier == "thorough" else ASSIGN[:4]:
        for combo in itertools.product(range(k), repeat=len(e4)):
            yield dict(n=4, edges=[(i, j, c) for (i, j), c in zip(e4, combo)], miss=sum(combo) % 16,
                       assign=a)


def run(case, rec):
    names = NAMES[: case["n"]]
    desc = {n: list(CONTENT[c]) for n, c in zip(names, case["assign"])}
    if "refs" in case:
        return verify(rec, names, dict(desc, **{n: desc[n] + r for n, r in case["refs"].items()}))
    for i, j, c in case["edges"]:
        for s in EDGE[c]:
            desc[names[i]].append(dict(s, cell=names[j]))
    for i, n in enumerate(names):
        if case["miss"] >> i & 1:
            desc[n].append(dict(t="ref", cell="MISSING"))
            desc[n].append(dict(t="arr", cell="GONE", cols=2, rows=2, sp=(1, 1)))
    verify(rec, names, desc)


MAGS = [None, 1, 2, 3, 0.5, 1.5, 10]
REFK = [dict(t="ref"), dict(t="arr", cols=1, rows=1, sp=(9, 9)), dict(t="arr", cols=3, rows=1, sp=(9, 9)),
        dict(t="arr", cols=2, rows=4, sp=(-9, 30))]


def gen_place(tier):
    """Every kind of placement, alone, twice over two levels and next to contents."""
    k = [dict(s, mag=m, rot=r, xr=x, o=(3, -2)) for s in REFK for m in MAGS for r in (None, 90, 30)
         for x in (False, True)]
    for a in ((0, 1, 3), (3, 2, 1)):
        for s in k:
            yield dict(n=3, assign=a, refs={"A": [dict(s, cell="C")]})
            for t in k if tier == "thorough" else k[::5]:
                yield dict(n=3, assign=a, refs={"A": [dict(s, cell="B")], "B": [dict(t, cell="C")]})


def gen_order(tier):
    """References to cells that exist and to missing ones in every order."""
    r = [dict(t="ref", cell="B", mag=3), dict(t="ref", cell="MISSING"), dict(t="arr", cell="C", cols=2, rows=2, sp=(30, 30)),
         dict(t="arr", cell="GONE", cols=1, rows=3, sp=(1, 1)), dict(t="ref", cell="C", rot=90)]
    for k in range(1, 6):
        for perm in itertools.permutations(r, k):
            for a in (ASSIGN[0], ASSIGN[1], ASSIGN[4]):
                yield dict(n=4, assign=a, refs={"A": list(perm), "C": [dict(t="ref", cell="NONE"), dict(t="ref", cell="D")]})


def verify(rec, names, desc):
    import gdspy

    cells = hier.build(desc)
    succ = {n: {s["cell"] for s in desc[n] if s["t"] in ("ref", "arr") and s["cell"] in desc} for n in names}

    def reach(n):
        out = set(succ[n])
        for m in succ[n]:
            out |= reach(m)
        return out

    def note(cond, msg):
        if not cond:
            rec.fail(msg)

    order = list(names)
    for n in order + order[::-1]:
        c = cells[n]
        inside = [n] + sorted(reach(n))
        ld, lt = set(), set()
        for m in inside:
            for s in desc[m]:
                if s["t"] == "poly":
                    ld |= set(s["ld"])
                elif s["t"] in ("flex", "rob"):
                    ld |= {(p[4], p[5]) for p in spec.paths_of(s)}
                elif s["t"] == "label":
                    lt.add((s["l"], s["tt"]))
        note(c.get_layers() == {l for l, _ in ld | lt}, "get_layers of %s: %r" % (n, c.get_layers()))
        note(c.get_datatypes() == {d for _, d in ld}, "get_datatypes of %s: %r" % (n, c.get_datatypes()))
        note(c.get_texttypes() == {t for _, t in lt}, "get_texttypes of %s: %r" % (n, c.get_texttypes()))
        got = c.get_svg_classes()
        note(set(got[0]) == ld and set(got[1]) == lt, "get_svg_classes of %s: %r" % (n, got))
        note(c.get_dependencies() == {cells[m] for m in succ[n]}, "get_dependencies of %s" % n)
        note(c.get_dependencies(True) == {cells[m] for m in reach(n)}, "get_dependencies(True) of %s" % n)
        items = hier.polygons(desc, n)
        area = {}
        for k, p in items:
            area[k] = area.get(k, 0) + geo.area(p)
        check_area(rec, c, area, n)
        i = 0
        for s in desc[n]:
            if s["t"] in ("ref", "arr"):
                a = {}
                for q in hier.placements(s):
                    for k, p in hier.polygons(desc, s["cell"], None, q):
                        a[k] = a.get(k, 0) + geo.area(p)
                check_area(rec, c.references[i], a, "reference in %s to %s" % (n, s["cell"]))
                i += 1
        rec.step(8 + 2 * i)
        rec.state((n, sorted(ld), sorted(lt), inside, sorted(area.items())))
    for mask in ((1 << len(names)) - 1, 5, 6, 1, 0, 3):
        sub = [n for i, n in enumerate(names) if mask >> i & 1]
        lib = gdspy.GdsLibrary("L")
        lib.add([cells[n] for n in sub], include_dependencies=False)
        top = lib.top_level()
        want = set(sub)
        for n in sub:
            want -= succ[n]
        note(len(top) == len(want) and set(top) == {cells[n] for n in want},
             "top_level of %r: %r, expected %r" % (sub, [t.name for t in top], sorted(want)))
        rec.step()


def check_area(rec, obj, area, what):
    got = obj.area(True)
    for k in set(got) | set(area):
        rec.expect(abs(got.get(k, 0) - area.get(k, 0)) <= 1e-9 * (1 + area.get(k, 0)),
                   lambda: "area of %s, %r: %r, expected %r" % (what, k, got.get(k), area.get(k)))
    rec.expect(abs(obj.area() - sum(area.values())) <= 1e-9 * (1 + sum(area.values())),
               lambda: "area of %s: %r, expected %r" % (what, obj.area(), sum(area.values())))
    # asking again gives the same
    again = obj.area(True)
    rec.expect(again == got, "area of %s changes when asked again" % what)


def gen_edit(tier):
    """Queries follow edits: all sequences of small edits on a two-level hierarchy."""
    n = 4 if tier == "thorough" else 3
    for k in range(1, n + 1):
        for seq in itertools.product(range(len(EDITS)), repeat=k):
            yield dict(seq=list(seq))


EDITS = ["layer", "datatype", "texttype", "addpoly", "addlabel", "addref", "rmpoly", "rmref",
         "rmlabel", "pathlayer"]


def run_edit(case, rec):
    import gdspy

    a, b = gdspy.Cell("A"), gdspy.Cell("B")
    b.add(gdspy.PolygonSet([[(0, 0), (2, 0), (0, 2)]], 1, 2))
    b.add(gdspy.FlexPath([(0, 0), (4, 0)], 1, layer=3, datatype=4))
    b.add(gdspy.Label("x", (0, 0), layer=5, texttype=6))
    a.add(gdspy.CellReference(b, magnification=2))
    lib = gdspy.GdsLibrary("L")
    lib.add([a, b])
    poly, path, lab, ref = [[(1, 2, 2.0)]], [(3, 4, 4.0)], [(5, 6)], [4]
    polys = [(1, 2, 2.0)]
    labels = [(5, 6)]
    n = 10
    for e in case["seq"]:
        n += 1
        e = EDITS[e]
        if e == "layer" and b.polygons:
            b.polygons[0].layers = [n]
            polys[0] = (n,) + polys[0][1:]
        elif e == "datatype" and b.polygons:
            b.polygons[0].datatypes[0] = n
            polys[0] = (polys[0][0], n, polys[0][2])
        elif e == "texttype" and b.labels:
            b.labels[0].texttype = n
            labels[0] = (labels[0][0], n)
        elif e == "addpoly":
            b.add(gdspy.Rectangle((0, 0), (3, 3), n, n + 1))
            polys.append((n, n + 1, 9.0))
        elif e == "addlabel":
            b.add(gdspy.Label("y", (1, 1), layer=n, texttype=n + 2))
            labels.append((n, n + 2))
        elif e == "addref":
            a.add(gdspy.CellReference(b))
            ref.append(1)
        elif e == "rmpoly":
            b.remove_polygons(lambda p, l, d: True)
            polys = []
        elif e == "rmref" and a.references:
            a.references.pop()
            ref.pop()
        elif e == "rmlabel":
            b.remove_labels(lambda l: True)
            labels = []
        elif e == "pathlayer":
            b.paths[0].layers = [n]
            path = [(n, 4, 4.0)]
        rec.step()
        allp = polys + path
        scale = ref
        ld = {(l, d) for l, d, _ in allp}
        lt = set(labels)
        for c, mul in ((b, [1]), (a, scale)):
            L, T = (ld, lt) if mul else (set(), set())
            ok = (c.get_layers() == {x for x, _ in L | T} and c.get_datatypes() == {d for _, d in L}
                  and c.get_texttypes() == {t for _, t in T}
                  and tuple(map(set, c.get_svg_classes())) == (L, T))
            rec.expect(ok, lambda: "after %r: queries of %s do not match" % (case["seq"], c.name))
            want = {}
            for l, d, x in allp:
                want[(l, d)] = want.get((l, d), 0) + x * sum(mul)
            check_area(rec, c, want if mul else {}, c.name)
        rec.expect(set(lib.top_level()) == ({a} if ref else {a, b}), "top_level")
        rec.state((sorted(ld), sorted(lt), tuple(ref)))


def groups(tier):
    return [
        Group("hierarchies", lambda: gen(tier), run,
              "all DAGs over 3 cells (5 edge kinds, 5 missing sets) and 4 cells (%d edge kinds) x 6 contents"
              % (5 if tier == "thorough" else 3)),
        Group("placements", lambda: gen_place(tier), run,
              "references and arrays x 7 magnifications x 3 rotations x reflection, alone and in pairs over two levels"),
        Group("orders", lambda: gen_order(tier), run,
              "all orders of up to 5 references to present and missing cells x 3 contents"),
        Group("edits", lambda: gen_edit(tier), run_edit,
              "all sequences of up to %d of 10 edits, queried after each" % (4 if tier == "thorough" else 3)),
    ]
