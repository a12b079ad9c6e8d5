"""C02: what the writer puts in the stream is well-formed GDSII and means exactly
the library in memory.

Every element of the alphabets is written by the real writers (all entry points);
the stream is read back by an independent strict parser and compared with the
reference meaning of the description."""
import io
import itertools
from datetime import datetime

from mc import alpha, gds, spec
from mc.engine import Group

TS = datetime(2019, 12, 31, 23, 59, 58)
DATE = [2019, 12, 31, 23, 59, 58] * 2


def write_via(way, lib, cells):
    """All public routes that produce a stream."""
    import gdspy

    f = io.BytesIO()
    if way == "write_gds":
        lib.write_gds(f, timestamp=TS)
    elif way == "write_gds_cells":
        lib.write_gds(f, cells=list(cells), timestamp=TS)
    elif way == "write_gds_names":
        lib.write_gds(f, cells=[c.name for c in cells], timestamp=TS)
    elif way == "writer":
        w = gdspy.GdsWriter(f, lib.name, lib.unit, lib.precision, timestamp=TS)
        for c in cells:
            w.write_cell(c, timestamp=TS)
        w.close()
    return f.getvalue()


def check_lib(rec, data, name, unit, precision, want_cells, slack=1e-4):
    """want_cells: ordered [(name, [specs])]."""
    try:
        lib = gds.parse(data)
    except gds.Bad as e:
        rec.fail("malformed stream: %s" % e)
        return None
    rec.expect(lib["name"] == name, lambda: "library name %r != %r" % (lib["name"], name))
    rec.expect(lib["date"] == DATE, lambda: "BGNLIB date %r" % lib["date"])
    rec.expect(
        spec.close_real(lib["units"][0], precision / unit)
        and spec.close_real(lib["units"][1], precision),
        lambda: "UNITS %r" % [float(u) for u in lib["units"]],
    )
    got = [c["name"] for c in lib["cells"]]
    if not rec.expect(got == [n for n, _ in want_cells],
                      lambda: "cells %r, expected %r" % (got, [n for n, _ in want_cells])):
        return lib
    mult = unit / precision
    for c, (n, specs) in zip(lib["cells"], want_cells):
        rec.expect(c["date"] == DATE, lambda: "BGNSTR date %r" % c["date"])
        # polygons, paths, labels and references are stored per kind
        order = {"poly": 0, "flex": 1, "rob": 1, "label": 2, "ref": 3, "arr": 3}
        exp = []
        for s in sorted(specs, key=lambda s: order[s["t"]]):
            exp += spec.expected_stream(s, mult)
        if not rec.expect(len(exp) == len(c["elements"]), lambda: "%d elements, expected %d" % (
                len(c["elements"]), len(exp))):
            continue
        # the order of elements of different kinds is not part of the property
        key = lambda e: e["kind"]
        for g, x in zip(sorted(c["elements"], key=key), sorted(exp, key=key)):
            why = spec.compare_stream(g, x, slack)
            if why:
                rec.fail(why)
    rec.state(("stream", data[:4000], len(data)))
    return lib


def elements(tier):
    e = [alpha.polys(), alpha.long_polys(), alpha.labels(), alpha.refs(), alpha.arrs(),
         alpha.gds_paths("flex"), alpha.gds_paths("rob")]
    return itertools.chain(*e)


def gen_elements(tier):
    units = alpha.UNITS if tier == "thorough" else alpha.UNITS[:2]
    for s in elements(tier):
        yield dict(el=[s], unit=alpha.UNITS[0][0], precision=alpha.UNITS[0][1],
                   way="write_gds", names=["CELL"], lib="library")
    for unit, prec in alpha.UNITS[1:]:
        for s in itertools.chain(
            alpha.polys() if unit / prec <= 1000 else [], alpha.labels(),
            itertools.islice(alpha.refs(), 0, None, 7 if tier == "quick" else 1),
            itertools.islice(alpha.arrs(), 0, None, 7 if tier == "quick" else 1),
        ):
            if s.get("polys") and s["polys"][0] == alpha.BIG and unit / prec > 999.9999:
                continue
            yield dict(el=[s], unit=unit, precision=prec, way="writer", names=["CELL"],
                       lib="lib")


def run_elements(case, rec):
    import gdspy

    lib = gdspy.GdsLibrary(case["lib"], unit=case["unit"], precision=case["precision"])
    cells = []
    want = []
    for n in case["names"]:
        c = gdspy.Cell(n)
        for s in case["el"]:
            c.add(spec.build(s))
        lib.add(c)
        cells.append(c)
        want.append((n, case["el"]))
    rec.step(2 + len(case["el"]))
    data = write_via(case["way"], lib, cells)
    # RobustPath evaluates its curve numerically: allow its tolerance on the grid
    slack = 1e-4
    if any(s["t"] in ("rob", "flex") for s in case["el"]):
        slack = 1e-3
    check_lib(rec, data, case["lib"], case["unit"], case["precision"], want, slack)


MIX = None


def mix():
    return [
        dict(t="poly", polys=[alpha.TRI, alpha.SQ], ld=[(1, 2), (3, 4)], props=[(1, "abc")]),
        dict(t="poly", polys=[alpha.ring(8191)], ld=[(1, 2)]),
        dict(t="label", text="lbl", pos=(1, 2), rot=30, mag=2, xr=True, props=[(7, "q")]),
        dict(t="label", text="xy", pos=(-1, 2)),
        dict(t="ref", cell="X", o=(1, 2), rot=90, mag=2, xr=True),
        dict(t="ref", cell="EVEN", o=(3, -4)),
        dict(t="arr", cell="X", cols=2, rows=3, sp=(4, 5), o=(1, 1), rot=90, xr=True),
        dict(t="flex", pts=alpha.PLINES[2], w=0.5, gds=True, ends="round"),
        dict(t="flex", pts=alpha.PLINES[1], w=[0.5, 1], off=3, gds=True,
             ends=("ext", 0.5, 1), props=[(9, "path")]),
        dict(t="rob", pts=alpha.PLINES[0], w=0.5, gds=True, wt=False),
    ]


def gen_seq(tier):
    """All ordered sequences of elements of different kinds in one cell (state
    carried from one element to the next), through every way of writing."""
    m = mix()
    n = 3 if tier == "thorough" else 2
    for k in range(0, n + 1):
        for idx in itertools.product(range(len(m)), repeat=k):
            for way in ("write_gds", "writer") if k == n else (
                    "write_gds", "write_gds_cells", "write_gds_names", "writer"):
                yield dict(el=[m[i] for i in idx], unit=1e-6, precision=1e-9, way=way,
                           names=["A", "BB", "CCC"] if k < n else ["A"], lib="L")


def gen_names(tier):
    names = ["A", "AB", "ABC", "A_$?9", "x" * 31, "x" * 32, "x" * 127]
    for k in range(0, 4):
        for t in itertools.permutations(names, k):
            for lib in ("", "l", "li", "x" * 43) if k < 3 else ("lib",):
                for way in ("write_gds", "write_gds_cells", "write_gds_names", "writer"):
                    yield dict(el=[mix()[3]], unit=1e-6, precision=1e-9, way=way,
                               names=list(t), lib=lib)


def gen_nonpath(tier):
    """Paths that are written as polygons: the stream carries exactly the polygons
    the path reports, for every specification, with its properties."""
    for kind in ("flex", "rob"):
        for pts in alpha.PLINES:
            for e in ("flush", "round", "extended", "smooth", ("ext", 0.5, 1)):
                for w, off in ((1, 0), ([1, 0.5], 3), (0.5, [2, -1, 0])):
                    for maxp in (199, 6, 0):
                        yield dict(t=kind, pts=pts, w=w, off=off, ends=e, maxp=maxp,
                                   l=[1, 2], d=[5, 5, 6], props=[(1, "abc"), (2, "de")])


def run_nonpath(case, rec):
    import gdspy
    import numpy as np

    lib = gdspy.GdsLibrary("L")
    c = lib.new_cell("C")
    p = spec.build(case)
    c.add(p)
    ref = spec.build(case).get_polygons(True)
    data = write_via("write_gds", lib, [c])
    rec.step(4)
    try:
        st = gds.parse(data)
    except gds.Bad as e:
        return rec.fail("malformed stream: %s" % e)
    got = {}
    for e in st["cells"][0]["elements"]:
        if e["kind"] != gds.BOUNDARY:
            return rec.fail("element kind %02x for a non-GDSII path" % e["kind"])
        got.setdefault((e["layer"], e["type"]), []).append(e["xy"][:-1])
        rec.expect(sorted(e["props"]) == sorted(spec.T(case["props"])),
                   lambda: "properties %r" % (e["props"],))
        if case["maxp"] > 4:
            rec.expect(len(e["xy"]) - 1 <= case["maxp"], "more than max_points vertices")
    if not rec.expect({k: len(v) for k, v in got.items()} ==
                      {k: len(v) for k, v in ref.items()},
                      lambda: "polygons per (layer, datatype) %r, path says %r" % (
            {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in ref.items()})):
        return
    for k in got:
        for a, b in zip(got[k], ref[k]):
            b = np.array(b) * 1000
            if len(a) != len(b) or np.abs(np.array(a) - b).max() > 0.501:
                rec.fail("polygon %r differs from the path's" % (k,))
    rec.state((sorted(got), data[-200:]))


def groups(tier):
    return [
        Group("elements", lambda: gen_elements(tier), run_elements,
              "every element of the alphabets alone in a cell, 6 unit/precision pairs"),
        Group("sequences", lambda: gen_seq(tier), run_elements,
              "all element sequences up to length %d over 10 element shapes, 4 writers"
              % (3 if tier == "thorough" else 2)),
        Group("names", lambda: gen_names(tier), run_elements,
              "ordered cell sets up to 3 over 7 names (even/odd lengths), 4 library names"),
        Group("path-polygons", lambda: gen_nonpath(tier), run_nonpath,
              "5 polylines x 5 ends x 3 width/offset families x 3 max_points"),
    ]
