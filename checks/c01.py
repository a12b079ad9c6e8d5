"""C01: write -> read -> write histories."""
import io
import itertools
import os
import pathlib
import tempfile
from datetime import datetime

from mc import alpha, gds, mem, spec
from mc.engine import Group
from checks import c02

TS = datetime(2019, 12, 31, 23, 59, 58)


def make(case):
    import gdspy

    lib = gdspy.GdsLibrary(case.get("lib", "L"), unit=case["unit"],
                           precision=case["precision"])
    cells = {n: gdspy.Cell(n) for n, _ in case["cells"]}
    for n, els in case["cells"]:
        for s in els:
            cells[n].add(spec.build(s, cells))
        lib.add(cells[n], include_dependencies=False)
    return lib


def rounded(e):
    """The expected stream element, on the database grid."""
    return e


def strict(got, exp):
    """got: what was read, in database units of the file: must be on the grid and within half a
    unit of the description."""
    return mem.compare(got, exp)


def want(case, mult):
    out = []
    for n, els in case["cells"]:
        exp = []
        for s in els:
            exp += spec.expected_stream(s, mult)
        out.append((n, exp))
    return out


def read(data, how, lib, **kw):
    if how == "stream":
        lib.read_gds(io.BytesIO(data), **kw)
    else:
        d = tempfile.mkdtemp(prefix="c01")
        p = os.path.join(d, "f.gds")
        try:
            with open(p, "wb") as f:
                f.write(data)
            lib.read_gds(p if how == "path" else pathlib.Path(p), **kw)
        finally:
            os.unlink(p)
            os.rmdir(d)
    return lib


def run(case, rec):
    import gdspy

    lib = make(case)
    f = io.BytesIO()
    lib.write_gds(f, timestamp=TS)
    data = f.getvalue()
    rec.step()
    unit, prec = case["unit"], case["precision"]
    exp = want(case, unit / prec)
    has_path = any(s["t"] in ("rob", "flex") for _, els in case["cells"] for s in els)
    for mode in case.get("modes", ["same"]):
        if mode == "same":
            lib2 = gdspy.GdsLibrary("other", unit=unit, precision=prec)
            kw, fct = {}, prec / unit
        elif mode == "skip":
            lib2 = gdspy.GdsLibrary("other", unit=2e-6, precision=4e-9)
            kw, fct = dict(units="skip"), prec / unit
        elif mode == "import":
            lib2 = gdspy.GdsLibrary("other", unit=2e-6, precision=4e-9)
            kw, fct = dict(units="import"), prec / unit
        else:
            lib2 = gdspy.GdsLibrary("other", unit=case["unit2"], precision=case["prec2"])
            kw, fct = dict(units="convert"), prec / case["unit2"]
        u0, p0 = lib2.unit, lib2.precision
        r = read(data, case.get("how", "stream"), lib2, **kw)
        rec.step()
        rec.expect(r is lib2, "read_gds does not return the library")
        rec.expect(lib2.name == lib.name, lambda: "name %r" % lib2.name)
        if mode == "import":
            u0, p0 = unit, prec
        rec.expect(spec.close_real(lib2.unit, u0, 1e-14) and spec.close_real(lib2.precision, p0, 1e-14),
                   lambda: "%s: unit %r precision %r, expected %r %r" % (
                       mode, lib2.unit, lib2.precision, u0, p0))
        names = list(lib2.cells)
        if not rec.expect(names == [n for n, _ in exp],
                          lambda: "cells %r, expected %r" % (names, [n for n, _ in exp])):
            continue
        for n, x in exp:
            c = lib2.cells[n]
            rec.expect(c.name == n, lambda: "cell %r is called %r" % (n, c.name))
            # labels with and without explicit defaults denote the same
            why = mem.compare(mem.cell(c, fct), x)
            if why:
                rec.fail("%s: cell %s: %s" % (mode, n, why))
            on = [abs(v - round(v)) for e in mem.cell(c, fct) if e["kind"] != gds.AREF
                  for p in e["xy"] for v in p if abs(v) < 1e6]
            rec.expect(not on or max(on) < 1e-4, lambda: "%s: coordinates off the grid" % mode)
            for e in c.references:
                known = e.ref_cell if isinstance(e.ref_cell, str) else e.ref_cell.name
                if known in lib2.cells:
                    rec.expect(e.ref_cell is lib2.cells[known],
                               "reference to %s is not bound to the library's cell" % known)
            for e in c.paths:
                rec.expect(e.gdsii_path, "path read is not a GDSII path")
        rec.state((mode, fct, [(n, mem.cell(lib2.cells[n], fct)) for n in names]
                   if len(data) < 3000 else data[-100:]))
        # write again
        if mode in ("same", "import"):
            if mode == "import":
                lib2.unit, lib2.precision = unit, prec
            f = io.BytesIO()
            lib2.write_gds(f, timestamp=TS)
            rec.step()
            d2 = f.getvalue()
            if not rec.expect(d2 == data, lambda: "%s: second write differs: %s" % (mode, diff(data, d2))):
                continue
        elif mode == "convert" and not case.get("fine"):
            # writing with the precision of the original: the same database integers
            lib2.precision = prec
            f = io.BytesIO()
            lib2.write_gds(f, timestamp=TS)
            rec.step()
            a, b = gds.parse(data), gds.parse(f.getvalue())
            for ca, cb in zip(a["cells"], b["cells"]):
                rec.expect(len(ca["elements"]) == len(cb["elements"]), "element count")
                for ea, eb in zip(ca["elements"], cb["elements"]):
                    if ea["xy"] != eb["xy"] or ea.get("width") != eb.get("width"):
                        rec.fail("convert: %r became %r" % (ea, eb))
            rec.expect(spec.close_real(b["units"][1], prec), "precision")
            rec.expect(spec.close_real(b["units"][0] * lib2.unit, prec, 1e-14), "unit")


def diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "at byte %d of %d/%d: %r | %r" % (n, len(a), len(b), a[n - 8 : n + 16], b[n - 8 : n + 16])


def gen_elements(tier):
    for s in c02.elements(tier):
        yield dict(cells=[("C", [s])], unit=1e-6, precision=1e-9)


CONV = [(1e-6, 1e-9), (1e-3, 1e-9), (1e-9, 1e-9), (2.5e-7, 1e-9), (1, 1e-9)]


def gen_units(tier):
    m = c02.mix()
    el = [s for i, s in enumerate(m) if i != 1]
    for unit, prec in alpha.UNITS:
        for u2, p2 in CONV:
            for s in el + [None]:
                yield dict(cells=[("X", [m[3]]), ("C", el if s is None else [s])], unit=unit,
                           precision=prec, unit2=u2, prec2=p2,
                           modes=["same", "skip", "import", "convert"])


def gen_seq(tier):
    m = c02.mix()
    n = 3 if tier == "thorough" else 2
    for k in range(n + 1):
        for idx in itertools.product(range(len(m)), repeat=k):
            yield dict(cells=[("X", [m[0]]), ("C", [m[i] for i in idx]), ("EVEN", [m[3]])],
                       unit=1e-6, precision=1e-9)
            if k < 2:
                for how in ("path", "pathlib"):
                    yield dict(cells=[("C", [m[i] for i in idx]), ("X", [])], how=how,
                               unit=1e-6, precision=1e-9, lib="")


PSETS = [[], [(1, "a")], [(2, "bb"), (3, "ccc")], [(1, "x"), (2, "y"), (5, "z")]]


def gen_props(tier):
    """Elements with and without properties, one right after the other (also across the end of
    a cell): every ordered pair of kinds x every pair of property lists."""
    m = c02.mix()
    for i, j in itertools.product(range(len(m)), repeat=2):
        for p, q in itertools.product(PSETS, repeat=2):
            a, b = dict(m[i], props=p), dict(m[j], props=q)
            yield dict(cells=[("X", [m[0]]), ("C", [a, b]), ("EVEN", [m[3]])],
                       unit=1e-6, precision=1e-9)
            if tier == "thorough":
                yield dict(cells=[("X", [m[0]]), ("C", [a]), ("D", [b, a])],
                           unit=1e-6, precision=1e-9)
    if tier == "thorough":
        for idx in itertools.product(range(len(m)), repeat=3):
            for ps in ((2, 0, 1), (0, 3, 0), (3, 1, 0)):
                yield dict(cells=[("X", []), ("C", [dict(m[i], props=PSETS[k])
                                                    for i, k in zip(idx, ps)])],
                           unit=1e-6, precision=1e-9)


def gen_graph(tier):
    """Reference graphs over three cells in every stream order: forward, backward,
    missing and repeated references."""
    names = ["A", "BB", "CCC"]
    edges = [(0, 1), (0, 2), (1, 2), (0, "ZZ")]
    kinds = [None, "ref", "arr", "both"]
    for combo in itertools.product(kinds, repeat=len(edges)):
        for perm in itertools.permutations(range(3)):
            if tier != "thorough" and perm not in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
                continue
            cells = []
            for i in perm:
                els = [dict(t="label", text=names[i], pos=(i, 1))]
                for (a, b), k in zip(edges, combo):
                    if a == i and k:
                        n = b if isinstance(b, str) else names[b]
                        if k in ("ref", "both"):
                            els.append(dict(t="ref", cell=n, o=(1, i), rot=90))
                        if k in ("arr", "both"):
                            els.append(dict(t="arr", cell=n, cols=2, rows=3, sp=(2, 1),
                                            o=(1, i), xr=True))
                cells.append((names[i], els))
            yield dict(cells=cells, unit=1e-6, precision=1e-9)


def groups(tier):
    return [
        Group("elements", lambda: gen_elements(tier), run,
              "write-read-write of every element of the alphabets"),
        Group("units", lambda: gen_units(tier), run,
              "9 elements and all together x 6 file units x 5 library units x 4 read modes"),
        Group("sequences", lambda: gen_seq(tier), run,
              "all element sequences up to length %d over 10 shapes; path/Path/stream input"
              % (3 if tier == "thorough" else 2)),
        Group("properties", lambda: gen_props(tier), run,
              "every ordered pair of 10 elements x 16 pairs of property lists (0-3 properties)"),
        Group("graphs", lambda: gen_graph(tier), run,
              "all reference graphs over 3 cells and a missing one, in every stream order"),
    ]
