"""C24: GdsWriter, binary cells, truncated streams and failing files."""
import contextlib
import datetime
import io
import itertools
import os
import pathlib
import shutil
import tempfile
import warnings

from checks import c23
from mc import alpha, gds, spec
from mc.engine import Group

T1 = datetime.datetime(2020, 2, 29, 12, 34, 56)
T2 = datetime.datetime(1999, 1, 2, 3, 4, 5)
CONTENT = {
    "A": [dict(t="poly", polys=[alpha.TRI, alpha.SQ], ld=[(1, 2), (3, 4)], props=[(1, "abc")])],
    "BB": [dict(t="ref", cell="A", o=(1, 2), rot=90, mag=2, xr=True), dict(t="label", text="odd", pos=(1, 2), rot=30)],
    "CCC": [],
    "DDDD": [dict(t="flex", pts=[(0, 0), (10, 0), (10, 8)], w=0.5, ends=("ext", 0.5, 1.25), gds=True, l=3, d=4, props=[(2, "xy")]),
             dict(t="arr", cell="BB", cols=2, rows=3, sp=(4, 5), rot=45.5, mag=0.5)],
}


def library(names=CONTENT, unit=1e-6, precision=1e-9):
    import gdspy

    lib = gdspy.GdsLibrary("L", unit=unit, precision=precision)
    for n in names:
        c = lib.new_cell(n)
        for e in CONTENT[n]:
            c.add(spec.build(e))
    return lib


def written(lib, **kw):
    f = io.BytesIO()
    lib.write_gds(f, **kw)
    return f.getvalue()


def split(data):
    """{name: bytes of the structure}, [order], bytes before the first, by the strict parser."""
    out, order, start, head = {}, [], None, None
    for rt, dt, p, pos in gds.records(data, True):
        if rt == gds.BGNSTR:
            start = pos
            head = data[:pos] if head is None else head
        elif rt == gds.STRNAME and start is not None:
            name = gds.value(rt, dt, p)
        elif rt == gds.ENDSTR:
            out[name] = data[start:pos + 4]
            order.append(name)
    return out, order, data if head is None else head


# ---------------------------------------------------------------------------- writing

def run_writer(case, rec):
    """Every interleaving of cells and binary cells gives the structures in that order."""
    import gdspy

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        u, p = case["units"]
        lib = library(unit=u, precision=p)
        whole, order, head = split(written(lib, timestamp=T1))
        other = split(written(lib, timestamp=T2))[0]
        binary = gdspy.get_binary_cells(io.BytesIO(written(lib, timestamp=T2)))
        rec.expect(binary == other, lambda: "get_binary_cells gives %s" % {k: len(v) for k, v in binary.items()})
        with c23.Scratch() as s:
            target = {"str": s.f, "path": pathlib.Path(s.f), "like": c23.Like(s.f), "stream": io.BytesIO()}[case["to"]]
            w = gdspy.GdsWriter(target, name="L", unit=u, precision=p, timestamp=T1)
            exp = head
            for op in case["ops"]:
                if op[0] == "cell":
                    r = w.write_cell(lib.cells[op[1]], timestamp=T1)
                    exp += whole[op[1]]
                else:
                    bs = [binary[n] for n in op[1]]
                    r = w.write_binary_cells(iter(bs) if op[0] == "iter" else bs)
                    exp += b"".join(bs)
                rec.expect(r is w, "%s does not return the writer" % op[0])
                rec.step()
            w.close()
            exp += gds.rec(gds.ENDLIB)
            if case["to"] == "stream":
                rec.expect(not target.closed, "close() closes the stream of the user")
                got = target.getvalue()
            else:
                got = s.get()
        if not rec.expect(got == exp, lambda: "%s: %d bytes written, expected %d, first difference at %s" % (
                case["ops"], len(got), len(exp), next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), None))):
            return
        names = [n for op in case["ops"] for n in ([op[1]] if op[0] == "cell" else op[1])]
        if len(set(names)) == len(names):
            # the same library in one go, and read back
            cells = [op[1] for op in case["ops"] if op[0] == "cell"]
            bins = [n for op in case["ops"] if op[0] != "cell" for n in op[1]]
            one = written(lib, cells=(x for x in cells), timestamp=T1, binary_cells=(binary[n] for n in bins))
            rec.expect(one == head + b"".join([whole[n] for n in cells] + [other[n] for n in bins]) + gds.rec(gds.ENDLIB),
                       "write_gds with binary_cells")
            a, b = gds.parse(one), gds.parse(got)
            key = lambda d: sorted((c["name"], str(c["elements"])) for c in d["cells"])
            rec.expect(key(a) == key(b), "write_gds and GdsWriter differ")
            back = gdspy.GdsLibrary(infile=io.BytesIO(got), unit=u, precision=p)
            rec.expect(set(back.cells) == set(names), "cells read back")
            miss = {r.ref_cell for c in back.cells.values() for r in c.references if not hasattr(r.ref_cell, "name")}
            rec.expect(all(m not in back.cells for m in miss), "reference left unresolved")
            again = split(written(back, timestamp=T1))[0]
            rec.expect(all(again[n] == whole[n] for n in names), "cells written again differ")
    rec.state(got)


def gen_writer(tier):
    ops = [("cell", n) for n in CONTENT] + [("list", ["A", "BB"]), ("iter", ["DDDD"]), ("list", ["CCC", "A", "DDDD"]), ("list", [])]
    k = 4 if tier == "thorough" else 3
    tos = ["str", "path", "like", "stream"]
    i = 0
    for n in range(k + 1):
        for t in itertools.product(ops, repeat=n):
            i += 1
            for to in tos if n <= 1 else [tos[i % 4]]:
                for u in ((1e-6, 1e-9), (1e-3, 1e-6), (1e-6, 5e-9), (1e-9, 1e-9), (1e-9, 1e-12), (1e-3, 1e-9), (1e-6, 1e-6), (1, 1e-3), (1e-9, 1e-8)) if n <= 1 else ((1e-6, 1e-9),):
                    yield dict(ops=list(t), to=to, units=u)


def run_binary(case, rec):
    """Exactly the bytes of every structure, whatever else is in the stream."""
    import gdspy

    cs = [c23.cell(i, c23.D[d], sc) for i, d, sc in case["cells"]]
    data = gds.enc_lib(case["name"], [1e-3, 1e-9], cs, c23.EXTRA if case["extra"] else b"") + b"\0" * case["pad"]
    exp = {c23.CELLS[i][0]: c for (i, d, sc), c in zip(case["cells"], cs)}
    with c23.Scratch() as s:
        s.put(data)
        for form in ("str", "path", "like", "file", "bytes"):
            f = {"str": s.f, "path": pathlib.Path(s.f), "like": c23.Like(s.f)}.get(form)
            f = io.BytesIO(data) if form == "bytes" else open(s.f, "rb") if f is None else f
            got = gdspy.get_binary_cells(f)
            rec.step()
            if not rec.expect(got == exp and list(got) == [c23.CELLS[i][0] for i, _, _ in case["cells"]],
                              lambda: "%s: cells %s, expected %s" % (form, {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in exp.items()})):
                return
            if form in ("file", "bytes"):
                rec.expect(not f.closed, "the stream of the user is closed")
                f.close()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            lib = gdspy.GdsLibrary("new", unit=1e-6, precision=1e-9)
            out = written(lib, timestamp=T1, binary_cells=got.values())
            rec.expect(split(out)[0] == exp, "binary cells written to another library")
    rec.state(data)


def gen_binary(tier):
    for t in c23.collections(4 if tier == "thorough" else 3):
        for pad in (0, 2, 50):
            for d in (0, 3):
                for sc in (None, 0x0502):
                    yield dict(cells=[(i, d, sc) for i in t], name="n" * (d % 2), extra=pad == 2, pad=pad)


# ---------------------------------------------------------------------------- truncation

EL = {
    "poly": [c23.BOX], "text": [c23.TXT, dict(c23.TXT, strans=0x8000, mag=1.5, angle=45.0, string="longer text", props=[])],
    "path": [c23.PTH, dict(c23.PTH, props=[(1, "ab"), (2, "cde")])], "refs": [c23.REF, c23.AR], "empty": [], "unsup": [
        dict(kind=gds.NODE, layer=1, type=2, xy=[(0, 0), (3, 3)]), dict(kind=gds.BOX, layer=1, type=2, xy=[(0, 0), (3, 0), (3, 3), (0, 3), (0, 0)])],
    "multi": [dict(c23.BOX, xychunk=4, props=[(5, "five")]), dict(c23.PTH, xychunk=2)],
}


def summary(lib):
    """Everything in the cells of a library."""
    out = {}
    for n, c in lib.cells.items():
        e = []
        for p in c.polygons:
            e.append(("poly", [q.tolist() for q in p.polygons], p.layers, p.datatypes, sorted(p.properties.items())))
        for p in c.paths:
            e.append(("path", p.points.tolist(), p.widths.tolist(), p.layers, p.datatypes, str(p.ends), sorted(p.properties.items())))
        for p in c.labels:
            e.append(("label", p.text, list(p.position), p.anchor, p.rotation, p.magnification, p.x_reflection, p.layer, p.texttype, sorted(p.properties.items())))
        for p in c.references:
            ref = p.ref_cell if isinstance(p.ref_cell, str) else p.ref_cell.name
            e.append(("ref", type(p).__name__, ref, list(p.origin), p.rotation, p.magnification, p.x_reflection,
                      getattr(p, "columns", None), getattr(p, "rows", None), str(getattr(p, "spacing", None)), sorted(p.properties.items())))
        out[n] = sorted(map(str, e))
    return out


def marks(data):
    """End offsets of every complete element, with the cell it belongs to, and the end of the names of cells."""
    ends, names, cell = [], {}, None
    for rt, dt, p, pos in gds.records(data, True):
        if rt == gds.STRNAME:
            cell = gds.value(rt, dt, p)
            names[cell] = pos + 4 + len(p)
        elif rt == gds.ENDEL:
            ends.append((pos + 4, cell))
    return ends, names


def run_cut(case, rec):
    """Reading what is left after any cut: an exception or exactly the complete elements."""
    import gdspy

    cells = [gds.enc_cell(n, EL[e]) for n, e in case["cells"]]
    data = gds.enc_lib("lib", [1e-3, 1e-9], cells)
    ends, names = marks(data)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        memo = {}

        def complete(k):
            """Summary of the first k elements, read from a stream that ends well."""
            if k not in memo:
                left, part = k, []
                for n, e in case["cells"]:
                    part.append(gds.enc_cell(n, EL[e][:left]))
                    left -= min(left, len(EL[e]))
                memo[k] = summary(gdspy.GdsLibrary(infile=io.BytesIO(gds.enc_lib("lib", [1e-3, 1e-9], part))))
            return memo[k]

        for cut in range(len(data)):
            for close in (False, True) if case["pads"] else (False,):
                d = data[:cut]
                lib = gdspy.GdsLibrary("before")
                try:
                    lib.read_gds(io.BytesIO(d))
                except Exception:
                    lib = None
                rec.step()
                if lib is not None:
                    got, want = summary(lib), complete(sum(e <= cut for e, _ in ends))
                    have = {n for n, e in names.items() if e <= cut}
                    ok = set(got) <= have and all(v == want[n] for n, v in got.items()) and all(n in got for n in have if want[n])
                    if not rec.expect(ok, lambda: "cut at byte %d of %d: read %s, complete are %s of %s" % (
                            cut, len(data), got, want, sorted(have))):
                        return
                    rec.expect(lib.name in ("before", "lib"), lambda: "cut at byte %d: library called %r" % (cut, lib.name))
                try:
                    b = gdspy.get_binary_cells(io.BytesIO(d))
                except Exception:
                    b = {}
                full = {n: x for (n, _), x in zip(case["cells"], cells)}
                if not rec.expect(all(full.get(n) == x for n, x in b.items()), lambda: "cut at byte %d: get_binary_cells gives %s" % (
                        cut, {k: len(v) for k, v in b.items()})):
                    return
                try:
                    u = gdspy.get_gds_units(io.BytesIO(d))
                except Exception:
                    u = None
                rec.expect(u is None or u == (None, None) or abs(u[0] / 1e-6 - 1) < 1e-14 and abs(u[1] / 1e-9 - 1) < 1e-14,
                           lambda: "cut at byte %d: units %s" % (cut, u))
                rec.state((case["cells"], cut, lib is None))


def gen_cut(tier):
    for e in EL:
        for n in ("A", "odd", "even"):
            yield dict(cells=[(n, e)], pads=False)
    for a, b in itertools.product(EL, repeat=2):
        yield dict(cells=[("A", a), ("BB", b)], pads=False)
    if tier == "thorough":
        for t in itertools.product(EL, repeat=3):
            yield dict(cells=list(zip(("A", "BB", "CCC"), t)), pads=False)


# ---------------------------------------------------------------------------- failing output

class Full(Exception):
    pass


class Disk(io.BytesIO):
    """Takes `room` bytes, the last write partially."""

    def __init__(self, room):
        super().__init__()
        self.room = room

    def write(self, b):
        n = min(len(b), self.room - self.tell())
        super().write(bytes(b)[:n])
        if n < len(b):
            raise Full()
        return n


def run_full(case, rec):
    """A file that fills up after any number of bytes: the error reaches the user and the library is intact."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import gdspy

        lib = library(case["names"])
        whole = written(lib, timestamp=T1)
        binary = list(split(whole)[0].values())
        for room in range(0, len(whole), case["step"]):
            for way in ("write_gds", "writer", "binary"):
                f = Disk(room)
                try:
                    if way == "write_gds":
                        lib.write_gds(f, timestamp=T1)
                    else:
                        w = gdspy.GdsWriter(f, name="L", timestamp=T1)
                        for c in lib.cells.values() if way == "writer" else ():
                            w.write_cell(c, T1)
                        if way == "binary":
                            w.write_binary_cells(binary)
                        w.close()
                    rec.fail("%s does not notice that only %d bytes are written" % (way, room))
                except Full:
                    pass
                rec.step()
                rec.expect(f.getvalue() == whole[:room] and not f.closed, lambda: "%s: %d bytes are not the start of the stream" % (way, room))
        rec.expect(written(lib, timestamp=T1) == whole, "the library has changed after failed writes")
        rec.state((case["names"], len(whole)))


# ---------------------------------------------------------------------------- names
def gen_names(tier):
    for c in map(chr, range(0x20, 0x7F)):
        yield dict(name=[c, "A" + c, c + "A", c + "AA", "AB" + c, c + "A" + c, "A" + c + c])
    for n in range(1, 140 if tier == "thorough" else 70):
        yield dict(name=["N" * n])
    for a, b in itertools.product("A$?_ 0.", repeat=2) if tier == "thorough" else ():
        yield dict(name=[a + b, a + b + " ", "A" + a + b])


def run_names(case, rec):
    import gdspy

    for name in case["name"]:
        lib = gdspy.GdsLibrary("L")
        lib.new_cell(name).add(gdspy.Rectangle((0, 0), (1, 2)))
        lib.new_cell("other " + name).add(gdspy.CellReference(name, (1, 2), ignore_missing=True))
        data = written(lib, timestamp=T1)
        parts, order, head = split(data)
        if not rec.expect(order == [name, "other " + name], lambda: "%r is written as %r" % (name, order)):
            continue
        bc = gdspy.get_binary_cells(io.BytesIO(data))
        rec.expect(bc == parts, lambda: "binary cells of %r and 'other %s': %r" % (name, name, list(bc)))
        f = io.BytesIO()
        w = gdspy.GdsWriter(f, "L", timestamp=T1)
        w.write_binary_cells([bc[n] for n in order if n in bc])
        w.close()
        rec.expect(f.getvalue() == data, lambda: "binary cells of %r written again differ" % name)
        back = gdspy.GdsLibrary().read_gds(io.BytesIO(data))
        rec.expect(list(back.cells) == order, lambda: "%r read as %r" % (order, list(back.cells)))
        ref = back.cells[order[1]].references[0] if order[1] in back.cells else None
        rec.expect(ref is not None and ref.ref_cell is back.cells.get(name),
                   lambda: "the reference to %r is not bound" % name)
        rec.step(5)
        rec.state(name)


def groups(tier):
    deep = tier == "thorough"
    subsets = [list(t) for k in range(len(CONTENT) + 1) for t in itertools.combinations(CONTENT, k)]
    return [
        Group("writer", lambda: gen_writer(tier), run_writer,
              "all sequences of up to %d of 8 write_cell and write_binary_cells operations, 4 kinds of files, 3 units" % (4 if deep else 3)),
        Group("binary", lambda: gen_binary(tier), run_binary, "all collections of up to %d of 5 encoded cells x dates x padding x STRCLASS" % (4 if deep else 3)),
        Group("names", lambda: gen_names(tier), run_names,
              "names with each of the 95 printable characters at every place, names of all lengths up to %d" % (139 if deep else 69)),
        Group("truncation", lambda: gen_cut(tier), run_cut,
              "every cut of every library of up to %d cells with 7 contents" % (3 if deep else 2)),
        Group("full", lambda: (dict(names=s, step=1) for s in subsets), run_full,
              "output that fails after every number of bytes, all subsets of 4 cells, 3 ways of writing"),
    ]
