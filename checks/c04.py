"""C04: read_gds on streams produced by the independent encoder."""
import io
import itertools
from fractions import Fraction

from mc import gds, mem
from mc.engine import Group

U = [Fraction(1, 1000), Fraction(1, 10**9)]
F = 1e-3


def expect(e, opt=None):
    """The element denoted by stream element e (None: not a layout element)."""
    opt = opt or {}
    k = e["kind"]
    if k == gds.NODE:
        return None
    x = dict(kind=k, xy=list(e["xy"]), props=sorted(dict(e.get("props", ())).items()))
    if k in (gds.SREF, gds.AREF, gds.TEXT):
        st = e.get("strans")
        x["tr"] = dict(refl=bool((st or 0) & 0x8000),
                       mag=e.get("mag") if st is not None else None,
                       angle=e.get("angle") if st is not None else None)
    if k in (gds.SREF, gds.AREF):
        x["sname"] = rename(e["sname"], opt)
    else:
        x["layer"] = opt.get("layers", {}).get(e["layer"], e["layer"])
        m = opt.get("texttypes" if k == gds.TEXT else "datatypes", {})
        x["type"] = m.get(e["type"], e["type"])
    if k == gds.AREF:
        x["colrow"] = e["colrow"]
    if k == gds.BOX:
        x["kind"] = gds.BOUNDARY
    if k == gds.TEXT:
        x["string"] = e["string"]
        x["presentation"] = e["presentation"] & 0xF
    if k == gds.PATH:
        x["pathtype"] = e.get("pathtype") or 0
        x["width"] = e.get("width") or 0
        x["bgnextn"], x["endextn"] = e.get("bgnextn"), e.get("endextn")
    return x


def rename(n, opt):
    r = opt.get("rename", {})
    if n in r:
        return r[n]
    return opt.get("rename_template", "{name}").replace("{name}", n)


TRI = [(0, 0), (3000, 0), (1000, 2000), (0, 0)]
SQ = [(-1, -2), (2, -2), (2, 1), (-1, 1), (-1, -2)]
PTS = [(0, 0), (10000, 0), (10000, 8000), (-4000, 8001)]
PROPS = [(), ((1, "a"),), ((5, "val"), (2, "")), ((126, "x" * 126), (127, "odd"), (1, "ab"))]


def opts(e):
    """Every combination of ELFLAGS, PLEX and properties."""
    for fl, px, pr in itertools.product((None, 0, 2), (None, 1), PROPS):
        yield dict(e, elflags=fl, plex=px, props=pr)


def boundaries():
    for l, t in ((0, 0), (1, 2), (255, 255), (-1, -32768), (32767, 1)):
        for xy in (TRI, SQ, [(2147483647, -2147483648), (0, 0), (5, 7), (2147483647, -2147483648)]):
            yield dict(kind=gds.BOUNDARY, layer=l, type=t, xy=xy)
    yield from opts(dict(kind=gds.BOUNDARY, layer=3, type=4, xy=TRI))
    big = [(i, (i * i) % 97) for i in range(50)] + [(0, 0)]
    for ch in (2, 4, 10, 34, 102):
        yield dict(kind=gds.BOUNDARY, layer=3, type=4, xy=big, xychunk=ch)
    big = [(i, (i * i) % 997) for i in range(20000)] + [(0, 0)]
    for ch in (16382, 16380, 8000):
        yield dict(kind=gds.BOUNDARY, layer=3, type=4, xy=big, xychunk=ch, props=PROPS[1])


def boxes():
    for l, t in ((0, 0), (7, 9)):
        yield from opts(dict(kind=gds.BOX, layer=l, type=t, xy=SQ))


def nodes():
    yield from opts(dict(kind=gds.NODE, layer=7, type=9, xy=PTS))
    yield dict(kind=gds.NODE, layer=7, type=9, xy=PTS[:1])


def paths():
    for pt in (None, 0, 1, 2):
        for w in (None, 0, 500, -500, 3):
            for xy in (PTS, PTS[:2]):
                yield dict(kind=gds.PATH, layer=2, type=3, pathtype=pt, width=w, xy=xy)
    for w in (None, 500, -500):
        for b, e in itertools.product((None, 0, 250, -100), repeat=2):
            if b is None and e is None:
                continue
            yield dict(kind=gds.PATH, layer=2, type=3, pathtype=4, width=w, bgnextn=b,
                       endextn=e, xy=PTS)
    yield from opts(dict(kind=gds.PATH, layer=2, type=3, pathtype=1, width=100, xy=PTS))
    for ch in (2, 4, 6):
        yield dict(kind=gds.PATH, layer=2, type=3, pathtype=1, width=100, xy=PTS, xychunk=ch)


def straps():
    yield {}
    for st in (0, 0x8000, 0x0006, 0x8002, 0x8004):
        for m in (None, 1, 2, Fraction(1, 2), Fraction(15, 10)):
            for a in (None, 0, 90, 180, 270, 30, Fraction(455, 10), -90, 360):
                yield dict(strans=st, mag=m, angle=a)


def texts():
    for h, v, f in itertools.product((0, 1, 2), (0, 4, 8), (0, 0x10, 0x20, 0x30)):
        yield dict(kind=gds.TEXT, layer=1, type=2, presentation=h | v | f, xy=[(5, -7)],
                   string="abc")
    for s in straps():
        yield dict(kind=gds.TEXT, layer=1, type=2, presentation=5, xy=[(5, -7)], string="ab", **s)
    for s in ("", "x", "xy", " a ", "x" * 512, "A" * 511):
        for pt, w in itertools.product((None, 0, 1, 2), (None, 0, 100, -100)):
            yield dict(kind=gds.TEXT, layer=1, type=2, presentation=0, xy=[(0, 0)], string=s,
                       pathtype=pt, width=w)
    yield from opts(dict(kind=gds.TEXT, layer=1, type=2, presentation=10, xy=[(5, -7)], string="q"))


def refs():
    for n in ("C", "X", "MISSING"):
        for s in straps():
            yield dict(kind=gds.SREF, sname=n, xy=[(5, -7000)], **s)
    yield from opts(dict(kind=gds.SREF, sname="X", xy=[(5, -7000)]))


def arr(cols, rows, sp, o, strans=None, mag=None, angle=None, **kw):
    import math

    r = math.radians(float(angle or 0)) if strans is not None else 0
    f = -1 if (strans or 0) & 0x8000 else 1
    a, b = cols * sp[0], rows * sp[1] * f
    p2 = (o[0] + round(a * math.cos(r)), o[1] + round(a * math.sin(r)))
    p3 = (o[0] - round(b * math.sin(r)), o[1] + round(b * math.cos(r)))
    return dict(kind=gds.AREF, colrow=(cols, rows), xy=[o, p2, p3], strans=strans, mag=mag,
                angle=angle, **kw)


def arrs():
    for s in straps():
        for c, r, sp in ((3, 2, (4000, 5000)), (1, 1, (7, 9)), (2, 5, (-4000, 300))):
            yield arr(c, r, sp, (5, -7000), sname="X", **s)
    yield from opts(arr(3, 2, (4000, 5000), (1, 2), sname="MISSING"))
    yield arr(32767, 1, (10, 10), (1, 2), sname="X")


def elements():
    return itertools.chain(boundaries(), boxes(), nodes(), paths(), texts(), refs(), arrs())


def check(rec, data, cells, opt, kw=None, lib=None, F=F):
    import gdspy

    lib = lib or gdspy.GdsLibrary("other")
    lib.read_gds(io.BytesIO(data), **opt)
    rec.step()
    names = list(lib.cells)
    want = [rename(n, opt) for n, _ in cells]
    if not rec.expect(names == want, lambda: "cells %r, expected %r" % (names, want)):
        return
    for (n, els) in cells:
        n = rename(n, opt)
        c = lib.cells[n]
        rec.expect(c.name == n, "name of the cell object")
        got = mem.cell(c, F)
        exp = [x for x in (expect(e, opt) for e in els) if x is not None]
        why = mem.compare(got, exp, slack=1e-3 if not any(
            x["kind"] == gds.AREF for x in exp) else 1.0)
        if why:
            rec.fail("cell %s: %s" % (n, why))
        for r in c.references:
            m = mem.refname(r)
            if m in lib.cells:
                rec.expect(r.ref_cell is lib.cells[m], lambda: "%s is not bound to its cell" % m)
            else:
                rec.expect(isinstance(r.ref_cell, str), "missing reference is not a name")
        rec.state((n, [sorted(g.items(), key=str) for g in got] if len(data) < 4000 else len(data)))
    return lib


def run(case, rec):
    cells = [(n, [fix(e) for e in els]) for n, els in case["cells"]]
    data = gds.enc_lib(case.get("name", "LIB"), U,
                       [gds.enc_cell(n, els, strclass=case.get("strclass")) for n, els in cells],
                       extra=extra(case.get("extra", 0)))
    data += bytes(case.get("pad", 0))
    opt = dict(case.get("opt", {}))
    for k in ("layers", "datatypes", "texttypes"):
        if k in opt:
            opt[k] = {int(a): b for a, b in opt[k]}
    lib = check(rec, data, cells, opt)
    if lib is not None:
        rec.expect(lib.name == case.get("name", "LIB"), "library name")


def fix(e):
    """From JSON lists and strings back to what the encoder needs."""
    e = dict(e)
    e["xy"] = [tuple(p) for p in e["xy"]]
    for k in ("mag", "angle"):
        if e.get(k) is not None:
            e[k] = Fraction(e[k])
    if "colrow" in e:
        e["colrow"] = tuple(e["colrow"])
    e["props"] = [tuple(p) for p in e.get("props", ())]
    return e


def js(e):
    e = dict(e)
    for k in ("mag", "angle"):
        if isinstance(e.get(k), Fraction):
            e[k] = str(e[k])
    return e


def extra(i):
    out = [b"", gds.rec(gds.REFLIBS, "a" * 44 + "b" * 44), gds.rec(gds.FONTS, "f" * 176),
           gds.rec(gds.ATTRTABLE, "t" * 44), gds.rec(gds.GENERATIONS, [3]),
           gds.rec(gds.FORMAT, [0])]
    if i == 6:
        return b"".join(out)
    return out[i]


def gen_elements(tier):
    for e in elements():
        yield dict(cells=[("C", [js(e)]), ("X", [])])


def shapes():
    """One element with every optional record set, and one with none, of every kind."""
    return [
        dict(kind=gds.BOUNDARY, layer=1, type=2, xy=TRI),
        dict(kind=gds.BOUNDARY, layer=3, type=4, xy=SQ, elflags=1, plex=2, props=PROPS[2]),
        dict(kind=gds.BOUNDARY, layer=3, type=4, xy=TRI, xychunk=4),
        dict(kind=gds.BOX, layer=5, type=6, xy=SQ, props=PROPS[1]),
        dict(kind=gds.NODE, layer=7, type=8, xy=PTS, props=PROPS[2]),
        dict(kind=gds.NODE, layer=7, type=8, xy=PTS),
        dict(kind=gds.PATH, layer=9, type=1, xy=PTS),
        dict(kind=gds.PATH, layer=9, type=1, pathtype=1, width=-300, xy=PTS, props=PROPS[1]),
        dict(kind=gds.PATH, layer=9, type=1, pathtype=4, width=300, bgnextn=50, endextn=70, xy=PTS[:3]),
        dict(kind=gds.TEXT, layer=10, type=11, presentation=8, xy=[(1, 2)], string="a"),
        dict(kind=gds.TEXT, layer=10, type=11, presentation=2, pathtype=1, width=7, strans=0x8000,
             mag="2", angle="30", xy=[(1, 2)], string="long text", props=PROPS[2]),
        dict(kind=gds.SREF, sname="X", xy=[(1, 2)]),
        dict(kind=gds.SREF, sname="NONE", strans=0x8000, mag="3", angle="90", xy=[(1, 2)],
             props=PROPS[1]),
        arr(2, 3, (50, 70), (1, 2), sname="X"),
        arr(2, 3, (50, 70), (1, 2), 0x8000, "2", "90", sname="C", props=PROPS[2]),
    ]


def gen_seq(tier):
    sh = shapes()
    n = 4 if tier == "thorough" else 3
    for k in range(0, n + 1):
        for idx in itertools.product(range(len(sh)), repeat=k):
            if k == 4 and (idx[0] > idx[3]):
                continue
            yield dict(cells=[("C", [sh[i] for i in idx]), ("X", [sh[0]])])


def gen_lib(tier):
    sh = shapes()
    for ex in range(7):
        for pad in (0, 2, 4, 6, 2048):
            for sc in (None, 0, 0x8001):
                for name in ("", "L", "LI", "x" * 44):
                    yield dict(cells=[("C", [sh[10]]), ("X", [sh[11]])], extra=ex, pad=pad,
                               strclass=sc, name=name)


def gen_opts(tier):
    """All combinations of the read options."""
    sh = [s for s in shapes() if s["kind"] != gds.BOX]
    cells = [("A", sh), ("X", [dict(kind=gds.SREF, sname="A", xy=[(0, 0)])]), ("C", sh[:3]),
             ("AX", [dict(kind=gds.SREF, sname=n, xy=[(0, 0)]) for n in ("A", "X", "C", "AX2", "Q", "Q", "A", "A", "C", "C", "A", "X", "X")])]
    ren = [{}, {"A": "B"}, {"A": "X2", "X": "A"}, {"A": "X", "X": "A"}, {"NONE": "C2", "Q": "QQ"},
           {"C": "CC", "A": "a", "X": "x", "AX": "ax"}]
    tem = ["{name}", "P_{name}", "{name}_S", "P{name}S{name}"]
    lay = [[], [(1, 5)], [(1, 3), (3, 1)], [(9, 0), (10, 0), (7, 1)], [(2, 77), (11, 78)]]
    dat = [[], [(2, 7)], [(2, 4), (4, 2), (1, 9)], [(11, 5)]]
    txt = [[], [(11, 1)], [(11, 2), (2, 11)], [(1, 3)]]
    for r, t in itertools.product(ren, tem):
        for l, d, x in itertools.product(lay, dat, txt):
            if tier != "thorough" and sum(map(bool, (l, d, x))) > 1 and r:
                continue
            yield dict(cells=cells, opt=dict(rename=r, rename_template=t, layers=l, datatypes=d,
                                             texttypes=x))


def run_twice(case, rec):
    """Two files into one library: the second sees the cells of the first; a name that
    exists is refused."""
    import gdspy

    lib = gdspy.GdsLibrary("L")
    first = gds.enc_lib("ONE", U, [gds.enc_cell(n, [fix(e) for e in els]) for n, els in case["a"]])
    second = gds.enc_lib("TWO", U, [gds.enc_cell(n, [fix(e) for e in els]) for n, els in case["b"]])
    lib.read_gds(io.BytesIO(first))
    objs = dict(lib.cells)
    clash = set(n for n, _ in case["a"]) & set(n for n, _ in case["b"])
    rec.step(2)
    try:
        lib.read_gds(io.BytesIO(second))
    except ValueError:
        rec.expect(clash, "reading the second file was refused")
        rec.expect(all(lib.cells.get(k) is v for k, v in objs.items()), "first cells replaced")
        return
    rec.expect(not clash, "a duplicated cell name was accepted")
    rec.expect(set(lib.cells) == set(objs) | {n for n, _ in case["b"]}, "names")
    for n, els in case["a"] + case["b"]:
        why = mem.compare(mem.cell(lib.cells[n], F), [expect(fix(e)) for e in els])
        rec.expect(why is None, lambda: "cell %s: %s" % (n, why))
    for n, els in case["b"]:
        for r in lib.cells[n].references:
            m = mem.refname(r)
            rec.expect((r.ref_cell is lib.cells[m]) if m in lib.cells else r.ref_cell == m,
                       lambda: "binding of %s" % m)
    rec.state((sorted(lib.cells), case["b"]))


def run_units(case, rec):
    import gdspy

    user, dbu = case["file"]
    lu, lp = case["lib"]
    cells = [("C", [fix(e) for e in case["els"]]), ("X", [])]
    data = gds.enc_lib("LIB", (user, dbu), [gds.enc_cell(n, els) for n, els in cells])
    mode = case["mode"]
    lib = gdspy.GdsLibrary("other", unit=lu, precision=lp)
    factor = user if mode in ("skip", "import") else dbu / lu
    check(rec, data, cells, dict(units=mode), lib=lib, F=factor)
    want = (dbu / user, dbu) if mode == "import" else (lu, lp)
    rec.expect(abs(lib.unit / want[0] - 1) < 1e-12 and abs(lib.precision / want[1] - 1) < 1e-12,
               lambda: "library unit %r precision %r, expected %r" % (lib.unit, lib.precision, want))


def gen_units(tier):
    files = [(1e-3, 1e-9), (1e-2, 1e-9), (1.0, 1e-9), (1e-3, 1e-6), (5e-3, 5e-9), (2.54e-5, 1e-9)]
    libs = [(1e-6, 1e-9), (1e-3, 1e-9), (1e-6, 1e-12), (1e-9, 1e-12), (2.54e-5, 1e-8)]
    for f, l, m in itertools.product(files, libs, ("skip", "import", "convert")):
        for e in shapes():
            yield dict(file=f, lib=l, mode=m, els=[e])
        yield dict(file=f, lib=l, mode=m, els=shapes())


def gen_twice(tier):
    names = ["A", "B", "C"]
    R = lambda n: dict(kind=gds.SREF, sname=n, xy=[(1, 1)])
    for k in range(1, 3):
        for a in itertools.permutations(names, k):
            for b in itertools.permutations(names, 1):
                for ra in names + ["Z"]:
                    for rb in names + ["Z"]:
                        yield dict(a=[(n, [R(ra)]) for n in a], b=[(n, [R(rb)]) for n in b])


def groups(tier):
    return [
        Group("elements", lambda: gen_elements(tier), run,
              "every element kind x optional records x value alphabets"),
        Group("sequences", lambda: gen_seq(tier), run,
              "all sequences up to length %d over 15 element shapes" % (4 if tier == "thorough" else 3)),
        Group("library-records", lambda: gen_lib(tier), run,
              "optional library records x padding x STRCLASS x names"),
        Group("options", lambda: gen_opts(tier), run,
              "6 rename x 4 templates x 5 layer x 4 datatype x 4 texttype maps"),
        Group("units", lambda: gen_units(tier), run_units,
              "6 file units x 5 library units x 3 modes x every element shape"),
        Group("two-files", lambda: gen_twice(tier), run_twice,
              "two files read into one library, with clashes and cross references"),
    ]
