"""C23: gdsii_hash, set_gdsii_timestamp and get_gds_units."""
import datetime
import hashlib
import io
import itertools
import os
import pathlib
import shutil
import struct
import tempfile
import warnings

from mc import gds
from mc.engine import Group

# payloads that look like the headers of timestamp and structure records
LIB, STR, END = 0x001C0102, 0x001C0502, 0x00040700
D = [[2001, 2, 3, 4, 5, 6, 2001, 2, 3, 4, 5, 6], [1999, 12, 31, 23, 59, 59, 2024, 2, 29, 0, 0, 0], [0] * 12,
     [0x1C, 0x0502] * 6]
BOX = dict(kind=gds.BOUNDARY, layer=1, type=2, xy=[(0, 0), (STR, 0), (LIB, END), (0, 0)])
TXT = dict(kind=gds.TEXT, layer=0x1C, type=0x0502, presentation=5, xy=[(LIB, STR)], string="t", props=[(4, "abc")])
PTH = dict(kind=gds.PATH, layer=3, type=4, pathtype=4, width=STR, bgnextn=END, endextn=LIB, xy=[(0, 0), (5, 0), (5, 9)])
REF = dict(kind=gds.SREF, sname="B", xy=[(7, 8)], strans=0x8000, mag=2.0, angle=90.0)
AR = dict(kind=gds.AREF, sname="CCC", colrow=(0x1C, 0x0102), xy=[(0, 0), (28, 0), (0, 10)])
CELLS = [("A", [BOX]), ("B", [TXT, BOX]), ("CCC", []), ("DD", [REF, AR]), ("A", [PTH])]
UNITS = [(1e-3, 1e-9), (1e-3, 1e-12), (1.0, 1e-6), (0.25, 0.5), (5e-4, 1.27e-8)]
PADS = [0, 2, 4, 6, 100]
DATES = [datetime.datetime(2031, 7, 8, 9, 10, 11), datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59, 999999)]


def cell(i, date=D[0], strclass=None):
    n, e = CELLS[i]
    return gds.enc_cell(n, e, date=date, strclass=strclass)


def stream(ids, dates=(0,), unit=0, pad=0, name="LIB", extra=b"", libdate=0):
    cs = [cell(i, D[dates[k % len(dates)]]) for k, i in enumerate(ids)]
    return gds.enc_lib(name, list(UNITS[unit]), cs, extra, D[libdate]) + b"\0" * pad


EXTRA = gds.rec(gds.REFLIBS, "r1") + gds.rec(gds.FONTS, "fff") + gds.rec(gds.GENERATIONS, [3]) if hasattr(gds, "GENERATIONS") else b""


class Like:
    """Something with a path that is neither a string nor a Path."""

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c23")
        self.f = os.path.join(self.d, "x.gds")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def put(self, data):
        with open(self.f, "wb") as o:
            o.write(data)

    def get(self):
        with open(self.f, "rb") as i:
            return i.read()


def ghash(s, data, engine=None, form=0):
    import gdspy

    s.put(data)
    f = (s.f, pathlib.Path(s.f), Like(s.f))[form]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return gdspy.gdsii_hash(f, engine) if engine is not None else gdspy.gdsii_hash(f)


def run_hash(case, rec):
    """Files with the same cells have the same hash whatever else is in them."""
    ids = case["ids"]
    with Scratch() as s:
        base = ghash(s, stream(ids))
        rec.state((tuple(sorted(ids)), base))
        n = 0
        variants = [dict(dates=d, libdate=l) for d in itertools.product(range(len(D)), repeat=max(1, len(ids))) for l in range(2)]
        variants += [dict(pad=p, dates=(k,)) for p in PADS for k in (0, 1)] + [dict(pad=-len(stream(ids)) % 2048)]
        variants += [dict(unit=u) for u in range(len(UNITS))] + [dict(name=n) for n in ("", "other", "x" * 43)] + [dict(extra=EXTRA)]
        for v in variants:
            h = ghash(s, stream(ids, **v), form=n % 3)
            n += 1
            rec.step()
            if not rec.expect(h == base, lambda: "hash of %s changes with %s" % (ids, v)):
                return
        for p in itertools.permutations(ids):
            rec.step()
            if not rec.expect(ghash(s, stream(p, dates=(1, 0))) == base, lambda: "hash of %s changes with the order %s" % (ids, p)):
                return
        for name in ("sha1", "md5", "sha256"):
            h = ghash(s, stream(ids), hashlib.new(name))
            m = ghash(s, stream(ids[::-1], dates=(2,)), hashlib.new(name))
            rec.expect(h == m and len(h) == 2 * hashlib.new(name).digest_size and (name != "sha1" or h == base), "engine %s" % name)
        # all other collections of cells
        for k in range(0, 4):
            for other in itertools.combinations(range(len(CELLS)), k):
                if sorted(other) != sorted(ids):
                    rec.step()
                    if not rec.expect(ghash(s, stream(other)) != base, lambda: "%s and %s have the same hash" % (ids, other)):
                        return


def fields(data):
    """(offset, record type, is payload of the cell contents, is timestamp) of every payload byte."""
    out = []
    inside = False
    for rt, dt, p, pos in gds.records(data):
        if rt == gds.BGNSTR:
            inside = True
        out += [(pos + 4 + i, rt, inside and rt != gds.BGNSTR, rt in (gds.BGNLIB, gds.BGNSTR)) for i in range(len(p))]
        if rt == gds.ENDSTR:
            inside = False
    return out


def run_bytes(case, rec):
    """Every single byte of the contents counts, no byte of the rest does."""
    ids = case["ids"]
    data = stream(ids)
    with Scratch() as s:
        base = ghash(s, data)
        for off, rt, content, stamp in fields(data):
            for x in case["xor"]:
                d = bytearray(data)
                d[off] ^= x
                h = ghash(s, bytes(d))
                rec.step()
                if not rec.expect((h != base) == content, lambda: "byte %d of record %02x changed by %02x: hash %s" % (
                        off, rt, x, "unchanged" if content else "changed")):
                    return
        # elements removed, repeated and swapped
        name, els = CELLS[ids[0]]
        for e in [els[:-1], els + els[-1:], els[::-1]] if els else [[BOX]]:
            c = gds.enc_cell(name, e, date=D[1])
            h = ghash(s, gds.enc_lib("LIB", list(UNITS[0]), [c] + [cell(i) for i in ids[1:]]))
            rec.expect((h == base) == (e == els), "other elements in the first cell")
        c = [cell(i) for i in ids]
        rec.expect(ghash(s, gds.enc_lib("LIB", list(UNITS[0]), c + c[:1])) != base, "a cell written twice is not noticed")
    rec.state(data)


def expected_stamp(data, when):
    d = bytearray(data)
    t = struct.pack(">12h", *([when.year, when.month, when.day, when.hour, when.minute, when.second] * 2))
    for rt, dt, p, pos in gds.records(data, True):
        if rt in (gds.BGNLIB, gds.BGNSTR):
            d[pos + 4:pos + 28] = t
    return bytes(d)


def run_stamp(case, rec):
    import gdspy

    ids = case["ids"]
    data = stream(ids, dates=case["dates"], pad=case["pad"], libdate=case["libdate"], extra=EXTRA if case["pad"] == 4 else b"")
    with Scratch() as s:
        h = ghash(s, data)
        for k, when in enumerate(DATES + DATES[:1]):
            f = (s.f, pathlib.Path(s.f), Like(s.f))[k % 3]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                gdspy.set_gdsii_timestamp(f, when)
            got, exp = s.get(), expected_stamp(data, when)
            rec.step()
            if not rec.expect(got == exp, lambda: "after set_gdsii_timestamp(%s): %d bytes, expected %d; first difference at %s" % (
                    when, len(got), len(exp), next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), None))):
                return
            rec.expect(ghash(s, got) == h, "the hash changes with the timestamp")
    rec.state((data, case["pad"]))


def run_written(case, rec):
    """A file written by gdspy and stamped is the file written with that timestamp."""
    import gdspy
    from mc import alpha, spec

    with Scratch() as s, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lib = gdspy.GdsLibrary("L")
        for n, e in zip(("X", "A", "B"), (None, case["el"], case["el"])):
            c = lib.new_cell(n)
            if e is not None:
                c.add(spec.build(e))
        out = []
        for w in DATES:
            f = io.BytesIO()
            lib.write_gds(f, timestamp=w)
            out.append(f.getvalue())
        lib.write_gds(s.f)
        h0 = gdspy.gdsii_hash(s.f)
        for w, o in zip(DATES, out):
            gdspy.set_gdsii_timestamp(s.f, w)
            rec.step()
            rec.expect(s.get() == o, "stamped file differs from the one written with timestamp=%s" % w)
            rec.expect(gdspy.gdsii_hash(s.f) == h0, "hash after set_gdsii_timestamp")
        f = io.BytesIO()
        lib.write_gds(f, cells=list(lib.cells)[::-1])
        rec.expect(ghash(s, f.getvalue()) == h0, "the order of the cells written matters")
        with open(s.f, "wb") as o:
            w = gdspy.GdsWriter(o, name="other", unit=lib.unit, precision=lib.precision)
            for c in lib.cells.values():
                w.write_cell(c)
            w.close()
        rec.expect(gdspy.gdsii_hash(s.f) == h0, "GdsWriter and write_gds give different hashes")
    rec.state(out[0])


def run_units(case, rec):
    import gdspy

    u, p = case["u"]
    with Scratch() as s:
        if case["own"]:
            lib = gdspy.GdsLibrary("L", unit=u, precision=p)
            lib.new_cell("A")
            f = io.BytesIO()
            lib.write_gds(f)
            data = f.getvalue()
            unit, prec = u, p
        else:
            data = gds.enc_lib("x" * case["n"], [u, p], [cell(0), cell(3)], EXTRA if case["n"] else b"") + b"\0" * (2 * case["n"])
            ru, rp = gds.real_decode(gds.real_encode(u)), gds.real_decode(gds.real_encode(p))
            unit, prec = float(rp / ru), float(rp)
        s.put(data)
        for form in ("str", "path", "like", "file", "bytes"):
            f = {"str": s.f, "path": pathlib.Path(s.f), "like": Like(s.f)}.get(form)
            f = io.BytesIO(data) if form == "bytes" else open(s.f, "rb") if f is None else f
            got = gdspy.get_gds_units(f)
            rec.step()
            rec.expect(isinstance(got, tuple) and len(got) == 2 and abs(got[0] / unit - 1) < 1e-14 and abs(got[1] / prec - 1) < 1e-14,
                       lambda: "units %s of the file, expected %s" % (got, (unit, prec)))
            if form in ("file", "bytes"):
                rec.expect(not f.closed, "get_gds_units closes the stream it was given")
                f.close()
        lib = gdspy.GdsLibrary(infile=io.BytesIO(data), units="import")
        rec.expect(abs(lib.unit / unit - 1) < 1e-14 and abs(lib.precision / prec - 1) < 1e-14, "units of the library read")
        rec.expect(s.get() == data, "get_gds_units changes the file")
    rec.state((u, p))


def collections(k):
    """Sequences of different cell names."""
    for n in range(k + 1):
        for t in itertools.permutations(range(len(CELLS)), n):
            if len({CELLS[i][0] for i in t}) == n:
                yield t


def gen_written(tier):
    from mc import alpha

    for g, step in ((alpha.polys, 3), (alpha.labels, 9), (alpha.refs, 16), (alpha.arrs, 24), (lambda: alpha.gds_paths("flex"), 12)):
        for i, e in enumerate(g()):
            if i % (step if tier == "quick" else 1) == 0:
                yield dict(el=e)


def groups(tier):
    deep = tier == "thorough"
    real = [(a, b) for a in (1e-3, 1.0, 0.5, 1e-6, 2.54e-5, 16.0, 0.0625, 1 / 3) for b in (1e-9, 1e-12, 5e-10, 1e-6, 1.0, 2.0 ** -40, 1.27e-7)]
    return [
        Group("hash", lambda: (dict(ids=list(t)) for t in collections(4 if deep else 3) if list(t) == sorted(t)), run_hash,
              "all collections of up to %d of 5 cells x all combinations of %d dates, orders, units, names, paddings" % (4 if deep else 3, len(D))),
        Group("bytes", lambda: (dict(ids=list(t), xor=x) for t in collections(3 if deep else 2) if t
                                for x in ([[1], [0x80]] if not deep else [[1 << i] for i in range(8)])), run_bytes,
              "every single byte of every record of all files of up to %d cells" % (3 if deep else 2)),
        Group("stamp", lambda: (dict(ids=list(t), dates=d, libdate=l, pad=p) for t in collections(4 if deep else 3)
                                for d in ((0,), (1, 3, 2)) for l in (0, 3) for p in PADS), run_stamp,
              "all files of up to %d cells x dates x paddings, sequences of 4 timestamps" % (4 if deep else 3)),
        Group("written", lambda: gen_written(tier), run_written, "libraries written by gdspy, elements of all alphabets"),
        Group("units", lambda: (dict(u=u, own=o, n=n) for u in real for o in (0, 1) for n in ((0, 1, 2, 5) if not o else (0,))
                                if not o or u[0] >= u[1]), run_units,
              "%d pairs of units, 5 ways of giving the file" % len(real)),
    ]
