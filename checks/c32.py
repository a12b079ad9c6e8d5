"""C32: the global library and the deprecated shortcuts against a dictionary."""
import datetime
import io
import itertools
import os
import tempfile
import warnings

import numpy as np

from mc import gds, spec
from mc.engine import Group

NOW = datetime.datetime(2021, 3, 4, 5, 6, 7)


class World:
    """The real objects: a fresh global library, and a library with a small hierarchy."""

    def __init__(self):
        import gdspy

        gdspy.current_library = gdspy.GdsLibrary()
        gdspy.library.use_current_library = False
        self.lib = gdspy.GdsLibrary("own")
        a, b, c = [gdspy.Cell(n) for n in "ABC"]
        a.add(gdspy.Rectangle((0, 0), (1, 2)))
        b.add(gdspy.CellReference(a, (3, 4)))
        c.add(gdspy.CellArray(b, 2, 1, (5, 6)))
        self.lib.add([a, b, c])
        self.stray = gdspy.Cell("B").add(gdspy.Label("stray", (0, 0)))
        gdspy.library.use_current_library = True
        self.made = []

    def current(self):
        import gdspy
        return gdspy.current_library


class Model:
    def __init__(self, w):
        self.cur = {}
        self.lib = dict(w.lib.cells)
        self.use = True
        # targets of the references of each cell
        self.refs = {id(c): [r.ref_cell for r in c.references] for c in list(w.lib.cells.values()) + [w.stray]}
        self.keep = []

    def deps(self, cell):
        out = [cell]
        for t in self.refs.get(id(cell), ()):
            out += [c for c in self.deps(t) if all(c is not o for o in out)]
        return out

    def add(self, cells):
        over = [c for c in cells if self.cur.get(c.name, c) is not c]
        for c in cells:
            self.cur[c.name] = c
        for c in over:
            for h in self.cur.values():
                t = self.refs.setdefault(id(h), [])
                t[:] = [c if x.name == c.name else x for x in t]

    def clash(self, cells):
        return any(self.cur.get(c.name, c) is not c for c in cells)


def make(name, exclude):
    """Cell(name): in the current library unless excluded."""
    def f(w, m):
        import gdspy
        cell = gdspy.Cell(name, exclude) if exclude is not None else gdspy.Cell(name)
        if m.use and not exclude:
            m.cur[name] = cell
        m.keep.append(cell)
        assert not (cell.polygons or cell.paths or cell.labels or cell.references), "a new cell is not empty"
    f.bad = lambda m: m.use and not exclude and name in m.cur
    return f


def copied(name, deep):
    def f(w, m):
        c = w.lib.cells["B"].copy(name, deep_copy=deep)
        if m.use:
            m.cur[name] = c
        m.keep.append(c)
        # shallow copies have the same references
        m.refs[id(c)] = list(m.refs[id(m.lib["B"])]) if deep else m.refs[id(m.lib["B"])]
    f.bad = lambda m: m.use and name in m.cur
    return f


def new_cell(name):
    def f(w, m):
        c = w.lib.new_cell(name)
        if m.use:
            m.cur[name] = c
        m.lib[name] = c
        assert not c.references, "a new cell is not empty"
    f.bad = lambda m: name in m.lib or m.use and name in m.cur
    # the cell exists before the own library refuses it
    f.leaves = lambda m: name if m.use and name not in m.cur else None
    return f


def extract(name, by_name, over):
    def f(w, m):
        target = m.lib[name]
        r = w.lib.extract(name if by_name else target, over) if over is not None else w.lib.extract(name if by_name else target)
        assert r is target, "extract returns %r" % r
        m.add(m.deps(target))
    f.bad = lambda m: not over and m.clash(m.deps(m.lib[name]))
    return f


def remove(name):
    def f(w, m):
        w.current().remove(name)
        m.cur.pop(name, None)
        for c in m.cur.values():
            m.refs[id(c)] = [t for t in m.refs.get(id(c), ()) if t.name != name]
    f.bad = lambda m: False
    return f


def toggle(value):
    def f(w, m):
        import gdspy
        gdspy.library.use_current_library = value
        m.use = value
    f.bad = lambda m: False
    return f


def add_stray(over):
    def f(w, m):
        w.current().add(w.stray, overwrite_duplicate=over)
        m.add([w.stray])
    f.bad = lambda m: not over and m.cur.get("B", w_stray) is not w_stray
    return f


def read(w, m):
    """Reading never touches the global library."""
    import gdspy
    b = io.BytesIO()
    w.lib.write_gds(b)
    b.seek(0)
    lib = gdspy.GdsLibrary(infile=b)
    assert set(lib.cells) == set(w.lib.cells) and not set(map(id, lib.cells.values())) & set(map(id, w.lib.cells.values()))


read.bad = lambda m: False


def write(args):
    def f(w, m):
        import gdspy
        cells, name, unit, precision, binary, form = args
        if cells is not None:
            if not all(c in m.cur for c in cells):
                return
            chosen = [m.cur[c] for c in cells]
        else:
            chosen = list(w.current().cells.values())
        extra = [b"\0\6\5\2" for _ in range(binary)]
        kw = dict(timestamp=NOW)
        if name is not None:
            kw.update(name=name, unit=unit, precision=precision)
        if cells is not None:
            kw["cells"] = chosen if form == "cells" else list(cells)
        if binary:
            kw["binary_cells"] = iter(extra)
        if form == "path":
            d = tempfile.mkdtemp()
            p = os.path.join(d, "f.gds")
            gdspy.write_gds(p, **kw)
            got = open(p, "rb").read()
            os.unlink(p)
            os.rmdir(d)
        else:
            b = io.BytesIO()
            gdspy.write_gds(b, **kw)
            got = b.getvalue()
        want = io.BytesIO()
        ref = gdspy.GdsLibrary(name or "library", unit=unit or 1e-6, precision=precision or 1e-9)
        for c in chosen:
            ref.cells[c.name] = c
        ref.write_gds(want, chosen if cells is not None else None, NOW, extra)
        assert got == want.getvalue(), "written %d bytes, expected %d" % (len(got), len(want.getvalue()))
    f.bad = lambda m: False
    return f


OPS = {}
for n in "ABD":
    OPS["Cell " + n] = make(n, None)
    OPS["Cell excluded " + n] = make(n, True)
    OPS["new_cell " + n] = new_cell(n)
OPS["Cell not excluded A"] = make("A", False)
for n, d in (("A", False), ("D", True)):
    OPS["copy %s %s" % (n, d)] = copied(n, d)
for n in "ABC":
    OPS["extract name " + n] = extract(n, True, None)
    OPS["extract cell %s over" % n] = extract(n, False, True)
OPS["extract cell B"] = extract("B", False, False)
for n in "AB":
    OPS["remove " + n] = remove(n)
OPS["off"], OPS["on"] = toggle(False), toggle(True)
OPS["stray"], OPS["stray over"] = add_stray(False), add_stray(True)
OPS["read"] = read
OPS["write"] = write((None, None, None, None, 0, ""))
OPS["write named"] = write((None, "lib2", 1e-3, 1e-8, 1, "path"))
OPS["write A"] = write((("A",), "x", 1e-6, 1e-9, 0, "cells"))
OPS["write BA"] = write((("B", "A"), None, None, None, 2, "names"))

w_stray = None


def run(case, rec):
    global w_stray
    import gdspy

    old = gdspy.current_library, gdspy.library.use_current_library
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = World()
            w_stray = w.stray
            m = Model(w)
            for i, name in enumerate(case["ops"]):
                op = OPS[name]
                bad = op.bad(m)
                left = op.leaves(m) if bad and hasattr(op, "leaves") else None
                rec.step()
                try:
                    op(w, m)
                    raised = None
                except ValueError as e:
                    raised = e
                except AssertionError as e:
                    rec.fail("%s after %s: %s" % (name, case["ops"][:i], e))
                    return
                if not rec.expect((raised is not None) == bool(bad), lambda: "%s after %s %s" % (
                        name, case["ops"][:i], "is accepted" if bad else "raises %s" % raised)):
                    return
                cur = dict(gdspy.current_library.cells)
                if left is not None and left in cur and left not in m.cur:
                    # a cell made and then refused may stay in the global library
                    m.cur[left] = cur[left]
                same = set(cur) == set(m.cur) and all(cur[k] is m.cur[k] and cur[k].name == k for k in cur)
                if not rec.expect(same, lambda: "after %s the global library holds %s, expected %s" % (case["ops"][:i + 1], sorted(cur), sorted(m.cur))):
                    return
                for c in list(cur.values()) + list(w.lib.cells.values()):
                    t = m.refs.get(id(c), ())
                    if not rec.expect(len(t) == len(c.references) and all(r.ref_cell is x for r, x in zip(c.references, t)),
                                      lambda: "after %s %s refers to %s, expected %s" % (case["ops"][:i + 1], c.name, [r.ref_cell for r in c.references], [x.name for x in t])):
                        return
                own = dict(w.lib.cells)
                if not rec.expect(set(own) == set(m.lib) and all(own[k] is m.lib[k] for k in own),
                                  lambda: "after %s the own library holds %s, expected %s" % (case["ops"][:i + 1], sorted(own), sorted(m.lib))):
                    return
            rec.state((sorted(m.cur), [sum(m.cur[k] is v for v in m.lib.values()) for k in sorted(m.cur)], sorted(m.lib), m.use))
    finally:
        gdspy.current_library, gdspy.library.use_current_library = old


def gen(tier):
    for k in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for t in itertools.product(OPS, repeat=k):
            yield dict(ops=list(t))


def run_bool(case, rec):
    """fast_boolean is boolean."""
    import gdspy

    a, b = gdspy.Rectangle((0, 0), (4, 4)), gdspy.Round((4, 4), 3, tolerance=0.05)
    args = (a, b if case["b"] else [], case["op"]) + tuple(case["args"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, y = gdspy.fast_boolean(*args, **case["kw"]), gdspy.boolean(*args, **case["kw"])
    rec.step()
    if x is None or y is None:
        rec.expect(x is None and y is None, "only one is empty")
        return
    rec.expect(len(x.polygons) == len(y.polygons) and all(np.array_equal(p, q) for p, q in zip(x.polygons, y.polygons))
               and x.layers == y.layers and x.datatypes == y.datatypes, "another result than boolean")
    rec.state([p.tolist() for p in x.polygons])


def gen_bool(tier):
    for op, b, args, kw in itertools.product(("or", "and", "not", "xor"), (0, 1), ((), (0.01,), (0.001, 8)),
                                             ({}, dict(layer=3, datatype=7), dict(layer=2))):
        yield dict(op=op, b=b, args=list(args), kw=kw)


UNITS = [None, 1e-6, 1e-9, 1e-3, 1, 2.5e-7]
PRECS = [None, 1e-9, 2e-9, 1e-12, 1e-6, 5e-10, 2]
LIBS = [None, "library", "", "odd", "even", "x" * 33]


def gen_shortcut(tier):
    one = [(u, p, n) for u in UNITS for p in PRECS for n in LIBS]
    for a in one:
        yield dict(calls=[a])
    some = one if tier == "thorough" else one[::7]
    for a in some:
        for b in some[::5]:
            yield dict(calls=[a, b])


def run_shortcut(case, rec):
    """gdspy.write_gds with every combination of unit, precision and name, called repeatedly, by
    keywords and by position, against the independent parser and GdsLibrary.write_gds."""
    import gdspy

    old = gdspy.current_library, gdspy.library.use_current_library
    try:
        gdspy.current_library = gdspy.GdsLibrary()
        gdspy.library.use_current_library = True
        for n in ("A", "B"):
            gdspy.Cell(n)
        for unit, prec, name in case["calls"]:
            u, p, n = unit or 1e-6, prec or 1e-9, "library" if name is None else name
            kw = {k: v for k, v in dict(unit=unit, precision=prec, name=name).items() if v is not None}
            if u / p > 1e8:
                continue
            for positional in (False, True):
                for c, k in (("A", 3), ("B", -2)):
                    cell = gdspy.current_library.cells[c]
                    cell.polygons = [gdspy.Rectangle((0, 0), (k * p / u, 7 * p / u), layer=k + 3)]
                f = io.BytesIO()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if positional:
                        gdspy.write_gds(f, None, n, u, p, NOW, None)
                    else:
                        gdspy.write_gds(f, timestamp=NOW, **kw)
                st = gds.parse(f.getvalue())
                rec.expect(st["name"] == n, lambda: "%r: name %r" % (case["calls"], st["name"]))
                rec.expect(spec.close_real(st["units"][0], p / u, 1e-14) and spec.close_real(st["units"][1], p, 1e-14),
                           lambda: "%r: units %r, expected %r %r" % (case["calls"], st["units"], p / u, p))
                for c, k in zip(st["cells"], (3, -2)):
                    xs = {v for v in c["elements"][0]["xy"]}
                    rec.expect(xs == {(0, 0), (k, 0), (k, 7), (0, 7)}, lambda: "%r: geometry %r" % (case["calls"], xs))
                lib = gdspy.GdsLibrary(n, unit=u, precision=p)
                lib.cells.update(gdspy.current_library.cells)
                g = io.BytesIO()
                lib.write_gds(g, timestamp=NOW)
                rec.expect(f.getvalue() == g.getvalue(), lambda: "%r: other bytes than GdsLibrary.write_gds" % case["calls"])
                rec.step()
                rec.state((n, st["units"]))
    finally:
        gdspy.current_library, gdspy.library.use_current_library = old


def groups(tier):
    return [
        Group("shortcut", lambda: gen_shortcut(tier), run_shortcut,
              "gdspy.write_gds: 6 units x 7 precisions x 6 names, alone and called twice"),
        Group("histories", lambda: gen(tier), run, "all sequences of %d operations up to depth %d" % (len(OPS), 4 if tier == "thorough" else 3)),
        Group("fast_boolean", lambda: gen_bool(tier), run_bool, "4 operations x operands x arguments"),
    ]
