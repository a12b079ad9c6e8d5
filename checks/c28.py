"""C28: labels through all sequences of operations, against a record of what a label is."""
import copy
import io
import itertools
import math
import warnings

import numpy as np

from mc import geo, gds, spec
from mc.engine import Group

FIELDS = ("text", "pos", "anchor", "rot", "mag", "xr", "layer", "tt", "props")


def place(m, o=(0, 0), rot=None, mag=None, xr=False, own=True):
    """The label after a reference to its cell; own: its own transformation changes too."""
    m = dict(m)
    m["pos"] = geo.placement(o, rot, mag, xr)(m["pos"])
    if own:
        if mag is not None:
            m["mag"] = (1 if m["mag"] is None else m["mag"]) * mag
        if xr:
            m["xr"] = not m["xr"]
            m["rot"] = None if m["rot"] is None else -m["rot"]
        if rot is not None:
            m["rot"] = rot + (m["rot"] or 0)
    return m


def compare(l, m, tol):
    if l.text != m["text"] or int(l.anchor) != m["anchor"] or l.layer != m["layer"] or l.texttype != m["tt"]:
        return "is %r anchor %s layer %s/%s, expected %r anchor %s layer %s/%s" % (
            l.text, l.anchor, l.layer, l.texttype, m["text"], m["anchor"], m["layer"], m["tt"])
    p = complex(float(l.position[0]), float(l.position[1]))
    if not abs(p - m["pos"]) <= tol:
        return "at %s, expected %s" % (p, m["pos"])
    if bool(l.x_reflection) != bool(m["xr"]):
        return "x_reflection %s" % l.x_reflection
    a, b = [1 if v is None else v for v in (l.magnification, m["mag"])]
    if not abs(a - b) <= 1e-9 * abs(b):
        return "magnification %s, expected %s" % (a, b)
    d = ((l.rotation or 0) - (m["rot"] or 0)) % 360
    if not min(d, 360 - d) <= 1e-9:
        return "rotation %s, expected %s" % (l.rotation, m["rot"])
    if dict(l.properties) != m["props"]:
        return "properties %s, expected %s" % (l.properties, m["props"])
    return None


class World:
    """A cell holding the label; neighbours never change."""

    def __init__(self, m):
        import gdspy

        self.m = m
        self.tol = 1e-9
        kw = {}
        for f, n in (("rot", "rotation"), ("mag", "magnification"), ("xr", "x_reflection"), ("layer", "layer"), ("tt", "texttype")):
            if m[f]:
                kw[n] = m[f]
        l = gdspy.Label(m["text"], (m["pos"].real, m["pos"].imag), m.pop("name"), **kw)
        l.properties.update(m["props"])
        self.cell = gdspy.Cell("C")
        self.cell.add([gdspy.Label("first", (7, 7), "sw", layer=9), l, gdspy.Rectangle((0, 0), (1, 1))])
        self.count = 0

    @property
    def label(self):
        return self.cell.labels[1]

    def fresh(self):
        self.count += 1
        return "C%d" % self.count


def adopt(w, labels, k=1):
    """A new cell with labels that a query returned."""
    import gdspy

    c = gdspy.Cell(w.fresh())
    c.add([gdspy.Label("first", (7, 7), "sw", layer=9), labels[k]])
    w.cell = c


def translate(dx, dy):
    def go(w):
        l = w.label
        before = l.position
        kept = np.array(before)
        if l.translate(dx, dy) is not l:
            return "translate does not return the label"
        if (before != kept).any():
            return "translate changes the previous position array"
        w.m = dict(w.m, pos=w.m["pos"] + complex(dx, dy))
    return go


def stream(writer=False, unit=1e-6, precision=1e-9, units="skip"):
    def go(w):
        import gdspy

        f = io.BytesIO()
        lib = gdspy.GdsLibrary("L", unit=unit, precision=precision)
        lib.add(w.cell)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if writer:
                g = gdspy.GdsWriter(f, "L", unit, precision)
                g.write_cell(w.cell)
                g.close()
            else:
                lib.write_gds(f)
            data = f.getvalue()
            back = gdspy.GdsLibrary(infile=io.BytesIO(data), units=units) if units != "skip" else gdspy.GdsLibrary(infile=io.BytesIO(data))
        w.cell = back.cells[w.cell.name]
        w.tol += 0.75 * precision / unit
        if units == "convert":
            w.m = dict(w.m, pos=w.m["pos"] * (unit / 1e-6))
            w.tol *= unit / 1e-6
        # what a GDSII reader without gdspy would find
        recs = gds.records(data)
        if [n for n in gds_texts(recs)][1:2] != [w.m["text"]]:
            return "text in the stream: %r" % gds_texts(recs)
    return go


def gds_texts(recs):
    return [bytes(r[2]).rstrip(b"\0").decode("ascii") for r in recs if r[0] == gds.STRING]


def duplicate(w):
    l = w.label
    c = w.cell.copy(w.fresh(), deep_copy=True)
    if c.labels[1] is l:
        return "a copied cell shares the label"
    old, kept = w.cell, copy.deepcopy(w.m)
    c.labels[1].translate(100, 100)
    c.labels[1].properties[99] = "x"
    c.labels[1].text += "!"
    if c.labels[1].position is l.position or compare(l, kept, w.tol):
        return "editing the label of a copied cell changes the original"
    w.cell = old.copy(w.fresh(), deep_copy=True)


def shallow(w):
    c = w.cell.copy(w.fresh(), deep_copy=False)
    w.cell = c


def moved(tr=None, rot=None, sc=None, xr=False):
    def go(w):
        old = w.label
        kept = dict(w.m)
        w.cell = w.cell.copy(w.fresh(), deep_copy=True, translation=tr, rotation=None if rot is None else math.radians(rot), scale=sc, x_reflection=xr)
        if compare(old, kept, w.tol):
            return "a transformed copy of the cell changes the original label"
        w.m = place(w.m, tr or (0, 0), rot, sc, xr)
        w.tol *= sc or 1
    return go


def reference(o, rot=None, mag=None, xr=False, own=True, flat=False, array=None):
    def go(w):
        nc, nr = array or (1, 1)
        import gdspy

        top = gdspy.Cell(w.fresh())
        kept = dict(w.m)
        old = w.label
        if array:
            r = gdspy.CellArray(w.cell, nc, nr, (10, 3), o, rot, mag, xr)
        else:
            r = gdspy.CellReference(w.cell, o, rot, mag, xr)
        top.add(r)
        if flat:
            if top.flatten() is not top:
                return "flatten does not return the cell"
            if len(top.labels) != 2 * nc * nr:
                return "%d labels after flatten" % len(top.labels)
            labels = top.labels
        else:
            labels = (r if own == "ref" else top).get_labels(set_transform=True) if own else top.get_labels()
        if array:
            # each position of the array has both labels
            if len(labels) != 2 * nc * nr:
                return "%d labels in the array" % len(labels)
            at = geo.placement((0, 0), rot, None, xr)
            shifts = [at(complex(10 * i, 3 * j)) for i in range(nc) for j in range(nr)]
            places = [(o[0] + v.real, o[1] + v.imag) for v in shifts]
            left = [k for k in range(len(labels)) if labels[k].text != "first"]
            if len(left) != nc * nr:
                return "labels of the array: %s" % [l.text for l in labels]
            for o_ in places:
                m = place(w.m, o_, rot, mag, xr, own)
                why = [compare(labels[k], m, w.tol * (mag or 1)) for k in left]
                if None not in why:
                    return "labels of the array, at %s: %s" % (m["pos"], why)
                k = left.pop(why.index(None))
            adopt(w, labels, k)
        else:
            adopt(w, labels)
            o_ = o
        if compare(old, kept, w.tol):
            return "querying the labels of a reference changes the label in the cell"
        w.m = place(w.m, o_, rot, mag, xr, own)
        w.tol *= mag or 1
    return go


def queries(w):
    kept = dict(w.m)
    for l in w.cell.get_labels() + w.cell.get_labels(depth=0, set_transform=True):
        l.position += 50
        l.rotation, l.text, l.anchor, l.layer, l.texttype = 12, "zz", 0, 77, 78
        l.properties[5] = "q"
    l = w.label
    str(l), repr(l)
    w.cell.get_bounding_box(), w.cell.get_texttypes(), w.cell.get_layers()
    f = io.StringIO()
    l.to_svg(f, 2.0, 6)
    if w.cell.get_texttypes() - {0, w.m["tt"]} or w.m["tt"] not in w.cell.get_texttypes():
        return "texttypes %s" % w.cell.get_texttypes()
    return compare(l, kept, w.tol) and "queries change the label"


def remove(w):
    """Everything but the label."""
    import gdspy

    t = w.m["text"]
    w.cell.add(gdspy.Label("gone", (1, 1)))
    w.cell.remove_labels(lambda l: l.text == "gone")
    if [l.text for l in w.cell.labels] != ["first", t]:
        return "labels after remove_labels: %s" % [l.text for l in w.cell.labels]


def retext(w):
    w.label.text = w.label.text[:-1] + "yz"
    w.label.properties[7] = "odd"
    w.m = dict(w.m, text=w.m["text"][:-1] + "yz", props={**w.m["props"], 7: "odd"})


def rerotate(w):
    w.label.rotation, w.label.magnification, w.label.x_reflection = 12.5, None, True
    w.m = dict(w.m, rot=12.5, mag=None, xr=True)


OPS = {
    "t": translate(2, -3), "tf": translate(np.float64(-0.5), 0.25),
    "rw": stream(), "ww": stream(True), "rc": stream(unit=2e-6, precision=1e-9, units="convert"), "ri": stream(unit=1e-3, units="import"),
    "cp": duplicate, "cs": shallow,
    "mt": moved((1, -2)), "mr": moved(rot=90), "mall": moved((3, 1), 30, 2, True), "ms": moved(sc=0.5),
    "ref": reference((1, 2)), "refr": reference((-3, 0.5), 90, own="ref"), "refm": reference((0, 0), mag=0.5, xr=True), "refall": reference((5, -1), -30, 1.5, True),
    "pos": reference((2, 2), 90, 2, True, own=False), "flat": reference((4, 1), 45, None, True, own=False, flat=True), "fm": reference((0, 1), None, 2, own=False, flat=True),
    "arr": reference((1, 1), 90, array=(2, 1)), "arrx": reference((1, 1), 30, None, True, array=(2, 2)),
    "arrm": reference((0, 2), None, 2, True, own=False, array=(1, 3)), "arrf": reference((-1, 2), 60, 0.5, True, own=False, flat=True, array=(2, 3)),
    "q": queries, "rm": remove, "ed": retext, "er": rerotate,
}
KEY = ["t", "rw", "cp", "mall", "refall", "refm", "flat", "arr", "q", "er", "ed"]


def run(case, rec):
    m = dict(case["m"])
    m["pos"] = complex(*m["pos"])
    m["props"] = {int(k): v for k, v in m["props"].items()}
    w = World(m)
    why = compare(w.label, w.m, 1e-12)
    if not rec.expect(why is None, lambda: "constructed label %s" % why):
        return
    for i, o in enumerate(case["ops"]):
        # "import" keeps the file's units, other readings convert to the library's
        why = OPS[o](w)
        rec.step()
        why = why or compare(w.label, w.m, w.tol * 1.01)
        if why is None:
            first = w.cell.labels[0]
            if (first.text, first.layer, int(first.anchor)) != ("first", 9, 8):
                why = "another label became %s" % first
        if not rec.expect(why is None, lambda: "%s after %s: %s" % (case["m"], case["ops"][:i + 1], why)):
            return
    rec.state((case["m"]["text"], w.m["pos"], w.m["rot"], w.m["mag"], w.m["xr"], w.m["text"]))


def mk(text="lbl", pos=(1, 2), name="o", rot=None, mag=None, xr=False, layer=0, tt=0, props=None):
    return dict(text=text, pos=pos, name=name, anchor=spec.ANCHORS[name.lower()], rot=rot, mag=mag, xr=xr, layer=layer, tt=tt, props=props or {})


LABELS = [mk(), mk("odd", (-2.5, 0), "nw", 30, 2, True, 3, 4, {1: "abc", 2: "defg"}), mk("even", (0, 0), "se", rot=-90), mk("m2", (3, -1), "w", mag=0.5, layer=2),
          mk("x<&>", (0.25, 0.125), "ne", xr=True, tt=63), mk("z" * 40, (100, -50), "s", 270.5, 1, False, 255, 1, {127: "p"})]


def gen(tier):
    deep = tier == "thorough"
    for k, m in enumerate(LABELS):
        for n in (1, 2, 3, 4) if deep and k < 2 else (1, 2, 3):
            for e in itertools.product(OPS, repeat=n):
                yield dict(m=m, ops=list(e))
        for e in itertools.product(KEY, repeat=5 if deep else 4):
            yield dict(m=m, ops=list(e))
    for name in spec.ANCHORS:
        for e in OPS:
            yield dict(m=mk("an", (1, 1), name, 15), ops=[e])


def anchors(case, rec):
    """Exactly the documented anchors, in any case of letters, written as documented."""
    import gdspy

    a = case["a"]
    forms = [a, a.upper(), a.title()]
    for f in forms:
        rec.step()
        ok = f.lower() in spec.ANCHORS
        try:
            l = gdspy.Label("t", (0, 0), f)
        except ValueError:
            rec.expect(not ok, lambda: "anchor %r rejected" % f)
            continue
        if rec.expect(ok, lambda: "anchor %r accepted" % f):
            l2 = gdspy.Label("t", (0, 0), anchor=f)
            rec.expect(l.anchor == l2.anchor == spec.ANCHORS[f.lower()], lambda: "anchor %r is %s" % (f, l.anchor))
            b = io.BytesIO()
            l.to_gds(b, 1000)
            p = [bytes(d) for t, _, d, _ in gds.records(b.getvalue()) if t == gds.PRESENTATION]
            n = spec.ANCHORS[f.lower()]
            rec.expect(p == [bytes([0, n])], lambda: "anchor %r written as %s" % (f, p))
    rec.state(a)


def gen_anchors(tier):
    names = set(spec.ANCHORS)
    words = ["", "n", "s", "e", "w", "o", "c", "top", "middle", "center", "bottom", "upper", "lower", "left", "right"]
    for a in sorted(names):
        yield dict(a=a)
    for a, b in itertools.product(words, repeat=2):
        for sep in ("", " "):
            yield dict(a=a + sep + b)


def forms(case, rec):
    """Positions of any array-like form; the argument is neither kept nor changed."""
    import gdspy

    x, y = case["p"]
    for name, p in (("list", [x, y]), ("tuple", (x, y)), ("array", np.array([x, y], float)), ("int array", np.array([int(x), int(y)])), ("mixed", (int(x), float(y)))):
        l = gdspy.Label("t", p, layer=2, texttype=3)
        want = np.array(p, float)
        for k, (dx, dy) in enumerate(case["moves"]):
            l.translate(dx, dy)
            want = want + (dx, dy)
            rec.step()
            rec.expect(np.abs(np.asarray(l.position, float) - want).max() < 1e-9, lambda: "%s position after %s: %s, expected %s" % (name, case["moves"][:k + 1], l.position, want))
        if case["moves"]:
            rec.expect((np.array(p, float) == np.array([x, y] if name != "int array" and name != "mixed" else [p[0], p[1]], float)).all(), lambda: "%s argument changed to %s" % (name, p))
        if isinstance(p, (list, np.ndarray)):
            p[0] = 55
            rec.expect(np.abs(np.asarray(l.position, float) - want).max() < 1e-9, lambda: "the label keeps the %s it was given" % name)
    rec.state(str(case))


def gen_forms(tier):
    steps = [(1, 0), (0.5, -0.25), (-3, 2), (0, 0)]
    for p in ((0, 0), (1, 2), (-2.5, 0.5), (3, -7)):
        for n in (0, 1, 2, 3):
            for m in itertools.product(steps, repeat=n):
                yield dict(p=p, moves=m)


def groups(tier):
    return [
        Group("histories", lambda: gen(tier), run, "%d labels x all sequences of %d operations up to depth %d, of %d to depth %d; every anchor x every operation" % (
            len(LABELS), len(OPS), 4 if tier == "thorough" else 3, len(KEY), 5 if tier == "thorough" else 4)),
        Group("anchors", lambda: gen_anchors(tier), anchors, "all anchor names, all pairs of anchor words, three letter cases"),
        Group("forms", lambda: gen_forms(tier), forms, "5 forms of the position x translations up to depth 3"),
    ]
