"""C34: values that the stream format cannot hold are refused, all others are stored exactly."""
import io
import itertools
import math
from fractions import Fraction

import numpy as np

from mc import gds
from mc.engine import Group

NAN, INF = float("nan"), float("inf")
# coordinates in database units
XY = [0, 1, -1, 0.4, -0.6, 32767, 32768, 65536, 2 ** 24 + 1, 2 ** 31 - 1, -2 ** 31, 2 ** 31 - 0.6, 2 ** 31 - 1.4,
      -2 ** 31 - 0.4, 2 ** 31, 2 ** 31 + 1, -2 ** 31 - 1, -2 ** 31 - 0.6, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, -2 ** 32 + 7,
      2 ** 33 + 9, -2 ** 33, 2 ** 40 + 3, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 2.0 ** 64 + 4096, 1e30, -1e30, 1e300, NAN, INF, -INF]
SHORT = [0, 1, -1, 2, 127, 128, 255, 256, 32767, -32768, 32768, -32769, 32769, 65535, 65536, 65537, -65535, -65536, 2 ** 31, 2 ** 32 + 1,
         2 ** 64, 10 ** 30, 1.5, NAN, INF, "1", None]
REAL = [1, -1, 0.5, 16, 1 / 16, 1 / 3, 90, 1e-3, 255.99999999999997, 1e70, -1e70, 7.2e75, 7.3e75, -7.2e75, -7.3e75, 1e76, -1e76, 1e77, -1e80, 1e150, 1e300,
        1e-60, 5.4e-79, -5.4e-79, 4e-80, -4e-80, 1e-80, -1e-80, 1e-81, 1e-150, -1e-150, 5e-324, NAN, INF, -INF]
LENGTH = [0, 1, 2, 3, 31, 32, 33, 127, 128, 255, 256, 32763, 32764, 32765, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65540, 70000, 131074]
ROUND = 4096.0  # database units per user unit: products with small integers are exact


def rnd(v):
    return int(round(v))


def scan(data):
    """[(record type, value)] of the elements of cell A, by the independent reader."""
    out, on = [], False
    for rt, dt, p, pos in gds.records(data):
        if rt == gds.STRNAME:
            on = gds.value(rt, dt, p) == "A"
        elif rt == gds.ENDSTR:
            on = False
        elif on:
            out.append((rt, gds.value(rt, dt, p)))
    return out


def write(lib, how, cells=None):
    import gdspy

    f = io.BytesIO()
    if how == "library":
        lib.write_gds(f)
    else:
        w = gdspy.GdsWriter(f, name=lib.name, unit=lib.unit, precision=lib.precision)
        for c in lib.cells.values():
            w.write_cell(c)
        w.close()
    return f.getvalue()


def library(elements):
    import gdspy

    lib = gdspy.GdsLibrary("L", unit=ROUND * 1e-9, precision=1e-9)
    b = gdspy.Cell("B").add(gdspy.Rectangle((0, 0), (1, 1)))
    a = gdspy.Cell("A").add(elements(b))
    lib.add([a, b])
    return lib


def fields(case):
    """(element factory, record type -> expected payloads or None when it must be refused)"""
    import gdspy

    k, v, m = case["field"], case["v"], ROUND
    el = case["el"]
    ok = lambda lo, hi: isinstance(v, int) and lo <= v <= hi
    short = lambda: [v] if ok(-32768, 32767) else None
    if k == "xy":
        good = math.isfinite(v) and -2 ** 31 <= rnd(v) < 2 ** 31
        i, c = case["at"]
        u = v / m
        if el in ("polygon", "big", "int"):
            n = 8195 if el == "big" else 4
            base = [(0, 0), (3, 1), (2, 5), (1, 4)] if n == 4 else [(j % 90, j // 90) for j in range(n)]
            P = np.array(base, dtype=float)
            P[i, c] = u
            q = [[rnd(x * m), rnd(y * m)] for x, y in P] if good else []
            return lambda b: gdspy.Polygon(P), {gds.XY: sum(q + q[:1], []) if good else None}
        if el in ("flex", "robust"):
            base = [(0.0, 0.0), (0.0, 1.0)] if i == 1 else [(1.0, 1.0), (0.0, 1.0)]
            q = [list(p) for p in base]
            q[i][c] = u
            if el == "flex":
                f = lambda b: gdspy.FlexPath(q, 1, gdsii_path=True)
            else:
                f = lambda b: gdspy.RobustPath(q[0], 1, gdsii_path=True).segment(q[1])
            return f, {gds.XY: [rnd(z * m) for p in q for z in p] if good else None}
        q = [1.0, 2.0]
        q[c] = u
        e = [rnd(z * m) for z in q] if good else None
        if el == "label":
            return lambda b: gdspy.Label("t", q), {gds.XY: e}
        if el == "ref":
            return lambda b: gdspy.CellReference(b, q), {gds.XY: e}
        if el == "array":
            # origin such that the far corners stay within the range whenever it does itself
            s = -1 if v > 0 else 1
            w = [e[0] + 2 * s * int(m), e[1], e[0], e[1] + 3 * s * int(m)] if good else []
            return lambda b: gdspy.CellArray(b, 2, 3, (s, s), q), {gds.XY: e + w if good else None}
        if el == "arrayfar":
            good = math.isfinite(v) and -2 ** 31 <= rnd(2 * v) < 2 ** 31
            w = None
            if good:
                w = [0, 0, rnd(2 * v), 0, 0, rnd(3 * m)] if c == 0 else [0, 0, rnd(3 * m), 0, 0, rnd(2 * v)]
            return lambda b: gdspy.CellArray(b, 2 if c == 0 else 3, 3 if c == 0 else 2, (u, 1) if c == 0 else (1, u)), {gds.XY: w}
    if k == "width":
        good = math.isfinite(v) and -2 ** 31 <= rnd(v) < 2 ** 31
        u = v / m
        f = (lambda b: gdspy.FlexPath([(0, 0), (1, 0)], u, gdsii_path=True)) if el == "flex" else (
            lambda b: gdspy.RobustPath((0, 0), u, gdsii_path=True).segment((1, 0)))
        return f, {gds.WIDTH: [rnd(v)] if good else None}
    if k == "ends":
        good = math.isfinite(v) and -2 ** 31 <= rnd(v) < 2 ** 31
        u = v / m
        t = (u, 1.0) if case["at"] == 0 else (1.0, u)
        f = (lambda b: gdspy.FlexPath([(0, 0), (1, 0)], 1, ends=t, gdsii_path=True)) if el == "flex" else (
            lambda b: gdspy.RobustPath((0, 0), 1, ends=t, gdsii_path=True).segment((1, 0)))
        one = rnd(m)
        return f, {gds.BGNEXTN: ([rnd(v)] if case["at"] == 0 else [one]) if good else None,
                   gds.ENDEXTN: ([rnd(v)] if case["at"] == 1 else [one]) if good else None}
    if k in ("layer", "type"):
        kw = {"layer": 3, "datatype": 4}
        kw["layer" if k == "layer" else "datatype"] = v
        rt = {gds.LAYER: [3]}
        ty = gds.TEXTTYPE if el == "label" else gds.DATATYPE
        rt[ty] = [4]
        rt[gds.LAYER if k == "layer" else ty] = short()
        if el == "label":
            return lambda b: gdspy.Label("t", (0, 0), layer=kw["layer"], texttype=kw["datatype"]), rt
        if el == "flex":
            return lambda b: gdspy.FlexPath([(0, 0), (1, 0)], 1, gdsii_path=True, **kw), rt
        if el == "robust":
            return lambda b: gdspy.RobustPath((0, 0), 1, gdsii_path=True, **kw).segment((1, 0)), rt
        n = 8195 if el == "big" else 4
        base = [(j % 90, j // 90) for j in range(n)]
        return lambda b: gdspy.Polygon(base, **kw), rt
    if k in ("columns", "rows"):
        a = [2, 2]
        a[0 if k == "columns" else 1] = v
        good = ok(1, 32767)
        if not good and not (isinstance(v, int) and (v > 32767 or v < -32768) or not isinstance(v, int)):
            return None, None
        return lambda b: gdspy.CellArray(b, a[0], a[1], (1 / m, 1 / m)), {gds.COLROW: list(a) if good else None}
    if k in ("rotation", "magnification"):
        kw = {k: v}
        rt = gds.ANGLE if k == "rotation" else gds.MAG
        e = [real(v)]
        f = {"label": lambda b: gdspy.Label("t", (0, 0), **kw), "ref": lambda b: gdspy.CellReference(b, (0, 0), **kw),
             "array": lambda b: gdspy.CellArray(b, 1, 1, (1, 1), (0, 0), **kw)}[el]
        return f, {rt: e}
    if k in ("attribute", "value"):
        attr = v if k == "attribute" else 1
        text = "v" * v if k == "value" else "val"
        good = ok(-32768, 32767) if k == "attribute" else v <= 65530
        factories = {
            "polygon": lambda b: gdspy.Polygon([(0, 0), (1, 0), (1, 1)]), "label": lambda b: gdspy.Label("t", (0, 0)),
            "big": lambda b: gdspy.Polygon([(j % 90, j // 90) for j in range(8195)]),
            "flex": lambda b: gdspy.FlexPath([(0, 0), (1, 0)], 1, gdsii_path=True),
            "robust": lambda b: gdspy.RobustPath((0, 0), 1, gdsii_path=True).segment((1, 0)),
            "ref": lambda b: gdspy.CellReference(b), "array": lambda b: gdspy.CellArray(b, 2, 1, (1, 1))}

        def f(b):
            e = factories[el](b)
            e.properties[attr] = text
            return e

        return f, {gds.PROPATTR: [attr] if good else None, gds.PROPVALUE: text if good else None}
    if k == "text":
        return lambda b: gdspy.Label("t" * v, (0, 0)), {gds.STRING: "t" * v if v <= 65530 else None}
    raise AssertionError(k)


def real(v):
    """What an 8-byte real may hold for v: exact, or None."""
    if not math.isfinite(v):
        return None
    f = abs(Fraction(v))
    if f != 0 and not (Fraction(16) ** -65 <= f < Fraction(16) ** 63):
        return None
    return Fraction(v)


def run_field(case, rec):
    f, exp = fields(case)
    if f is None:
        return
    rec.step()
    refused = any(e is None or e == [None] for e in exp.values())
    what = "%s %s = %r (%s, %s): " % (case["el"], case["field"], case["v"], case.get("at"), case["how"])
    try:
        lib = library(f)
        data = write(lib, case["how"])
    except Exception as e:
        if not refused:
            rec.fail(what + "refused: %s: %s" % (type(e).__name__, e))
        rec.state(str(case))
        return
    if refused:
        try:
            got = [g for rt, g in scan(data) if rt in exp]
        except Exception as e:
            got = e
        return rec.fail(what + "written as %.200r" % (got,))
    try:
        got = scan(data)
    except gds.Bad as e:
        return rec.fail(what + "invalid stream: %s" % e)
    for rt, e in exp.items():
        g = [x for t, x in got if t == rt]
        if rt == gds.XY:
            g = [sum(g, [])]
        if rt in (gds.MAG, gds.ANGLE):
            good = len(g) == 1 and abs(g[0][0] - e[0]) <= abs(e[0]) * Fraction(1, 1 << 51)
        else:
            good = g == [e]
        rec.expect(good, lambda: what + "record %02x holds %.300r, expected %.300r" % (rt, g, e))
    rec.state(str(case))


def gen_field(tier):
    ways = ("library", "writer")
    for how in ways:
        for v in XY:
            for c in (0, 1):
                for i in range(4):
                    yield dict(field="xy", el="polygon", v=v, at=(i, c), how=how)
                for i in (0, 8189, 8190, 8194) if how == "library" or tier == "thorough" else ():
                    yield dict(field="xy", el="big", v=v, at=(i, c), how=how)
                for el in ("flex", "robust"):
                    for i in (0, 1):
                        if not (v == 0 and c == 1 and i == 1) and v not in (0, ROUND):
                            yield dict(field="xy", el=el, v=v, at=(i, c), how=how)
                for el in ("label", "ref", "array", "arrayfar"):
                    yield dict(field="xy", el=el, v=v, at=(0, c), how=how)
            for el in ("flex", "robust"):
                if v > 0 and math.isfinite(v) and v >= 1:
                    yield dict(field="width", el=el, v=v, how=how)
                for at in (0, 1):
                    if math.isfinite(v):
                        yield dict(field="ends", el=el, v=v, at=at, how=how)
        for v in SHORT:
            for k in ("layer", "type"):
                for el in ("polygon", "flex", "robust", "label", "big"):
                    yield dict(field=k, el=el, v=v, how=how)
            for k in ("columns", "rows"):
                yield dict(field=k, el="array", v=v, how=how)
            for el in ("polygon", "flex", "robust", "label", "ref", "array", "big"):
                yield dict(field="attribute", el=el, v=v, how=how)
        for v in REAL:
            for k in ("rotation", "magnification"):
                for el in ("label", "ref", "array"):
                    yield dict(field=k, el=el, v=v, how=how)
        for v in LENGTH:
            yield dict(field="text", el="label", v=v, how=how)
            for el in ("polygon", "flex", "robust", "label", "ref", "array", "big"):
                yield dict(field="value", el=el, v=v, how=how)


def run_names(case, rec):
    """Names of cells and libraries, units."""
    import gdspy

    n, k = case["v"], case["field"]
    rec.step()
    unit, prec = 1e-6, 1e-9
    lname, cname = "L", "C"
    if k == "library":
        lname = "x" * n
    elif k == "cell":
        cname = "x" * n
    elif k == "precision":
        prec, unit = n, n * 1000.0
    refused = n > 65530 if k in ("library", "cell") else real(prec) is None or real(prec / unit) is None
    try:
        lib = gdspy.GdsLibrary(lname, unit=unit, precision=prec)
        c = gdspy.Cell(cname)
        if case["ref"]:
            c = gdspy.Cell("top").add(gdspy.CellReference(c))
        lib.add(c)
        data = write(lib, case["how"])
    except Exception as e:
        if not refused:
            rec.fail("%r refused: %s: %s" % (case, type(e).__name__, e))
        rec.state(str(case))
        return
    if refused:
        return rec.fail("%r written" % (case,))
    got = [(rt, gds.value(rt, dt, p)) for rt, dt, p, pos in gds.records(data)]
    rec.expect([v for t, v in got if t == gds.LIBNAME] == [lname], "%r: library name" % (case,))
    rec.expect(cname in [v for t, v in got if t == gds.STRNAME], "%r: cell name" % (case,))
    if case["ref"]:
        rec.expect([v for t, v in got if t == gds.SNAME] == [cname], "%r: name of the reference" % (case,))
    u = [v for t, v in got if t == gds.UNITS]
    near = lambda a, b: abs(a - Fraction(b)) <= abs(Fraction(b)) * Fraction(1, 1 << 50)
    rec.expect(len(u) == 1 and near(u[0][0], prec / unit) and near(u[0][1], prec), lambda: "%r: units %r" % (case, u))
    rec.state(str(case))


def gen_names(tier):
    for how in ("library", "writer"):
        for ref in (False, True):
            for n in LENGTH:
                yield dict(field="library", v=n, how=how, ref=ref)
                yield dict(field="cell", v=n, how=how, ref=ref)
            for n in REAL:
                if n > 0 and 1e-300 < n < 1e290:
                    yield dict(field="precision", v=n, how=how, ref=ref)


def groups(tier):
    return [
        Group("fields", lambda: gen_field(tier), run_field,
              "every numeric and text field of every kind of element x boundary values (%d coordinates, %d short integers, %d reals, %d lengths) x both writers" % (len(XY), len(SHORT), len(REAL), len(LENGTH))),
        Group("names", lambda: gen_names(tier), run_names, "names and units"),
    ]
