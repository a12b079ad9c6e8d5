"""A tiny JSON-able language for layouts, a builder of real gdspy objects from it,
and the boring reference meaning of the same description."""
import math
from fractions import Fraction

import numpy as np

from mc import gds

ANCHORS = {
    "nw": 0, "top left": 0, "upper left": 0, "n": 1, "top center": 1,
    "upper center": 1, "ne": 2, "top right": 2, "upper right": 2, "w": 4,
    "middle left": 4, "o": 5, "middle center": 5, "e": 6, "middle right": 6, "sw": 8,
    "bottom left": 8, "lower left": 8, "s": 9, "bottom center": 9, "lower center": 9,
    "se": 10, "bottom right": 10, "lower right": 10,
}
PATHTYPE = {"flush": 0, "round": 1, "extended": 2}


def T(x):
    """lists (from JSON) to tuples, recursively."""
    return tuple(T(i) for i in x) if isinstance(x, (list, tuple)) else x


def build(s, cells=None):
    import gdspy

    t = s["t"]
    if t == "poly":
        polys = s["polys"]
        if s.get("dtype"):
            polys = [np.array(p, dtype=s["dtype"]) for p in polys]
        el = gdspy.PolygonSet(polys)
        el.layers = [int(l) for l, _ in s["ld"]]
        el.datatypes = [int(d) for _, d in s["ld"]]
    elif t == "label":
        el = gdspy.Label(
            s["text"], T(s["pos"]), s.get("anchor", "o"), s.get("rot"), s.get("mag"),
            s.get("xr", False), s.get("l", 0), s.get("tt", 0),
        )
    elif t in ("ref", "arr"):
        c = s["cell"]
        if cells is not None:
            c = cells.get(c, c)
        kw = dict(
            origin=T(s.get("o", (0, 0))), rotation=s.get("rot"),
            magnification=s.get("mag"), x_reflection=s.get("xr", False),
            ignore_missing=True,
        )
        if t == "ref":
            el = gdspy.CellReference(c, **kw)
        else:
            el = gdspy.CellArray(c, s["cols"], s["rows"], T(s["sp"]), **kw)
    elif t == "flex":
        el = gdspy.FlexPath(
            T(s["pts"]), s["w"], s.get("off", 0), corners=s.get("corners", "natural"),
            ends=endspec(s.get("ends", "flush")), bend_radius=s.get("br"),
            tolerance=s.get("tol", 0.01), precision=s.get("prec", 1e-3),
            max_points=s.get("maxp", 199), gdsii_path=s.get("gds", False),
            width_transform=s.get("wt", True), layer=lst(s.get("l", 0)),
            datatype=lst(s.get("d", 0)),
        )
    elif t == "rob":
        el = gdspy.RobustPath(
            T(s["pts"][0]), s["w"], s.get("off", 0), ends=endspec(s.get("ends", "flush")),
            tolerance=s.get("tol", 0.01), precision=s.get("prec", 1e-3),
            max_points=s.get("maxp", 199), gdsii_path=s.get("gds", False),
            width_transform=s.get("wt", True), layer=lst(s.get("l", 0)),
            datatype=lst(s.get("d", 0)),
        )
        for p in s["pts"][1:]:
            el.segment(T(p))
    else:
        raise ValueError(t)
    if s.get("props"):
        for a, v in s["props"]:
            el.properties[a] = v
    return el


def lst(x):
    return list(x) if isinstance(x, (list, tuple)) else x


def endspec(e):
    """('tuple', a, b) -> (a, b); lists of ends -> list."""
    if isinstance(e, (list, tuple)):
        if e and e[0] == "ext":
            return (e[1], e[2])
        return [endspec(x) for x in e]
    return e


def paths_of(s):
    """[(points, offset, width, end, layer, datatype)] of a path description."""
    w = s["w"]
    off = s.get("off", 0)
    if isinstance(w, (list, tuple)):
        n = len(w)
        ws = list(w)
        offs = list(off) if isinstance(off, (list, tuple)) else [
            (i - 0.5 * (n - 1)) * off for i in range(n)]
    elif isinstance(off, (list, tuple)):
        n = len(off)
        ws = [w] * n
        offs = list(off)
    else:
        n, ws, offs = 1, [w], [off]
    e = endspec(s.get("ends", "flush"))
    es = [e[i % len(e)] for i in range(n)] if isinstance(e, list) else [e] * n
    l, d = lst(s.get("l", 0)), lst(s.get("d", 0))
    ls = [l[i % len(l)] for i in range(n)] if isinstance(l, list) else [l] * n
    ds = [d[i % len(d)] for i in range(n)] if isinstance(d, list) else [d] * n
    # FlexPath offsets grow to the left of the direction of travel, RobustPath ones
    # to the right
    sgn = -1 if s["t"] == "rob" else 1
    return [
        (offset_line(s["pts"], sgn * offs[i]), offs[i], ws[i], es[i], ls[i], ds[i])
        for i in range(n)
    ]


def offset_line(pts, off):
    """Parallel polyline: to the left of the direction of travel by `off`."""
    q = []
    for p in pts:
        p = (float(p[0]), float(p[1]))
        if not q or q[-1] != p:
            q.append(p)
    if off == 0 or len(q) < 2:
        return q
    nrm, seg = [], []
    for a, b in zip(q, q[1:]):
        dx, dy = b[0] - a[0], b[1] - a[1]
        L = math.hypot(dx, dy)
        nrm.append((-dy / L, dx / L))
        seg.append((dx / L, dy / L))
    out = [(q[0][0] + off * nrm[0][0], q[0][1] + off * nrm[0][1])]
    for i in range(1, len(q) - 1):
        n0, n1 = nrm[i - 1], nrm[i]
        c = n0[0] * n1[0] + n0[1] * n1[1]
        if abs(seg[i - 1][0] * seg[i][1] - seg[i - 1][1] * seg[i][0]) < 1e-9:
            k = 0.5 * off
        else:
            k = off / (1 + c)
        out.append((q[i][0] + k * (n0[0] + n1[0]), q[i][1] + k * (n0[1] + n1[1])))
    out.append((q[-1][0] + off * nrm[-1][0], q[-1][1] + off * nrm[-1][1]))
    return out


def expected_stream(s, mult):
    """The stream elements denoted by a description; coordinates are exact
    (unrounded) database values."""
    t = s["t"]
    props = [(a, v) for a, v in s.get("props", ())]

    def m(p):
        return (p[0] * mult, p[1] * mult)

    def strans():
        d = {"refl": bool(s.get("xr")), "mag": s.get("mag"), "angle": s.get("rot")}
        return d

    if t == "poly":
        return [
            dict(kind=gds.BOUNDARY, layer=l, type=d, xy=[m(p) for p in list(pts) + [pts[0]]],
                 props=props)
            for pts, (l, d) in zip(s["polys"], s["ld"])
        ]
    if t == "label":
        return [dict(kind=gds.TEXT, layer=s.get("l", 0), type=s.get("tt", 0),
                     presentation=ANCHORS[s.get("anchor", "o")], xy=[m(s["pos"])],
                     string=s["text"], props=props, tr=strans())]
    if t == "ref":
        return [dict(kind=gds.SREF, sname=s["cell"], xy=[m(s.get("o", (0, 0)))],
                     props=props, tr=strans())]
    if t == "arr":
        o = s.get("o", (0, 0))
        r = math.radians(s.get("rot") or 0)
        f = -1 if s.get("xr") else 1
        a = s["cols"] * s["sp"][0]
        b = s["rows"] * s["sp"][1] * f
        p2 = (o[0] + a * math.cos(r), o[1] + a * math.sin(r))
        p3 = (o[0] - b * math.sin(r), o[1] + b * math.cos(r))
        return [dict(kind=gds.AREF, sname=s["cell"], xy=[m(o), m(p2), m(p3)],
                     colrow=(s["cols"], s["rows"]), props=props, tr=strans())]
    if t in ("flex", "rob") and s.get("gds"):
        out = []
        for pts, off, w, e, l, d in paths_of(s):
            pt = PATHTYPE.get(e, 4) if isinstance(e, str) else 4
            el = dict(kind=gds.PATH, layer=l, type=d, pathtype=pt,
                      width=w * mult * (1 if s.get("wt", True) else -1),
                      bgnextn=None, endextn=None, xy=[m(p) for p in pts], props=props)
            if pt == 4:
                el["bgnextn"], el["endextn"] = e[0] * mult, e[1] * mult
            out.append(el)
        return out
    raise ValueError(t)


def near(db, val, slack=1e-4):
    """db is the integer nearest to val (ties either way)."""
    return abs(db - val) <= 0.5 + slack + 1e-9 * abs(val)


def compare_stream(got, exp, slack=1e-4):
    """None, or why the parsed element differs from the expected one."""
    if got["kind"] != exp["kind"]:
        return "element kind %02x instead of %02x" % (got["kind"], exp["kind"])
    for k in ("layer", "type", "sname", "colrow", "presentation", "string"):
        if k in exp and got[k] != exp[k]:
            return "%s is %r, expected %r" % (k, got[k], exp[k])
    if "tr" in exp:
        tr = exp["tr"]
        st = got["strans"] or 0
        if bool(st & 0x8000) != tr["refl"]:
            return "reflection flag %04x, expected %r" % (st, tr["refl"])
        if st & 0x0006:
            return "absolute transformation flag set (%04x)" % st
        for a, b, dflt in (("mag", "mag", 1), ("angle", "angle", 0)):
            g = dflt if got[a] is None else got[a]
            x = dflt if tr[b] is None else tr[b]
            if not close_real(g, x):
                return "%s is %r, expected %r" % (a, float(g), x)
    if exp["kind"] == gds.PATH:
        if (got["pathtype"] or 0) != exp["pathtype"]:
            return "pathtype %r, expected %r" % (got["pathtype"], exp["pathtype"])
        for k in ("width", "bgnextn", "endextn"):
            g, x = got[k], exp[k]
            if (g or 0) == 0 and (x is None or near(0, x, slack)):
                continue
            if g is None or x is None or not near(g, x, slack):
                return "%s is %r, expected %r" % (k, g, x)
    if len(got["xy"]) != len(exp["xy"]):
        return "%d coordinates, expected %d" % (len(got["xy"]), len(exp["xy"]))
    if len(exp["xy"]) > 64:
        d = np.abs(np.array(got["xy"], dtype=float) - np.array(exp["xy"], dtype=float))
        if d.max() > 0.5 + slack + 1e-9 * np.abs(np.array(exp["xy"])).max():
            i = int(d.max(axis=1).argmax())
            return "vertex %d is %r, expected %r" % (i, got["xy"][i], exp["xy"][i])
    else:
        for i, (g, x) in enumerate(zip(got["xy"], exp["xy"])):
            if not (near(g[0], x[0], slack) and near(g[1], x[1], slack)):
                return "vertex %d is %r, expected %r" % (i, g, x)
    if sorted(got["props"]) != sorted(exp["props"]):
        return "properties %r, expected %r" % (got["props"], exp["props"])
    return None


def close_real(a, b, rel=Fraction(1, 1 << 51)):
    a, b = Fraction(a), Fraction(b)
    return abs(a - b) <= rel * max(abs(a), abs(b))
