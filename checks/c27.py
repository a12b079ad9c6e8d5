"""C27: Rectangle, Polygon, Round and Text against ideal outlines."""
import itertools
import math
import warnings

import numpy as np

from mc import font, geo
from mc.engine import Group

PI = math.pi


def rectangle(case, rec):
    import gdspy

    for kind in (tuple, list, np.array):
        for num in (float, int):
            a, b = [kind([num(v) for v in case[k]]) for k in ("a", "b")]
            keep = [list(a), list(b)]
            r = gdspy.Rectangle(a, b, **case["kw"])
            rec.step()
            (x0, y0), (x1, y1) = case["a"], case["b"]
            if not rec.expect(len(r.polygons) == 1 and r.polygons[0].shape == (4, 2), "one polygon of 4 vertices"):
                return
            p = r.polygons[0].astype(float)
            rec.expect(geo.same_polygon(p, np.array([(x0, y0), (x1, y0), (x1, y1), (x0, y1)], float)), lambda: "%s: %s" % (case, p.tolist()))
            rec.expect(r.layers == [case["kw"].get("layer", 0)] and r.datatypes == [case["kw"].get("datatype", 0)], "layer and datatype")
            rec.expect([list(a), list(b)] == keep and r.properties == {}, "arguments and properties")
            q = gdspy.Polygon(kind([kind(v) for v in r.polygons[0].tolist()]), **case["kw"])
            rec.expect((q.polygons[0] == r.polygons[0]).all() and q.layers == r.layers and q.datatypes == r.datatypes and len(q.polygons) == 1, "Polygon of the same vertices")
    rec.state(str(case))


def gen_rectangle(tier):
    v = (-2, 0, 1, 5)
    for a in itertools.product(v, repeat=2):
        for b in itertools.product(v, repeat=2):
            for kw in ({}, dict(layer=3), dict(layer=1, datatype=7)):
                yield dict(a=a, b=b, kw=kw)


# ---- Round

ANGLES = {"0": 0, "1": 1.0, "h": PI / 2, "p": PI, "3h": 1.5 * PI, "2p": 2 * PI, "-h": -PI / 2, "-p": -PI, "3p": 3 * PI,
          "-2.5": -2.5, "4p": 4 * PI, "-2p": -2 * PI, "-3p": -3 * PI, "5p": 5 * PI, "2.2": 2.2, "-3h": -1.5 * PI, "7": 7.0}
RADII = {"c": (5, 0), "e": ((5, 3), 0), "t": ((2, 5), 0), "r": (5, 2), "rr": (3.5, 3), "er": ((5, 3), 2), "re": (5, (2, 3)), "ee": ((6, 4), (4, 3)),
         "et": ((4, 6), (3.5, 2)), "ce": ((4, 4), (1, 2)), "l": ([3, 2], 0)}


def two(r):
    return (r[0], r[1]) if hasattr(r, "__iter__") else (r, r)


def param(a, rx, ry):
    """Parametric angle of the point of an ellipse at polar angle a, on the same turn."""
    t = math.atan2(rx * math.sin(a), ry * math.cos(a))
    return t + 2 * PI * round((a - t) / (2 * PI))


def place(p, c, rx, ry):
    """Distance (relative) from an ellipse and parametric angle."""
    x, y = (p[0] - c[0]) / rx, (p[1] - c[1]) / ry
    return abs(math.hypot(x, y) - 1), math.atan2(y, x)


def follows(ts, a, b):
    """Angles (mod a turn) run monotonically from a to b, with bounded steps; returns the largest step."""
    s = 1 if b > a else -1
    cur, big = a, 0
    for k, t in enumerate(ts):
        d = (s * (t - cur) + 1e-7) % (2 * PI) - 1e-7
        if k == 0 and min(abs(d), abs(d - 2 * PI)) > 1e-6:
            return None
        if k:
            big = max(big, d)
            cur += s * d
    return big if abs(cur - b) < 1e-6 else None


def rounds(case, rec):
    import gdspy

    R, r = RADII[case["r"]]
    (ax, ay), (bx, by) = two(R), two(r)
    ring = bx > 0
    c = case["c"]
    a0, a1 = ANGLES[case["a"][0]], ANGLES[case["a"][1]]
    full = a0 == a1
    span = 2 * PI if full else abs(a1 - a0)
    for kw in KW[case["kw"]]:
        n, m, tol = kw.get("number_of_points"), kw.get("max_points", 199), kw.get("tolerance", 0.01)
        rad = max(ax, ay)
        if tol >= rad:
            continue
        if not full:
            spans = [abs(param(a1, *w) - param(a0, *w)) for w in ((ax, ay), (bx, by))[:1 + ring]] + [span]
        chordn = (2 * PI if full else max(spans)) / (2 * math.acos(1 - tol / rad)) if n is None else None
        total = n if n is not None else max(3, int(chordn + 1.5))
        if n is None and (ring or not full):
            total = 2 * (total + 1) if ring else total + 2
        pieces = 1 if m == 0 else -(-total // m)
        least = (8 if ring else 4) if not (full and pieces == 1) else (10 if ring else 3)
        if total // pieces < least:
            continue
        args = dict(kw)
        if r or case["kw"] == "layers":
            args["inner_radius"] = r
        if not (full and a0 == 0):
            args.update(initial_angle=a0, final_angle=a1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = gdspy.Round(c, R, **args)
        rec.step()
        what = "Round(%s, %s, %s)" % (c, R, args)
        if not rec.expect(len(o.polygons) == len(o.layers) == len(o.datatypes), lambda: "%s: lists of different lengths" % what):
            return
        rec.expect(set(o.layers) == {kw.get("layer", 0)} and set(o.datatypes) == {kw.get("datatype", 0)}, lambda: "%s: layers %s" % (what, o.layers))
        if m:
            big = max(len(p) for p in o.polygons)
            rec.expect(big <= m, lambda: "%s: %d vertices" % (what, big))
            if n is not None and n <= m:
                rec.expect(len(o.polygons) == 1 and len(o.polygons[0]) == n, lambda: "%s: polygons of %s vertices" % (what, [len(p) for p in o.polygons]))
        else:
            rec.expect(len(o.polygons) == 1 and (n is None or len(o.polygons[0]) == n), lambda: "%s: polygons of %s vertices" % (what, [len(p) for p in o.polygons]))
        # every piece: the arc, then the inner arc backwards or the centre
        k = len(o.polygons)
        cut = np.linspace(a0, a0 + 2 * PI if full and k > 1 else a1, k + 1)
        big, arcs = 0, 0
        for i, p in enumerate(o.polygons):
            outer = [q for q in p if place(q, c, ax, ay)[0] < 1e-9]
            inner = [q for q in p if ring and place(q, c, bx, by)[0] < 1e-9]
            mid = [q for q in p if abs(q[0] - c[0]) + abs(q[1] - c[1]) < 1e-9]
            if not rec.expect(len(outer) + len(inner) + len(mid) == len(p), lambda: "%s: vertices off the outlines: %s" % (
                    what, [q.tolist() for q in p if not any(q is w for w in outer + inner + mid)][:3])):
                return
            start, end = cut[i], cut[i + 1]
            whole = full and k == 1
            rec.expect(len(mid) == (0 if whole or ring else 1), lambda: "%s: %d vertices at the centre" % (what, len(mid)))
            if whole:
                start, end = 0, 2 * PI
            for pts, rx, ry in ((outer, ax, ay),) + (((inner, bx, by),) if ring else ()):
                t = [place(q, c, rx, ry)[1] for q in pts]
                t0, t1 = param(start, rx, ry), param(end, rx, ry)
                if whole and not ring:
                    t.append(t[0] if t else 0)
                if whole:
                    t0 = t[0] if t else 0
                    t1 = t0 + 2 * PI
                if pts is inner:
                    t = t[::-1]
                if whole and len(t) > 1 and follows(t, t0, t1) is None:
                    t1 = t0 - 2 * PI
                b = follows(t, t0, t1)
                if b is None and not whole:
                    b = follows(t[::-1], t0, t1)
                if not rec.expect(b is not None, lambda: "%s: piece %d does not follow the outline from %.4g to %.4g: %s" % (what, i, t0, t1, t[:5] + t[-3:])):
                    return
                big = max(big, b)
                arcs += len(t) - 1
        dev = rad * (1 - math.cos(big / 2))
        if n is None and k == 1:
            rec.expect(dev <= tol * (1 + 1e-6), lambda: "%s: deviation %.4g, tolerance %g" % (what, dev, tol))
            if chordn > 10 and ax == ay:
                rec.expect(dev >= tol / 4, lambda: "%s: deviation %.4g, tolerance %g: many more vertices than needed" % (what, dev, tol))
        # coverage: every point further than the deviation from the outline
        x, y, inside, dist = samples(c, ax, ay, bx if ring else 0, by if ring else 0, a0, a0 + 2 * PI if full else a1, full)
        s = dist > dev + 1e-6
        cnt = geo.count([p.astype(float) for p in o.polygons], x[s], y[s])
        bad = cnt != inside[s]
        rec.expect(not bad.any(), lambda: "%s: point %s covered %d times" % (what, (x[s][bad][0], y[s][bad][0]), cnt[bad][0]))
        rec.state((case["r"], case["a"], str(c), str(kw)))


_S = {}


def samples(c, ax, ay, bx, by, a0, a1, full):
    """Lattice points, whether in the ideal shape, and (a lower bound of) the distance to its outline."""
    key = (tuple(c), ax, ay, bx, by, a0, a1, full)
    if key in _S:
        return _S[key]
    g = np.linspace(-1.15, 1.15, 27) * max(ax, ay) + 0.0123
    x, y = [v.ravel() for v in np.meshgrid(g, g)]
    x, y = x + c[0], y + c[1] + 0.0071
    u, v = x - c[0], y - c[1]
    t = np.linspace(a0, a1, 241)
    segs = []
    for rx, ry in ((ax, ay), (bx, by)):
        if rx == 0:
            continue
        w = np.array([param(q, rx, ry) for q in t]) if not full else t
        px, py = c[0] + rx * np.cos(w), c[1] + ry * np.sin(w)
        segs += list(zip(px, py, px[1:], py[1:]))
    if not full:
        for q in (a0, a1):
            w = param(q, ax, ay)
            e = (c[0] + ax * math.cos(w), c[1] + ay * math.sin(w))
            w = param(q, bx, by) if bx else 0
            f = (c[0] + bx * math.cos(w), c[1] + by * math.sin(w))
            segs.append(e + f)
    dist = geo.dist_segments(x, y, segs) - 0.01 * max(ax, ay)
    inside = (u / ax) ** 2 + (v / ay) ** 2 < 1
    if bx:
        inside &= (u / bx) ** 2 + (v / by) ** 2 > 1
    if not full:
        lo, hi = min(a0, a1), max(a0, a1)
        inside &= (np.arctan2(v, u) - lo) % (2 * PI) < hi - lo
    _S.clear()
    _S[key] = (x, y, inside.astype(int), dist)
    return _S[key]


KW = {
    "tol": [{}, dict(tolerance=0.1), dict(tolerance=0.5), dict(tolerance=0.001), dict(tolerance=1.5)],
    "tolmax": [dict(tolerance=t, max_points=m) for t in (0.1, 0.01, 0.0003) for m in (0, 8, 12, 20, 50)],
    "num": [dict(number_of_points=n) for n in (3, 4, 5, 7, 8, 10, 11, 16, 64, 199, 200, 401)],
    "nummax": [dict(number_of_points=n, max_points=m) for n in (16, 25, 64, 250) for m in (0, 8, 12, 21, 64)],
    "layers": [dict(layer=2), dict(layer=3, datatype=9, max_points=20)],
    "float": [dict(number_of_points=0.05), dict(number_of_points=0.002, max_points=30)],
}


def gen_round(tier):
    deep = tier == "thorough"
    for r in RADII:
        for a, b in itertools.product(ANGLES, repeat=2):
            if abs(ANGLES[a] - ANGLES[b]) > 2 * PI + 1e-9:
                continue
            for k in KW if deep else ("tol", "tolmax", "nummax") if a != b else KW:
                for c in ((0, 0), (3, -2)) if deep else ((3, -2),) if k != "tol" else ((0, 0),):
                    yield dict(r=r, a=(a, b), c=c, kw=k)


# ---- Text

FONT = font.load()
CHARS = ["A", "g", " ", "\t", "\n", "\xe9"]


def layout(text, horizontal):
    """Position (columns, rows in font units) of each character."""
    x = y = 0
    out = []
    for ch in text:
        if ch == "\n":
            x, y = (0, y - 11) if horizontal else (x + 8, 0)
        elif ch == "\t":
            # tab stops at the characters 3, 7, 11... of a line
            if horizontal:
                x = next(8 * k for k in range(3, 999, 4) if 8 * k > x)
            else:
                y = next(-11 * k for k in range(3, 999, 4) if -11 * k < y)
        else:
            out.append((ch, x, y))
            if horizontal:
                x += 8
            else:
                y -= 11
    return out


def text(case, rec):
    import gdspy

    s, size, pos, hor, ang = case["s"], case["size"], case["pos"], case["hor"], case["ang"]
    kw = dict(case["kw"])
    if pos != (0, 0):
        kw["position"] = pos
    if not hor:
        kw["horizontal"] = False
    if ang:
        kw["angle"] = ang
    t = gdspy.Text(s, size, **kw)
    rec.step()
    cells = set()
    for ch, x, y in layout(s, hor):
        cells |= {(x + i, y + j) for i, j in FONT.get(ch, ())}
    what = "Text(%r, %s, %s)" % (s, size, kw)
    if not rec.expect(len(t.polygons) == len(t.layers) == len(t.datatypes), lambda: "%s: lists of different lengths" % what):
        return
    rec.expect(set(t.layers) <= {kw.get("layer", 0)} and set(t.datatypes) <= {kw.get("datatype", 0)}, lambda: "%s: layers" % what)
    rec.expect(t.properties == {}, "properties")
    rec.state((s, size, pos, hor, ang))
    area = sum(geo.area(p) for p in t.polygons)
    u = size / 9.0
    if not rec.expect(abs(area - len(cells) * u * u) < 1e-9 * (1 + area), lambda: "%s: area %g, expected %g" % (what, area, len(cells) * u * u)):
        return
    # back to font units: covered exactly in the expected unit cells
    ca, sa = math.cos(ang), math.sin(ang)
    polys = []
    for p in t.polygons:
        d = (np.asarray(p, float) - pos) / u
        polys.append(np.column_stack((d[:, 0] * ca + d[:, 1] * sa, -d[:, 0] * sa + d[:, 1] * ca)))
        e = np.abs(polys[-1] - np.round(polys[-1])).max()
        if not rec.expect(e < 1e-6, lambda: "%s: vertices off the grid of a ninth of the size: %s" % (what, polys[-1].tolist())):
            return
    if not cells:
        rec.expect(not polys, lambda: "%s: polygons without printable characters" % what)
        return
    c = np.array(sorted(cells), float) + 0.5
    n = geo.count(polys, c[:, 0], c[:, 1])
    rec.expect((n == 1).all(), lambda: "%s: cell %s covered %d times" % (what, c[n != 1][0], n[n != 1][0]))


def gen_text(tier):
    deep = tier == "thorough"
    some = [dict(size=9, pos=(0, 0), ang=0, kw={}), dict(size=20, pos=(-3, 7), ang=0, kw=dict(layer=4)),
            dict(size=4.5, pos=(2, 1), ang=0.7, kw=dict(datatype=2)), dict(size=9, pos=(1, 0), ang=-PI / 2, kw={})]
    for hor in (True, False):
        for ch in sorted(FONT):
            for o in some:
                yield dict(o, s=ch, hor=hor)
            yield dict(some[0], s=ch + ch, hor=hor)
        for n in range(0, 7 if deep else 6):
            for t in itertools.product(CHARS[:5] if n > 4 else CHARS, repeat=n):
                yield dict(some[0] if n > 3 else some[n], s="".join(t), hor=hor)
        for t in ("A" * 30, "A\n" * 15, "\t" * 5 + "A", "AAA\tA", "AAAAAAA\tg", "\n\n\tA\n", "g\tg\ng\tg", "A" * 9 + "\t" + "A" * 3 + "\tg"):
            for o in some:
                yield dict(o, s=t, hor=hor)


def pairs(case, rec):
    """All pairs of printable characters in one text."""
    for ch in sorted(FONT):
        text(dict(s=case["a"] + ch, size=9, pos=(0, 0), ang=0, hor=case["hor"], kw={}), rec)


def groups(tier):
    return [
        Group("rectangle", lambda: gen_rectangle(tier), rectangle, "all pairs of corners over 4 coordinates each, as tuples, lists and arrays of integers and floats"),
        Group("round", lambda: gen_round(tier), rounds, "%d radii x all pairs of %d angles within a turn x tolerances, numbers of points and max_points" % (len(RADII), len(ANGLES))),
        Group("text", lambda: gen_text(tier), text, "all characters, all strings over 6 symbols up to length %d, both directions" % (6 if tier == "thorough" else 5)),
        Group("pairs", lambda: (dict(a=a, hor=h) for a in sorted(FONT) for h in (True, False)), pairs, "all pairs of the 94 characters"),
    ]
