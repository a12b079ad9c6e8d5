"""C31: PolyPath polygons against the strips between its borders."""
import itertools
import math
import warnings

import numpy as np

from mc import geo, strip
from mc.engine import Group

DIRS = [(14, 0), (10, 10), (0, 14), (-10, 10), (-14, 0), (-10, -10), (0, -14), (10, -10)]
SLIGHT = [(14, 0.5), (14, -0.75), (13, 4)]


def ideal(points, width, n, distance, corners, ends):
    """For each parallel path the pieces of its strip, None when its sections are too short."""
    P = np.array(points, dtype=float)
    m = len(P)
    w = [(width[i % len(width)] if isinstance(width, list) else width) / 2 for i in range(m)]
    d = [distance[i % len(distance)] if isinstance(distance, list) else distance for i in range(m)]
    t = [strip.unit(b - a) for a, b in zip(P, P[1:])]
    out = []
    if ends == "extended":
        P[0], P[-1] = P[0] - t[0] * w[0], P[-1] + t[-1] * w[-1]
    nv = [strip.left(x) for x in t]
    for k in range(n):
        off = [(k - (n - 1) / 2) * x for x in d]

        def line(s, sg):
            """Border of section s: from and to."""
            return (P[s] + nv[s] * (off[s] + sg * w[s]), P[s + 1] + nv[s] * (off[s + 1] + sg * w[s + 1]))

        pieces = []
        # corner points of both borders
        cor = {}
        for sg in (1, -1):
            a = [line(s, sg) for s in range(m - 1)]
            c = [a[0][0]]
            for s in range(1, m - 1):
                q = strip.meet(a[s - 1][0], a[s - 1][1] - a[s - 1][0], a[s][0], a[s][1] - a[s][0])
                if q is None:
                    if np.abs(a[s - 1][1] - a[s][0]).max() > 1e-9:
                        return None
                    c.append(a[s][0])
                else:
                    c.append(a[s - 1][0] + q[0] * (a[s - 1][1] - a[s - 1][0]))
            c.append(a[-1][1])
            cor[sg] = c
        for s in range(m - 1):
            ends_ = []
            for e in (s, s + 1):
                l, r = cor[1][e], cor[-1][e]
                if corners == "bevel" and 0 < e < m - 1:
                    turn = t[e - 1][0] * t[e][1] - t[e - 1][1] * t[e][0]
                    sg = -1 if turn > 0 else 1  # outer side
                    p0, pp = line(e - 1, sg)[1], line(e, sg)[0]
                    # cut only where the borders really stop before meeting
                    c = cor[sg][e]
                    if (c - p0) @ t[e - 1] > 1e-9 and (c - pp) @ t[e] < -1e-9:
                        x = p0 if e == s + 1 else pp
                        if e == s + 1:
                            pieces.append([p0, pp, cor[-sg][e]])
                        l, r = (x, r) if sg == 1 else (l, x)
                ends_.append((l, r))
            (l0, r0), (l1, r1) = ends_
            # the section must be longer than its corners
            if (l1 - l0) @ t[s] < 0.05 or (r1 - r0) @ t[s] < 0.05:
                return None
            # tapered borders must not meet before the corner
            if (l0 - r0) @ nv[s] < -1e-9 or (l1 - r1) @ nv[s] < -1e-9:
                return None
            pieces.append([r0, r1, l1, l0])
        if ends == "round":
            for e, c, v in ((0, P[0] + nv[0] * off[0], -t[0]), (-1, P[-1] + nv[-1] * off[-1], t[-1])):
                if w[e] > 0:
                    a = math.atan2(v[1], v[0])
                    pieces.append(strip.arc(c, w[e], a - math.pi / 2, a + math.pi / 2))
        out.append([np.array(p) for p in pieces])
    return out


def run(case, rec):
    import gdspy

    pts = [np.array((1.0, -2.0))]
    for s in case["dirs"]:
        pts.append(pts[-1] + ((DIRS + SLIGHT)[s]))
    width, n, dist = WIDTHS[case["w"]], case["n"], DIST[case["d"]]
    want = ideal(pts, width, n, dist, case["corners"], case["ends"])
    if want is None:
        rec.state("short")
        return
    layers, types, mp = case.get("layer", [1, 2, 3]), case.get("datatype", 4), case.get("max_points", 199)
    form = case.get("form", "tuple")
    points = [tuple(map(float, p)) for p in pts] if form == "tuple" else np.array(pts) if form == "array" else [list(p) for p in pts]
    given = np.array(pts)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pp = gdspy.PolyPath(points, arg(width, form), n, arg(dist, form), case["corners"], case["ends"], mp, layers, types)
        rec.step()
    rec.expect(np.abs(np.array(points, float) - given).max() == 0, "the points given were changed")
    if not rec.expect(len(pp.polygons) == len(pp.layers) == len(pp.datatypes), "lists of different lengths"):
        return
    lay = layers if isinstance(layers, list) else [layers]
    typ = types if isinstance(types, list) else [types]
    keys = {}
    for k in range(n):
        keys.setdefault((lay[k % len(lay)], typ[k % len(typ)]), []).extend(want[k])
    got = {}
    for p, l, t in zip(pp.polygons, pp.layers, pp.datatypes):
        got.setdefault((l, t), []).append(np.asarray(p, float))
    if not rec.expect(set(got) == set(keys), lambda: "layers %s, expected %s" % (sorted(got), sorted(keys))):
        return
    if mp > 4 and case["ends"] != "round":
        rec.expect(all(len(p) <= mp for p in pp.polygons), lambda: "pieces of %s points" % [len(p) for p in pp.polygons])
    if mp == 0:
        rec.expect(len(pp.polygons) == n * (3 if case["ends"] == "round" else 1), lambda: "%d polygons" % len(pp.polygons))
    for k in keys:
        why = geo.check_cover(got[k], keys[k], lambda x, y: geo.covered(keys[k], x, y, "nonzero"), 0.01, "nonzero", overlap=False)
        if not rec.expect(not why, lambda: "layer %s: %s" % (k, why)):
            return
    rec.state([np.round(p, 5).tolist() for p in pp.polygons])


def arg(v, form):
    return np.array(v, dtype=float) if isinstance(v, list) and form == "array" else tuple(v) if isinstance(v, list) and form == "tuple" else v


WIDTHS = [1.5, 2, [1, 2], [2, 0.5, 1, 1.5], [0, 2], [1, 2, 0, 1, 2]]
DIST = [0, 3, [3, 4], [2.5, 3, 2.5, 4, 3]]


def spines(k, first=(0, 1)):
    for d in first:
        for rest in itertools.product(range(8), repeat=k - 1):
            s = (d,) + rest
            if all((b - a) % 8 != 4 for a, b in zip(s, s[1:])):
                yield list(s)


def gen(tier):
    deep = tier == "thorough"
    for k in (1, 2, 3) + ((4,) if deep else ()):
        for s in spines(k, range(8) if k < 3 else (0, 1) if deep and k == 3 else (1,)):
            for w, e, c in itertools.product(range(len(WIDTHS)) if k < 4 else (0, 2, 3), ("flush", "round", "extended"), ("miter", "bevel")):
                for n in (1, 2, 3):
                    # bevels of several paths are documented as strange
                    if c == "bevel" and n > 1 and k > 1:
                        continue
                    for d in ((0,) if n == 1 else (1, 2, 3)):
                        if k >= 3 and not deep and (e == "round" and n == 2 or n == 3 and d == 1):
                            continue
                        yield dict(dirs=s, w=w, ends=e, corners=c, n=n, d=d)
    # slight turns, straight joins
    for s in itertools.product((0, 8, 9, 10), repeat=3):
        for w, c in itertools.product((0, 2, 3), ("miter", "bevel")):
            yield dict(dirs=list(s), w=w, ends="extended", corners=c, n=1, d=0)
        yield dict(dirs=list(s), w=0, ends="flush", corners="miter", n=2, d=1)
    # vertex limits, layers, argument forms
    zig = [0, 1, 0, 7, 0, 2, 0, 6, 0, 1, 2, 3, 2, 1, 0]
    for mp in list(range(4, 40)) + [0]:
        for e, c, n in (("flush", "miter", 1), ("extended", "bevel", 1), ("flush", "miter", 2), ("extended", "miter", 3), ("round", "bevel", 1)):
            for w in (0, 2, 3, 4):
                yield dict(dirs=zig, w=w, ends=e, corners=c, n=n, d=1, max_points=mp)
    for ly, dt in itertools.product((0, 5, [5], [5, 6], [5, 6, 7, 8]), repeat=2):
        for n, e, s in itertools.product((1, 2, 3), ("flush", "round"), ([0], [0, 1])):
            yield dict(dirs=s, w=1, ends=e, corners="miter", n=n, d=1, layer=ly, datatype=dt)
    for f, w, d, e in itertools.product(("tuple", "list", "array"), range(len(WIDTHS)), range(1, len(DIST)), ("flush", "round", "extended")):
        for n, s in itertools.product((1, 2), ([0], [1, 2, 1])):
            yield dict(dirs=s, w=w, ends=e, corners="miter", n=n, d=d, form=f)


def run_wrong(case, rec):
    import gdspy

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            gdspy.PolyPath([(0, 0), (5, 0), (5, 5)], 1, corners=case["corners"], ends=case["ends"])
            ok = True
        except ValueError:
            ok = False
    rec.step()
    rec.expect(ok == case["ok"], lambda: "accepted: %s" % ok)


def gen_wrong(tier):
    for c, e in itertools.product(("miter", "bevel", "round", "", None), ("flush", "round", "extended", "smooth", "")):
        yield dict(corners=c, ends=e, ok=c in ("miter", "bevel") and e in ("flush", "round", "extended"))


def groups(tier):
    return [
        Group("strips", lambda: gen(tier), run,
              "8-direction spines of up to %d sections x 6 width profiles x 4 distances x 1 to 3 paths x 3 ends x 2 corners, limits 4..39, layers, argument forms" % (4 if tier == "thorough" else 3)),
        Group("wrong", lambda: gen_wrong(tier), run_wrong, "all corner and end names"),
    ]
