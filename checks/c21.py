"""C21: GDSII PATH elements against the paths they are written from."""
import io
import itertools
import math
import warnings

import numpy as np

from checks import c18, c19, c20
from mc import gds, geo, strip
from mc.engine import Group

H = math.pi / 2
TYPES = {"flush": 0, "round": 1, "extended": 2}


def arr(x):
    return np.array(x, dtype=float)


def write(obj, unit, precision):
    import gdspy

    lib = gdspy.GdsLibrary("L", unit=unit, precision=precision)
    cell = lib.new_cell("C")
    cell.add(obj)
    f = io.BytesIO()
    lib.write_gds(f, timestamp=None)
    return f.getvalue()


def elements(data):
    return gds.parse(data)["cells"][0]["elements"]


def segs(p):
    return [(a[0], a[1], b[0], b[1]) for a, b in zip(p, p[1:])]


def away(p, q):
    """Largest distance of the vertices and chords of p to the polyline q."""
    t = np.linspace(0, 1, 5)
    d = np.concatenate([a + (b - a) * t[:, None] for a, b in zip(p, p[1:])])
    return geo.dist_segments(d[:, 0], d[:, 1], segs(q)).max()


def region(e, mult):
    """The area of a PATH element by the definition of the format."""
    P = arr(e["xy"]) / mult
    P = strip.dedup(P)[0]
    w = np.full(len(P), abs(e["width"] or 0) / mult)
    pt = e["pathtype"] or 0
    if pt == 4:
        end = ((e["bgnextn"] or 0) / mult, (e["endextn"] or 0) / mult)
    else:
        end = ("flush", "round", "extended")[pt]
    return strip.strip(P, w, "miter", end)


def bent(P, R):
    """Polyline with its corners replaced by arcs."""
    out = [P[0]]
    for j in range(1, len(P) - 1):
        a, b = strip.unit(P[j] - P[j - 1]), strip.unit(P[j + 1] - P[j])
        da = math.atan2(a[0] * b[1] - a[1] * b[0], a @ b)
        if abs(da) < 1e-9:
            out.append(P[j])
            continue
        cut, sg = R * math.tan(abs(da) / 2), 1 if da > 0 else -1
        c = P[j] - a * cut + sg * strip.left(a) * R
        a0 = math.atan2(*(-sg * strip.left(a))[::-1])
        out += strip.arc(c, R, a0, a0 + da)
    return np.array(out + [P[-1]])


def attributes(rec, els, s, mult, what):
    """Everything but the centre lines."""
    if not rec.expect(len(els) == s.n and all(e["kind"] == gds.PATH for e in els), lambda: "%s: %d elements" % (what, len(els))):
        return False
    for k, e in enumerate(els):
        end = s.ends[k]
        pt = TYPES[end] if isinstance(end, str) else 4
        ext = [end[0] * mult, end[1] * mult] if pt == 4 else [None, None]
        got = [e["bgnextn"], e["endextn"]]
        w = s.width_of(k) * mult * (1 if s.wt else -1)
        ok = (e["layer"], e["type"]) == (s.layers[k], s.datatypes[k]) and e["pathtype"] == pt and abs(e["width"] - w) <= 0.501 and all(
            (g is None) == (x is None) and (g is None or abs(g - x) <= 0.501) for g, x in zip(got, ext))
        if not rec.expect(ok, lambda: "%s: path %d is written as layer %s type %s pathtype %s width %s ext %s, expected %s %s %s %.6g %s" % (
                what, k, e["layer"], e["type"], e["pathtype"], e["width"], got, s.layers[k], s.datatypes[k], pt, w, ext)):
            return False
        if not rec.expect(e["props"] == [(a, v) for a, v in s.props], lambda: "%s: properties %s" % (what, e["props"])):
            return False
    return True


def covers(rec, els, polys, mult, eps, what):
    keys = {}
    for e in els:
        keys.setdefault((e["layer"], e["type"]), []).append(e)
    if not rec.expect(set(keys) == set(polys), lambda: "%s: keys %s" % (what, sorted(polys))):
        return False
    for key, mem in keys.items():
        want = [p for e in mem for p in region(e, mult)]
        why = geo.check_cover(polys[key], want, lambda x, y: geo.covered(want, x, y, "nonzero"), eps, "nonzero", overlap=False)
        if not rec.expect(not why, lambda: "%s: %s: %s" % (what, key, why)):
            return False
    return True


def once(els):
    return [dict(e, xy=[p for i, p in enumerate(e["xy"]) if not i or p != e["xy"][i - 1]]) for e in els]


def read_back(rec, data, els, s, mult, unit, precision, eps, full, what):
    """Reading gives paths with the same record and region; writing them the same bytes."""
    import gdspy

    lib = gdspy.GdsLibrary(unit=unit, precision=precision, infile=io.BytesIO(data))
    paths = lib.cells["C"].paths
    if not rec.expect(len(paths) == len(els), "%s: %d paths are read" % (what, len(paths))):
        return
    for e, p in zip(els, paths):
        ok = p.gdsii_path and p.n == 1 and np.abs(p.points * mult - e["xy"]).max() < 1e-3 and abs(
            p.widths[0, 0] * mult - abs(e["width"])) < 1e-3 and p.width_transform == s.wt and (p.layers[0], p.datatypes[0]) == (e["layer"], e["type"])
        if not rec.expect(ok, lambda: "%s: record %s is read as %s" % (what, e, p)):
            return
        if full:
            if not covers(rec, [e], p.get_polygons(True), mult, eps, what + ": polygons of the path read"):
                return
    f = io.BytesIO()
    lib.write_gds(f, timestamp=None)
    again = elements(f.getvalue())
    # repeated points, equal after rounding to the grid, are written once
    rec.expect(once(again) == once(els), lambda: "%s: written again: %s, was %s" % (what, again, els))
    rec.step()


UNITS = [(1e-6, 1e-9), (1e-6, 5e-9), (1e-3, 1e-8)]

# -------------------------------------------------------------------------------- FlexPath

ENDS = {"flush": "flush", "round": "round", "extended": "extended", "tuple": (1.5, 0.5), "neg": (-0.75, 2), "zero": (0, 0)}
CORNERS = {"natural": "natural", "miter": "miter", "bend": "circular bend", "round": "round", "bevel": "bevel"}
WID = {
    "one": dict(width=1.5, layer=4, datatype=5), "abs": dict(width=1.5, layer=4, width_transform=False),
    "off": dict(width=1, offset=[1.5]), "two": dict(width=[1, 1.5], offset=4, layer=[1, 2], datatype=[3]),
    "three": dict(width=2, offset=[-3, 0, 4], layer=[1, 2, 1], width_transform=False),
}
MOVES = dict((k, c19.EDITS[k]) for k in ("tr", "rot", "rot90", "sc", "sch", "tf", "tfa", "mir", "mirall", "again"))
MOVES["seg"] = c19.op_cmd(lambda fp: fp.segment((3, 26), width=9, relative=True), lambda p, v: [p + (3, 26)])
MOVES["lay"] = c19.EDITS["lay"]
PROPS = [(1, "ab"), (127, "odd")]


class Flex(c19.State):
    props = ()

    def width_of(self, k):
        return self.widths[0, k]


def run_flex(case, rec):
    import gdspy

    unit, precision = UNITS[case.get("u", 0)]
    mult = unit / precision
    p = arr((0.5, -1.0))
    pts = [p]
    for d in case["dirs"]:
        pts.append(pts[-1] + arr(c18.DIRS[d]) * (24 if case["corner"] == "bend" else 14))
        if case.get("dup"):
            pts.append(pts[-1])
    kw = dict(WID[case["wid"]], points=pts, corners=CORNERS[case["corner"]], gdsii_path=True,
              ends=ENDS[case["end"]] if isinstance(case["end"], str) else [ENDS[x] for x in case["end"]])
    if case["corner"] == "bend":
        kw["bend_radius"] = 4
    what = "%s" % case
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fp, s = gdspy.FlexPath(**kw), Flex(kw)
        if case.get("props"):
            fp.properties = dict(PROPS)
            s.props = PROPS
        for e in case["ops"]:
            real, model = MOVES[e]
            real(fp)
            model(s, fp) if hasattr(model, "needs_path") else model(s)
            if e in ("mir", "mirall"):
                # the side of the offsets after a reflection is the subject of C19
                if np.abs(arr(fp.offsets) + s.offsets).max() < 1e-9:
                    s.offsets = -s.offsets
        polys = fp.get_polygons(True)
        data = write(fp, unit, precision)
        els = elements(data)
        rec.step(len(case["ops"]) + 1)
        if not attributes(rec, els, s, mult, what):
            return
        regular = True
        for k, e in enumerate(els):
            S, w, o = strip.dedup(s.points, s.widths[:, k], s.offsets[:, k])
            P = strip.offset_spine(S, o)
            got = arr(e["xy"])
            if s.corners[k] == "circular bend":
                Q = bent(P, s.bend_radius[k])
                ends = np.abs(got[[0, -1]] - P[[0, -1]] * mult).max() <= 0.75
                a, b = away(got / mult, Q), away(Q, got / mult)
                if not rec.expect(ends and max(a, b) <= 1.5 * s.tolerance + 1.5 / mult, lambda: "%s: centre line %s off by %.4g" % (what, got.tolist(), max(a, b))):
                    return
            else:
                if not rec.expect(got.shape == P.shape and np.abs(got - P * mult).max() <= 0.75, lambda: "%s: centre line %s, expected %s" % (
                        what, got.tolist(), (P * mult).tolist())):
                    return
            t = [math.atan2(b[1], b[0]) - math.atan2(a[1], a[0]) for a, b in zip(np.diff(P, axis=0), np.diff(P, axis=0)[1:])]
            if any(abs(math.remainder(x, 2 * math.pi)) > H + 1e-6 for x in t) and s.corners[k] == "natural":
                regular = False
            if not strip.regular(s.points, s.widths[:, k], s.offsets[:, k], s.corners[k], s.bend_radius[k]):
                regular = False
            if any(abs(x) > 0.1 for x in t) and s.corners[k] not in ("natural", "miter", "circular bend"):
                regular = False
            if len(P) != len(S):
                regular = False
        eps = 4 * s.tolerance + 4 / mult
        if regular:
            if not covers(rec, els, polys, mult, eps, what + ": polygons"):
                return
            rec.step()
        read_back(rec, data, els, s, mult, unit, precision, eps, regular and s.corners[0] != "miter", what)
        rec.expect(c19.same_result(polys, fp.get_polygons(True)), "writing changed the polygons")
        rec.state((case["wid"], case["corner"], str(case["end"]), [e["xy"] for e in els], [e["width"] for e in els]))


def gen_flex(tier):
    deep = tier == "thorough"
    turns = [(0,), (1, 2), (0, 2), (2, 1, 2), (0, 2, 0), (0, 2, 4), (8, 10), (1, 3, 4), (0, 0, 1)]
    for w in WID:
        for c in CORNERS:
            for e in ENDS:
                for d in turns:
                    yield dict(wid=w, corner=c, end=e, dirs=d, ops=[])
    for w in WID:
        for d in itertools.product(range(8), repeat=2):
            if (d[0] - d[1]) % 8 not in (3, 4, 5):
                yield dict(wid=w, corner="natural", end="tuple", dirs=d, ops=[], dup=True, u=1)
    for w in WID:
        for c in ("natural", "bend", "miter"):
            for e in ("extended", "tuple", ["round", "neg"]) if deep else ("tuple", ["round", "neg"]):
                for ops in [(o,) for o in MOVES] + list(itertools.product(MOVES if deep or c == "natural" else ("sc", "rot", "mirall", "tfa", "seg"), repeat=2)):
                    yield dict(wid=w, corner=c, end=e, dirs=(0, 2, 1), ops=list(ops), props=len(ops) == 1)
    if deep:
        for w in WID:
            for ops in itertools.product(MOVES, repeat=3):
                yield dict(wid=w, corner="natural", end=["extended", "tuple"], dirs=(2, 1), ops=list(ops))
            for d in itertools.product(range(8), repeat=3):
                if all((a - b) % 8 not in (3, 4, 5) for a, b in zip(d, d[1:])):
                    for c in ("natural", "bend"):
                        for e in ENDS:
                            yield dict(wid=w, corner=c, end=e, dirs=d, ops=[], u=sum(d) % 3)


# -------------------------------------------------------------------------------- RobustPath

class Rob(c20.State):
    props = ()

    def width_of(self, k):
        return self.secs[k][0].width(0.5)


RPATHS = {
    "one": dict(initial_point=(1, 2), width=1.5, ends="round", layer=4),
    "abs": dict(initial_point=(0, 0), width=1.5, ends=(1.5, 0.5), width_transform=False),
    "two": dict(initial_point=(0, 0), width=[1, 2], offset=3, ends=["extended", (1, -0.25)], layer=[1, 2], datatype=[3]),
    "off": dict(initial_point=(0, 0), width=1, offset=[2.5], ends="flush", width_transform=False),
}
RCMDS = ["seg", "up", "arc", "turnl", "turnr", "bez", "smooth1", "par"]
RMOVES = {k: c20.EDITS[k] for k in ("tr", "rot", "rot90", "sc", "sch", "tf", "tfa", "mir", "mirall", "lay")}
RMOVES["segw"] = c20.cmd("seg", "w")


def run_rob(case, rec):
    import gdspy

    unit, precision = UNITS[case.get("u", 0)]
    mult = unit / precision
    kw = dict(RPATHS[case["path"]], gdsii_path=True)
    what = "%s" % case
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rp, s = gdspy.RobustPath(**kw), Rob(kw)
        for c in case["cmds"]:
            if c[0].startswith("turn") and not s.secs[0]:
                return
            real, model = c20.cmd(*c)
            real(rp)
            model(s, rp)
        if case.get("props"):
            rp.properties = dict(PROPS)
            s.props = PROPS
        for e in case["ops"]:
            real, model = RMOVES[e]
            real(rp)
            model(s, rp)
        polys = rp.get_polygons(True)
        data = write(rp, unit, precision)
        els = elements(data)
        rec.step(len(case["ops"]) + len(case["cmds"]) + 1)
        if not attributes(rec, els, s, mult, what):
            return
        regular = c20.regular(s) is not None
        lim = 6 * s.tolerance + 1.5 / mult
        for k, e in enumerate(els):
            Q = c20.chain(s.secs[k], 0, s.tolerance)
            if Q is None:
                regular = False
                continue
            got = arr(e["xy"])
            a, b = away(got / mult, Q), away(Q, got / mult)
            # the normals of parametric sections come from numerical derivatives
            ends = np.abs(got[[0, -1]] - Q[[0, -1]] * mult).max() <= 0.75 + 0.3 * s.tolerance * mult
            if not rec.expect(ends and max(a, b) <= lim, lambda: "%s: centre line %s off by %.4g" % (what, got.tolist(), max(a, b))):
                return
            v = [strip.unit(y - x) for x, y in zip(got, got[1:]) if (y != x).any()]
            if any(x @ y < -1e-6 for x, y in zip(v, v[1:])):
                regular = False
        if regular:
            if not covers(rec, els, polys, mult, lim, what + ": polygons"):
                return
            rec.step()
        read_back(rec, data, els, s, mult, unit, precision, lim, regular, what)
        rec.expect(c19.same_result(polys, rp.get_polygons(True)), "writing changed the polygons")
        rec.state((case["path"], str(case["cmds"]), str(case["ops"])))


def gen_rob(tier):
    deep = tier == "thorough"
    for p in RPATHS:
        n = 2 if p == "two" else 1
        vs = [v for v in c20.VAR if c20.legal(v, n)]
        for c in RCMDS:
            for v in vs:
                for pre in ([], [("seg", "")]):
                    yield dict(path=p, cmds=pre + [(c, v)], ops=[], props=True)
        for c in itertools.product(RCMDS, repeat=3 if deep else 2):
            yield dict(path=p, cmds=[(x, "") for x in c], ops=[], u=1)
        for k in (1, 2) if not deep else (1, 2, 3):
            for ops in itertools.product(RMOVES, repeat=k):
                yield dict(path=p, cmds=[("seg", ""), ("up", "")], ops=list(ops))
                if k == 1 or deep and k == 2:
                    for c in RCMDS:
                        yield dict(path=p, cmds=[("seg", ""), (c, "")], ops=list(ops))


# ------------------------------------------------------------------ lists and long paths

LISTS = dict(corners=["natural", "circular bend", "miter", "circular bend"], ends=["flush", (1.5, 0.5), "round", (2, -0.25)],
             bend_radius=[2.5, 4, 1, 6], layer=[5, 1, 8, 3], datatype=[2, 0, 7, 1])


def run_lists(case, rec):
    """The elements of parallel paths are those of the single paths of the cycled values."""
    import gdspy

    n = case["n"]
    wid, off = [0.75, 1, 1.25, 0.5][:n], [-6.0, -1, 2, 5.5][:n]
    kw = {name: LISTS[name][:k] if k else LISTS[name][1] for name, k in zip(LISTS, case["lens"])}

    def make(w, o, kw):
        wt = case["wt"]
        if case["kind"] == "flex":
            p = gdspy.FlexPath([(0, 0), (40, 5), (55, 50), (100, 60)], w, o, gdsii_path=True, width_transform=wt, **kw)
        else:
            kw = {k: v for k, v in kw.items() if k not in ("corners", "bend_radius")}
            p = gdspy.RobustPath((0, 0), w, o, gdsii_path=True, width_transform=wt, **kw)
            p.segment((40, 5)).segment((15, 45), relative=True).arc(20, 2.5, 1.2)
        p.properties = dict(PROPS)
        return p.scale(2, (1, 0)) if case["scaled"] else p

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.step()
        got = elements(write(make(list(wid), list(off), kw), 1e-6, 1e-9))
        want = []
        for i in range(n):
            one = {name: (v[i % len(v)] if isinstance(v, list) else v) for name, v in kw.items()}
            want += elements(write(make(wid[i], [off[i]], one), 1e-6, 1e-9))
    for i, (a, b) in enumerate(zip(got, want)):
        bad = [k for k in b if a[k] != b[k] and (k != "xy" or len(a[k]) != len(b[k]) or np.abs(arr(a[k]) - b[k]).max() > 1)]
        if not rec.expect(not bad, lambda: "lists %r: path %d: %s %s, expected %s" % (kw, i, bad, [a[k] for k in bad], [b[k] for k in bad])):
            return
    rec.expect(len(got) == len(want), lambda: "lists %r: %d elements, expected %d" % (kw, len(got), len(want)))
    rec.state((n, str(case["lens"]), case["kind"], case["scaled"], case["wt"]))


def gen_lists(tier):
    for n in (1, 2, 3, 4):
        for lens in itertools.product((0, 1, 2, 3, 4), repeat=5):
            if max(lens) <= n + 1 and (tier == "thorough" or len([x for x in lens if x]) <= 1 or len(set(lens)) == 1):
                for kind, sc, wt in itertools.product(("flex", "rob"), (False, True), (False, True)):
                    yield dict(n=n, lens=list(lens), kind=kind, scaled=sc, wt=wt)


def run_long(case, rec):
    """Centre lines of more points than one XY record takes."""
    import gdspy

    n = case["n"]
    i = np.arange(n)
    pts = np.stack((i % 1024 * 0.25 + (i // 1024) * 0.125, i // 1024 + 0.5 * (i % 2)), 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.step()
        if case["kind"] == "flex":
            p = gdspy.FlexPath(pts, [0.01] * case["k"], [0.0] * case["k"], gdsii_path=True, layer=[1, 2], datatype=3)
        else:
            p = gdspy.RobustPath(pts[0], [0.01] * case["k"], [0.0] * case["k"], gdsii_path=True, layer=[1, 2], datatype=3)
            for q in pts[1:]:
                p.segment(q)
        p.properties = dict(PROPS)
        data = write(p, 1e-6, 1e-9)
        els = elements(data)
        want = np.round(pts * 1000)
        if not rec.expect(len(els) == case["k"], lambda: "%d elements" % len(els)):
            return
        for j, e in enumerate(els):
            g = arr(e["xy"])
            rec.expect(g.shape == want.shape and np.abs(g - want).max() <= 1, lambda: "%s of %d points: element %d has %d points" % (case["kind"], n, j, len(g)))
            rec.expect(e["props"] == PROPS and e["layer"] == (1, 2)[j] and e["type"] == 3, "layer, type, properties")
        lib = gdspy.GdsLibrary(infile=io.BytesIO(data))
        for p in lib.cells["C"].paths:
            rec.expect(p.points.shape == want.shape and np.abs(p.points * 1000 - want).max() <= 1.001, lambda: "%d points read, expected %d" % (len(p.points), n))
        rec.expect(len(lib.cells["C"].paths) == case["k"], "number of paths read")
    rec.state(str(case))


def gen_long(tier):
    for n in (8190, 8191, 8192, 8193, 16382, 16383) + ((24573, 24574, 40000, 65537) if tier == "thorough" else (24574,)):
        for k in (1, 2):
            yield dict(n=n, k=k, kind="flex")
        if n < 8194 or tier == "thorough":
            yield dict(n=n, k=1, kind="rob")


def groups(tier):
    deep = tier == "thorough"
    return [
        Group("lists", lambda: gen_lists(tier), run_lists,
              "1 to 4 parallel paths x all lengths of the lists of corners, ends, radii, layers and datatypes"),
        Group("long", lambda: gen_long(tier), run_long, "numbers of points about the multiples of the size of one record"),
        Group("flexpath", lambda: gen_flex(tier), run_flex,
              "%d kinds of widths and offsets x %d corners x %d ends x spines of up to 3 sections, all sequences of up to %d of %d edits, 3 units" % (
                  len(WID), len(CORNERS), len(ENDS), 3 if deep else 2, len(MOVES))),
        Group("robustpath", lambda: gen_rob(tier), run_rob,
              "%d paths, all sequences of %d commands up to depth %d, all sequences of up to %d of %d edits" % (
                  len(RPATHS), len(RCMDS), 3 if deep else 2, 3 if deep else 2, len(RMOVES))),
    ]
