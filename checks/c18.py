"""C18: FlexPath construction commands and polygons against the strips they describe."""
import itertools
import math
import warnings

import numpy as np

from mc import geo, hobby as hb, strip
from mc.engine import Group

PI, H = math.pi, math.pi / 2
TOL = 1e-8


def arr(x):
    return np.asarray(x, dtype=float)


def as_list(v, n):
    return [float(x) for x in v] if isinstance(v, (list, tuple)) else [float(v)] * n


# --------------------------------------------------------------------------------------
# construction: the vertices of the spine, widths and offsets

class M:
    def __init__(self, p, w, o, gdsii):
        self.p, self.w, self.o, self.gdsii = arr(p), list(w), list(o), gdsii
        self.v = None      # last chord, for turn
        self.n = len(w)

    def target(self, width, offset):
        w = self.w if width is None or self.gdsii else as_list(width, self.n)
        if offset is None:
            o = self.o
        elif isinstance(offset, (list, tuple)):
            o = [float(x) for x in offset]
        else:
            o = [x + offset for x in self.o]
        return w, o


def check_ramp(rec, name, new, m, w1, o1, W, O):
    """Widths and offsets go in equal steps from the previous to the commanded ones."""
    k = len(new)
    u = np.arange(1, k + 1)[:, None] / k
    for what, a, b, got in (("widths", m.w, w1, W), ("offsets", m.o, o1, O)):
        exp = arr(a)[None, :] * (1 - u) + arr(b)[None, :] * u
        if not rec.expect(np.shape(got) == exp.shape and np.abs(got - exp).max() < 1e-9,
                          lambda: "%s: %s %s, expected %s" % (name, what, np.asarray(got).tolist(), exp.tolist())):
            return False
    return True


def on_curve(rec, name, prev, new, f, inv, tol, lim):
    """New vertices on the curve, in order, with short enough chords, up to its end."""
    us = [0.0]
    for p in new:
        u = inv(arr(p), us[-1], 1.0)
        if not rec.expect(u is not None and u >= us[-1] - 1e-9,
                          lambda: "%s: vertex %s is not on the curve after u=%.6g" % (name, p, us[-1])):
            return False
        us.append(u)
    if not rec.expect(abs(us[-1] - 1) < 1e-6 or np.hypot(*(arr(f(1)) - new[-1])) < 1e-9,
                      lambda: "%s: ends at u=%.9g" % (name, us[-1])):
        return False
    for i in range(len(new)):
        a, b = arr(prev) if i == 0 else arr(new[i - 1]), arr(new[i])
        ts = np.linspace(us[i], us[i + 1], 9)[1:-1]
        seg = [(a[0], a[1], b[0], b[1])]
        e = max(geo.dist_segments(np.array([q[0]]), np.array([q[1]]), seg)[0] for q in (arr(f(t)) for t in ts))
        if not rec.expect(e <= lim * tol, lambda: "%s: chord %s-%s is off the curve by %.4g, tolerance %g" % (
                name, a, b, e, tol)):
            return False
    return True


def newton(f):
    from checks.c17 import newton_inverse
    return newton_inverse(lambda u: arr(f(u)))


def kwargs(width, offset):
    k = {}
    if width is not None:
        k["width"] = width
    if offset is not None:
        k["offset"] = offset
    return k


def single(kind, f, inv, lim, call):
    """A section on one curve."""
    def go(fp, m, rec, name, width=None, offset=None):
        k0 = len(fp.points)
        prev = m.p
        c, ci = f(m), inv
        call(fp, m, **kwargs(width, offset))
        new = fp.points[k0:]
        w1, o1 = m.target(width, offset)
        if not rec.expect(len(new) > 0, lambda: "%s added nothing" % name):
            return False
        if not (on_curve(rec, name, prev, new, c, ci(m, c), fp.tolerance, lim)
                and check_ramp(rec, name, new, m, w1, o1, fp.widths[k0:], fp.offsets[k0:])):
            return False
        m.w, m.o = list(w1), list(o1)
        m.p = arr(c(1))
        m.v = fp.points[-1] - fp.points[-2]
        return True
    return go


def lininv(m, c):
    a, b = arr(c(0)), arr(c(1))
    def inv(p, lo, hi):
        if not (a - b).any():
            return 1.0 if np.hypot(*(p - a)) < TOL else None
        u = float((p - a) @ (b - a) / ((b - a) @ (b - a)))
        return u if np.hypot(*(arr(c(u)) - p)) < TOL else None
    return inv


def seg(p, rel):
    def f(m):
        a = m.p
        b = a + p if rel else arr(p)
        return lambda u: a + (b - a) * u
    def one(fp, m, rec, name, width=None, offset=None):
        k0 = len(fp.points)
        ok = core(fp, m, rec, name, width, offset)
        return ok and rec.expect(len(fp.points) == k0 + 1, lambda: "%s added %d points" % (name, len(fp.points) - k0))
    core = single("segment", f, lininv, 1e-6,
                  lambda fp, m, **k: fp.segment(p, relative=rel, **k) if rel else fp.segment(p, **k))
    return one


def arc_curve(p, r, a0, a1):
    c = p - r * arr((math.cos(a0), math.sin(a0)))
    return lambda u: c + r * arr((math.cos(a0 + (a1 - a0) * u), math.sin(a0 + (a1 - a0) * u)))


def arcinv(r, a0, a1):
    def make(m, c):
        ctr = arr(c(0)) - r * arr((math.cos(a0), math.sin(a0)))
        per = 2 * PI / abs(a1 - a0)
        def inv(p, lo, hi):
            q = p - ctr
            u = (math.atan2(q[1], q[0]) - a0) / (a1 - a0)
            u += per * math.ceil((lo - 1e-9 - u) / per)
            return u if u <= hi + 1e-9 and np.hypot(*(arr(c(u)) - p)) < TOL else None
        return inv
    return make


def borders(r, ccw, core):
    """The arcs of the borders of all paths are within tolerance as well."""
    def go(fp, m, rec, name, width=None, offset=None):
        k0 = len(fp.points)
        w0, o0 = m.w, m.o
        if not core(fp, m, rec, name, width, offset):
            return False
        # left offsets (positive) are on the inner side of ccw arcs
        rad = max(abs(r - o if ccw else r + o) + abs(w) / 2 for w, o in zip(list(w0) + list(m.w), list(o0) + list(m.o)))
        chord = np.hypot(*np.diff(fp.points[k0 - 1:], axis=0).T).max()
        e = rad * (1 - math.cos(math.asin(min(1, chord / 2 / r))))
        # the number of chords, 2 or more, is rounded
        return rec.expect(e <= 1.6 * fp.tolerance, lambda: "%s: border at radius %g off by %.4g, tolerance %g" % (
            name, rad, e, fp.tolerance))
    return go


def arc(r, a0, a1):
    return borders(r, a1 > a0, single(
        "arc", lambda m: arc_curve(m.p, r, a0, a1), arcinv(r, a0, a1), 2.3,
        lambda fp, m, **k: fp.arc(r, a0, a1, **k)))


def turn(r, ang):
    a = {"l": H, "ll": PI, "r": -H, "rr": -PI}.get(ang, ang)

    def go(fp, m, rec, name, width=None, offset=None):
        if m.v is None:
            try:
                fp.turn(r, ang, **kwargs(width, offset))
            except ValueError:
                return True
            rec.fail("%s: turn without a direction is accepted" % name)
            return False
        a0 = math.atan2(m.v[1], m.v[0]) + (H if a < 0 else -H)
        return borders(r, a > 0, single(
            "turn", lambda m: arc_curve(m.p, r, a0, a0 + a), arcinv(r, a0, a0 + a), 2.3,
            lambda fp, m, **k: fp.turn(r, ang, **k)))(fp, m, rec, name, width, offset)
    return go


def param(f, rel):
    def curve(m):
        p = m.p
        return lambda u: p + arr(f(u))

    def call(fp, m, **k):
        p = m.p
        if rel:
            fp.parametric(lambda u: np.array(f(u)), **k)
        else:
            fp.parametric(lambda u: p + np.array(f(u)), relative=False, **k)
    return single("parametric", curve, lambda m, c: newton(c), 1.2, call)


def bez(pts, rel):
    def curve(m):
        ctrl = [m.p] + [arr(p) + (m.p if rel else 0) for p in pts]
        return hb.bezier(ctrl)[0]
    return single("bezier", curve, lambda m, c: newton(c), 1.2,
                  lambda fp, m, **k: fp.bezier(pts, relative=rel, **k))


def smooth(pts, rel=True, **kw):
    def go(fp, m, rec, name, width=None, offset=None):
        if offset is not None and not isinstance(offset, list) and len(pts) + kw.get("cycle", False) > 1:
            offset = [x + offset for x in m.o]     # scalar offsets add up per section
        k0 = len(fp.points)
        full = [m.p] + [arr(p) + (m.p if rel else 0) for p in pts]
        ring = full + (full[:1] if kw.get("cycle") else [])
        if any(np.hypot(*(arr(a) - b)) < 1e-9 for a, b in zip(ring, ring[1:])):
            return False    # knots without distance
        ctl = hb.hobby(full, **kw)
        if np.abs(np.array(ctl) - np.array(hb.hobby(full, reduce=False, **kw))).max() > 1e-9:
            return False    # angles more than half a turn from the chord: known finding of C26
        fp.smooth(pts, relative=rel, **kw, **kwargs(width, offset))
        stops = full[1:] + ([full[0]] if kw.get("cycle") else [])
        w1, o1 = m.target(width, offset)
        prev = m.p
        for i, (e, (a, b)) in enumerate(zip(stops, ctl)):
            z = full[i]
            c = hb.bezier([z, (a.real, a.imag), (b.real, b.imag), e])[0]
            inv = newton(c)
            k1 = k0
            while k1 < len(fp.points) and np.hypot(*(fp.points[k1] - e)) > 1e-9:
                k1 += 1
            k1 += 1
            if not rec.expect(k1 <= len(fp.points), lambda: "%s does not pass through %s" % (name, e)):
                return False
            new = fp.points[k0:k1]
            if not (on_curve(rec, "%s section %d" % (name, i), prev, new, c, inv, fp.tolerance, 1.2)
                    and check_ramp(rec, "%s section %d" % (name, i), new, m, w1, o1, fp.widths[k0:k1], fp.offsets[k0:k1])):
                return False
            m.w, m.o = list(w1), list(o1)
            prev, k0 = arr(e), k1
        rec.expect(k0 == len(fp.points), lambda: "%s: %d points too many" % (name, len(fp.points) - k0))
        m.p = prev
        m.v = fp.points[-1] - fp.points[-2]
        return True
    return go


BASE = {
    "seg": seg((12, 0), True), "segd": seg((5, 9), True), "segabs": seg((-20, 7), False),
    "arcl": arc(10, -H, 0.3), "arcr": arc(10, H, -1.1), "arcfull": arc(15, 0.25, 0.25 + 2 * PI), "arcbig": arc(90, 2, 1),
    "l": turn(9, "l"), "r": turn(9, "r"), "ll": turn(9, "ll"), "rr": turn(9, "rr"), "t.5": turn(9, 0.5), "t-2": turn(9, -2.0),
    "par": param(lambda u: (8 * u, 4 * u * u), True), "par2": param(lambda u: (-6 * u, 5 * math.sin(2 * u)), True),
    "parabs": param(lambda u: (8 * u, -4 * u * u), False), "line": param(lambda u: (0, -5 * u), True),
    "bez2": bez([(4, 1), (6, 5)], True), "bez3": bez([(0, 5), (6, 5), (6, -1)], True),
    "bez4": bez([(3, 0), (0, 4), (-5, 5), (-6, 8)], True), "bezabs": bez([(9, 1), (4, 9)], False),
    "sm1": smooth([(9, 3)]), "sm2": smooth([(8, 0), (8, 8)]), "smabs": smooth([(20, 1), (4, 19)], False),
    "smang": smooth([(9, 3), (15, 3)], angles=[0.5, None, -0.5]), "smcyc": smooth([(9, 0), (9, 9), (0, 9)], cycle=True),
    "smcycabs": smooth([(9, 1), (12, 10), (-1, 9)], False, cycle=True),
    "smangabs": smooth([(19, 3), (25, -9)], False, angles=[0.5, None, -0.5], t_in=[1.5, 1, 2]),
    "bez4abs": bez([(13, 0), (10, 24), (-5, 15), (-6, 18)], False),
    "small": smooth([(9, 0), (9, 9)], curl_start=0.5, curl_end=2, t_in=1.5, t_out=[1, 2, 1.25]),
}
# name -> (width, offset) by number of parallel paths
RAMPS = {
    "": {1: (None, None), 2: (None, None), 3: (None, None)},
    "w": {1: (2, None), 2: (0.5, None), 3: (2, None)},
    "W": {1: ([3], None), 2: ([1, 2], None), 3: ([1, 2, 0.5], None)},
    "o": {1: (None, 1.5), 2: (None, -0.5), 3: (None, 1)},
    "O": {1: (None, [2]), 2: (None, [-2, 3]), 3: (None, [-3, 0.5, 4])},
    "wo": {1: (0.5, -1), 2: (2, 1), 3: (1.5, 0.25)},
    # zeros are values like any other
    "w0": {1: (0, None), 2: (0, None), 3: (0, None)},
    "W0": {1: ([0], None), 2: ([0, 2], None), 3: ([2, 0, 0], None)},
    "o0": {1: (None, 0), 2: (None, 0.0), 3: (1, 0)},
    "O0": {1: (None, [0]), 2: (None, [0, 0]), 3: (None, [0, 0.5, 0])},
    "w0O0": {1: (0, [0.0]), 2: ([0, 0], [-3, 0]), 3: (0, [0, 2.0, 0])},
    # an outer border much longer than the spine
    "big": {1: ([18], [-15.0]), 2: ([2, 20], [-15.0, 15]), 3: ([1, 9, 18], [-20.0, 0, 20])},
    "WO": {1: ([1.5], [-1.0]), 2: ([2, 1], [-3.0, 1]), 3: ([1, 1, 2], [-2.0, 0, 2])},
}
CONFIGS = [
    dict(points=[(1, 2)], width=1),
    dict(points=[(0, 0), (-7, 4)], width=1, offset=3),
    dict(points=[(0, 0), (6, 0)], width=[1, 2], offset=3),
    dict(points=(2, -1), width=[1.5, 0.5], offset=[-2, 1]),
    dict(points=[(0, 0), (0, 8), (5, 8)], width=1, offset=[-2, 0, 3]),
    dict(points=[(1, 2)], width=[1, 1], offset=2, gdsii_path=True),
    dict(points=[(1, 2)], width=1, tolerance=1e-4),
    dict(points=[(1, 2)], width=1, offset=[-15]),
    dict(points=[(1, 2), (9, 2)], width=[12, 1], offset=[1, 20]),
]


def run_build(case, rec):
    import gdspy

    cfg = CONFIGS[case["cfg"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fp = gdspy.FlexPath(**cfg)
        n = max(len(cfg[k]) if isinstance(cfg.get(k), list) else 1 for k in ("width", "offset"))
        pts = arr(cfg["points"]).reshape(-1, 2)
        off = cfg.get("offset", 0)
        w0 = as_list(cfg["width"], n)
        o0 = as_list(off, n) if isinstance(off, list) else (
            [off] if n == 1 else [(i - (n - 1) / 2) * off for i in range(n)])
        rec.expect(fp.n == n and fp.points.shape == pts.shape and np.abs(fp.points - pts).max() == 0
                   and fp.widths.shape == fp.offsets.shape == (len(pts), n)
                   and np.abs(fp.widths - w0).max() < 1e-12 and np.abs(fp.offsets - o0).max() < 1e-12,
                   lambda: "initial %s %s %s" % (fp.points.tolist(), fp.widths.tolist(), fp.offsets.tolist()))
        m = M(pts[-1], w0, o0, cfg.get("gdsii_path", False))
        if len(pts) > 1:
            m.v = pts[-1] - pts[-2]
        for cmd, ramp in case["cmds"]:
            rec.step()
            k0 = len(fp.points)
            old = [np.array(x) for x in (fp.points, fp.widths, fp.offsets)]
            width, offset = RAMPS[ramp][n]
            if not BASE[cmd](fp, m, rec, cmd + ramp, width, offset):
                return
            if not rec.expect(len(fp.points) == len(fp.widths) == len(fp.offsets), "lengths differ"):
                return
            for a, b in zip(old, (fp.points, fp.widths, fp.offsets)):
                rec.expect(np.abs(a - b[:k0]).max() == 0, lambda: "%s changed previous sections" % cmd)
        rec.state((np.round(fp.points, 6).tolist(), np.round(fp.widths, 6).tolist(), np.round(fp.offsets, 6).tolist()))
        if case.get("poly") and len(fp.points) > 1:
            kk = n - 1
            cover(rec, fp, [kk], fp.get_polygons(True), "after construction")


# --------------------------------------------------------------------------------------
# polygons

def region(fp, k):
    S, w, o = strip.dedup(fp.points, fp.widths[:, k], fp.offsets[:, k])
    return strip.strip(strip.offset_spine(S, o), w, fp.corners[k], fp.ends[k], fp.bend_radius[k])


def cover(rec, fp, ks, polys, what, eps=None):
    """The polygons by layer cover the strips of the paths on them."""
    keys = {}
    for k in range(fp.n):
        keys.setdefault((fp.layers[k], fp.datatypes[k]), []).append(k)
    if not rec.expect(set(polys) == set(keys), lambda: "%s: keys %s, expected %s" % (what, sorted(polys), sorted(keys))):
        return False
    for key, mem in keys.items():
        if not set(mem) & set(ks):
            continue
        want = [p for k in mem for p in region(fp, k)]
        if fp.max_points > 4:
            if not rec.expect(all(len(p) <= fp.max_points for p in polys[key]),
                              lambda: "%s: pieces of %s points" % (what, [len(p) for p in polys[key]])):
                return False
        else:
            if not rec.expect(len(polys[key]) == len(mem), lambda: "%s: %d polygons" % (what, len(polys[key]))):
                return False
        why = geo.check_cover(polys[key], want, lambda x, y: geo.covered(want, x, y, "nonzero"),
                              eps or 4 * fp.tolerance, "nonzero", overlap=False)
        if not rec.expect(not why, lambda: "%s: %s: %s" % (what, key, why)):
            return False
    return True


def chords(rec, polys, tol):
    """Edges between two points of an ideal arc are within tolerance of it."""
    for c, r, span in strip.LOG:
        if r <= 2 * tol or span == 0:
            continue
        for p in polys:
            q = np.roll(p, -1, axis=0)
            on = (np.abs(np.hypot(*(p - c).T) - r) < 1e-9) & (np.abs(np.hypot(*(q - c).T) - r) < 1e-9)
            on &= np.hypot(*(q - p).T) < 0.9 * r
            if not on.any():
                continue
            e = r - np.hypot(*((p + q)[on] / 2 - c).T)
            # the number of equal chords is rounded
            n = np.maximum(1, np.round(span / (2 * np.arccos(1 - np.minimum(e, r) / r + 1e-15))))
            bad = e > tol * 1.01 * ((n + 0.5) / n) ** 2 + 1e-12
            if not rec.expect(not bad.any(), lambda: "arc of radius %g around %s off by %.4g, tolerance %g" % (
                    r, c, e.max(), tol)):
                return False
    return True


def cap(p0, v0, p1, v1):
    """Pointed end cap; the vectors leave and enter the path."""
    m = (p0 + p1) / 2 + 0.75 * np.hypot(*(p1 - p0)) * v0 / np.hypot(*v0)
    return [p0, m, p1 - 0.25 * v1 / np.hypot(*v1), p1]


def elbow(p0, v0, p1, v1, c, w):
    """Corner through the centre line of the bevel, moved out a little; on the inner side
    the intersection."""
    m = strip.meet(p0, v0, p1, v1)
    if m is not None and m[0] <= 0:
        return [p0 + m[0] * v0]
    q = (p0 + p1) / 2
    d = q - c
    L = np.hypot(*d)
    return [p0, c + d / L * 0.6 * w if L > 1e-9 else q, p1]


CORNERS = {"natural": "natural", "miter": "miter", "bevel": "bevel", "round": "round", "smooth": "smooth",
           "bend": "circular bend", "elbow": elbow}
ENDS = {"flush": "flush", "round": "round", "extended": "extended", "smooth": "smooth", "tuple": (1.5, 0.5),
        "neg": (-0.5, 2), "cap": cap}
DIRS = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1),
        (1, 0.03), (1, -0.04), (1.2, 0.4)]
WID = {
    "one": (dict(width=1.5), {}),
    "off": (dict(width=1, offset=[1.5]), {}),
    "two": (dict(width=[1, 1.5], offset=4, layer=[1, 2], datatype=[3]), {}),
    "taper": (dict(width=1), {0: (2, None), 2: (0.5, None)}),
    "shift": (dict(width=[1, 2], offset=[-1, 2.5], layer=[1, 2]), {0: ([2, 1], [1, 4.0]), 1: (None, -1.5)}),
    "thin": (dict(width=0.001, offset=[0, 3]), {1: (0, None)}),
}


def make(case):
    import gdspy

    kw, ramps = WID[case["wid"]]
    kw = dict(kw)
    kw["corners"] = CORNERS[case["corner"]] if isinstance(case["corner"], str) else [CORNERS[c] for c in case["corner"]]
    kw["ends"] = ENDS[case["end"]] if isinstance(case["end"], str) else [ENDS[c] for c in case["end"]]
    if "bend" in case["corner"]:
        kw["bend_radius"] = case.get("R", 2.25)
    kw.update(case.get("kw", {}))
    p = np.array((0.5, -1.0))
    kw.update(case.get("base", {}))
    ramps = case.get("ramps", ramps)
    L = case["L"] if "L" in case else 24 if "bend" in case["corner"] else 14
    steps = []
    for d in case["dirs"]:
        steps.append(np.array(DIRS[d]) * L)
    if not ramps:
        pts = [p]
        for i, s in enumerate(steps):
            pts.append(pts[-1] + s)
            if case.get("dup"):
                pts.append(pts[-1])
        return gdspy.FlexPath(pts, **kw)
    fp = gdspy.FlexPath([p], **kw)
    for i, s in enumerate(steps):
        w, o = ramps.get(i, (None, None))
        fp.segment(s, width=w, offset=o, relative=True)
        if case.get("dup"):
            fp.segment((0, 0), relative=True)
    return fp


def run_poly(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fp = make(case)
        rec.step()
        polys = fp.get_polygons(True)
        eps = case.get("eps")
        arcs = strip.ARC
        strip.ARC = case.get("arcs", arcs)
        del strip.LOG[:]
        try:
            if not cover(rec, fp, range(fp.n), polys, "polygons", eps):
                return
            if not chords(rec, [p for v in polys.values() for p in v], fp.tolerance):
                return
        finally:
            strip.ARC = arcs
        flat = fp.get_polygons()
        rec.expect(geo.match_polygons(flat, [p for v in polys.values() for p in v]) is None,
                   "get_polygons() and get_polygons(True) differ")
        rec.state((case["wid"], str(case["corner"]), str(case["end"]), [np.round(p, 5).tolist() for p in flat]))


def spines(k, firsts=(0, 1)):
    for d in firsts:
        for rest in itertools.product(range(8), repeat=k - 1):
            s = (d,) + rest
            if all((b - a) % 8 != 4 for a, b in zip(s, s[1:])):
                yield list(s)


def ok_neg(wid, end):
    return not (end == "neg" and wid in ("taper", "shift", "thin"))


def ok_corner(wid, corner):
    return not (corner == "bend" and wid in ("taper", "shift", "thin"))


def gen_corners(tier):
    deep = tier == "thorough"
    for c, w in itertools.product(CORNERS, WID):
        if not ok_corner(w, c):
            continue
        for k in (2, 3):
            for s in spines(k, (0, 1) if deep or k == 2 else (1,)):
                yield dict(dirs=s, wid=w, corner=c, end="flush")
    if deep:
        for c, w in itertools.product(CORNERS, ("two", "shift")):
            if ok_corner(w, c):
                for s in spines(4, (0,)):
                    yield dict(dirs=s, wid=w, corner=c, end="flush")


def gen_ends(tier):
    for e, w in itertools.product(ENDS, WID):
        if not ok_neg(w, e):
            continue
        for s in spines(1, range(8)):
            for dup in (False, True):
                yield dict(dirs=s, wid=w, corner="natural", end=e, dup=dup)
        for s in spines(2, range(8) if tier == "thorough" else (0, 3)):
            yield dict(dirs=s, wid=w, corner="natural", end=e)
    for e, c in itertools.product(ENDS, CORNERS):
        for w in ("two", "taper"):
            if ok_neg(w, e) and ok_corner(w, c):
                for s in spines(3, (2,)) if tier == "thorough" else ([2, 3, 1], [5, 3, 0]):
                    yield dict(dirs=s, wid=w, corner=c, end=e)


def gen_special(tier):
    # slight turns
    for c, w in itertools.product(CORNERS, WID):
        if ok_corner(w, c):
            for t in itertools.product((0, 8, 9, 10), repeat=3):
                yield dict(dirs=list(t), wid=w, corner=c, end="flush")
    for c, w in itertools.product(CORNERS, WID):
        if not ok_corner(w, c):
            continue
        for s in ([0, 2, 3], [1, 2, 0], [6, 5, 7], [0, 0, 1], [3, 5, 3]):
            yield dict(dirs=s, wid=w, corner=c, end="round", dup=True)
            for mp in (5, 8, 13):
                yield dict(dirs=s, wid=w, corner=c, end="round", kw=dict(max_points=mp))
            yield dict(dirs=s, wid=w, corner=c, end="round", kw=dict(max_points=0, tolerance=1e-3))
            yield dict(dirs=s, wid=w, corner=c, end="smooth", kw=dict(max_points=199, tolerance=0.1))
    # several joins and ends at once, paths sharing a layer
    for c in itertools.product(("natural", "round", "bend"), repeat=2):
        for e in itertools.product(("flush", "round", "tuple"), repeat=2):
            for ly in ([1, 1], [1, 2], [0]):
                yield dict(dirs=[0, 1, 7], wid="two", corner=list(c), end=list(e), R=[2, 3.5],
                           kw=dict(layer=ly, datatype=4))
    # several pieces of several paths on one layer, with any precision of the cuts
    for c, e, ly, mp, pr in itertools.product(("natural", "round", "bend"), ("flush", "round"), ([1], [1, 2], [2, 1, 1]),
                                              (6, 20), (1e-3, 1e-6)):
        for d in ([0, 1, 7], [3], [1, 3, 2]):
            if mp == 6 or e == "round" or c != "natural":
                yield dict(dirs=d, wid="two", corner=c, end=e,
                           kw=dict(width=[1, 1.5, 1], offset=5, layer=ly, datatype=0, max_points=mp, precision=pr,
                                   tolerance=1e-3 if mp == 20 else 0.01))
    # cuts at the given precision
    for c, d in itertools.product(("natural", "miter", "bevel"), ([0, 1, 7], [3], [1, 3, 2], [8, 0, 9])):
        for w in ("one", "off", "two", "taper")[:3 if 8 in d else 4]:
            yield dict(dirs=d, wid=w, corner=c, end="tuple", L=13.1234567, eps=1e-5,
                       kw=dict(max_points=5, precision=1e-7))
    # tolerance of the outer borders and of the wider ends
    for d in ([0, 1], [0, 2], [1, 0], [3, 1, 2]):
        for w, q in ((4.3, 2.25), (1, 0.6), (6, 4)):
            yield dict(dirs=d, wid="one", corner="bend", end="flush", R=q, base=dict(width=w, tolerance=1e-3), arcs=1200,
                       eps=2.7e-3)
        for c, rp in itertools.product(("round", "natural"), ({0: (6, None)}, {1: (0.25, None)}, {0: (0, None), 1: (5, None)})):
            if c == "round" and (rp.get(0, (0,))[0] or len(d) > 2):
                continue    # joins of borders that are not parallel
            yield dict(dirs=d, wid="one", corner=c, end="round", base=dict(width=0.5, tolerance=1e-3), ramps=rp, arcs=1200,
                       eps=2.7e-3)
    for d in range(8):
        for a, b in ((0.25, 6), (6, 0.25), (4, 0)):
            yield dict(dirs=[d], wid="one", corner="natural", end="round", base=dict(width=a, tolerance=1e-3),
                       ramps={0: (b, None)}, arcs=1200, eps=2.7e-3)
    # radii below the tolerance
    for c, e in itertools.product(CORNERS, ENDS):
        if e != "neg":
            yield dict(dirs=[0, 2, 1], wid="one", corner=c, end=e, R=0.01, kw=dict(width=0.015, tolerance=0.1), eps=0.2)


def gen_build(tier):
    deep = tier == "thorough"
    for cfg in range(len(CONFIGS)):
        for c, r in itertools.product(BASE, RAMPS):
            yield dict(cfg=cfg, cmds=[[c, r]], poly=cfg < 7 and r != "big" and c in ("seg", "segd") or cfg == 0 and r in ("", "w") and c in ("par", "bez2", "sm1"))
    names = list(BASE)
    for cfg in (range(len(CONFIGS)) if deep else (2, 4)):
        for i, (a, b) in enumerate(itertools.product(names, names)):
            rs = list(RAMPS)
            if deep:
                for r in (("", "W"), ("WO", "o"), ("wo", ""), ("O", "WO"), ("w0", ""), ("W", "O0"), ("w0O0", "w")):
                    yield dict(cfg=cfg, cmds=[[a, r[0]], [b, r[1]]])
            else:
                yield dict(cfg=cfg, cmds=[[a, rs[(i + cfg) % 11]], [b, rs[(i // 11 + cfg) % len(rs)]]])
    some = ["segd", "segabs", "arcr", "l", "t-2", "parabs", "bez3", "sm2"]
    for cfg in ((0, 3) if deep else (3,)):
        for t in itertools.product(some if deep else some[::2] + ["t-2"], repeat=3):
            for r in (("W", "", "o"), ("WO", "wo", "")):
                yield dict(cfg=cfg, cmds=[[c, q] for c, q in zip(t, r)])


LISTS = dict(corners=["natural", "circular bend", "round", "bevel"], ends=["flush", (1.5, 0.5), "round", "extended"],
             bend_radius=[2.5, 4, 1, 6], layer=[5, 1, 8, 3], datatype=[2, 0, 7, 1])


def run_lists(case, rec):
    """Parallel paths given lists of any lengths are the single paths of the cycled values."""
    import gdspy

    n = case["n"]
    wid, off = [0.75, 1, 1.25, 0.5][:n], [-6.0, -1, 2, 5.5][:n]
    kw = {}
    for name, k in zip(LISTS, case["lens"]):
        kw[name] = LISTS[name][:k] if k else LISTS[name][1]
    pts = [(0, 0), (40, 5), (55, 50), (100, 60)]
    # with a bend on every path when the corners are not in question
    if not case["lens"][0]:
        kw["corners"] = "circular bend"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.step()
        got = gdspy.FlexPath(pts, list(wid), list(off), **kw).get_polygons(True)
        want = {}
        for i in range(n):
            one = {name: (v[i % len(v)] if isinstance(v, list) else v) for name, v in kw.items()}
            for key, ps in gdspy.FlexPath(pts, wid[i], [off[i]], **one).get_polygons(True).items():
                want.setdefault(key, []).extend(ps)
    if not rec.expect(set(got) == set(want), lambda: "lists %r: keys %s, expected %s" % (kw, sorted(got), sorted(want))):
        return
    for key in want:
        why = geo.match_polygons(got[key], want[key])
        if not rec.expect(why is None, lambda: "lists %r: paths on %s differ from the single paths: %s" % (kw, key, why)):
            return
    rec.state((n, case["lens"]))


def gen_lists(tier):
    for n in (1, 2, 3, 4):
        for lens in itertools.product((0, 1, 2, 3, 4), repeat=5):
            if max(lens) <= n + 1 and (tier == "thorough" or len([x for x in lens if x]) <= 2 or len(set(lens)) == 1):
                yield dict(n=n, lens=list(lens))


def groups(tier):
    return [
        Group("lists", lambda: gen_lists(tier), run_lists,
              "1 to 4 parallel paths x all lengths of the lists of corners, ends, radii, layers and datatypes"),
        Group("build", lambda: gen_build(tier), run_build,
              "all commands x 12 width/offset arguments (zeros included) x 7 initial paths, all pairs, selected triples"),
        Group("corners", lambda: gen_corners(tier), run_poly,
              "8-direction spines of 2 and 3 sections (4 thorough) x 7 corners x 6 width profiles"),
        Group("ends", lambda: gen_ends(tier), run_poly, "spines of 1 and 2 sections x 7 ends x 6 width profiles, x corners"),
        Group("special", lambda: gen_special(tier), run_poly,
              "repeated points, fracture limits, tolerances, mixed joins and ends, shared layers, tiny radii"),
    ]
