"""C20: RobustPath: sections, polygons, and any order of edits, transformations and queries."""
import itertools
import math
import warnings

import numpy as np

from checks.c19 import QUERIES, query, same_result, check_queries
from checks import c19
from checks.c18 import chords
from mc import geo, hobby as hb, strip
from mc.engine import Group

H = math.pi / 2
GRID = 48


def arr(x):
    return np.array(x, dtype=float)


def diff(f, u, h=1e-4):
    """Derivative within [0, 1], second order also at the ends."""
    if u < h:
        return (-3 * f(u) + 4 * f(u + h) - f(u + 2 * h)) / (2 * h)
    if u > 1 - h:
        return (3 * f(u) - 4 * f(u - h) + f(u - 2 * h)) / (2 * h)
    return (f(u + h) - f(u - h)) / (2 * h)


def memo(f):
    known = {}

    def g(u):
        if u not in known:
            known[u] = f(u)
        return known[u]
    return g


class Sec:
    """One section of one path: spine, offset and width functions, and the map applied since."""

    def __init__(self, f, off, wid):
        self.f, self.off, self.wid = memo(f), off, wid
        self.centre = memo(self.raw_centre)
        self.A, self.b = np.eye(2), np.zeros(2)
        self.flip = False
        self.either = False     # the sides have been exchanged by a reflection
        self.ws = 1.0

    def raw_centre(self, u):
        o = self.off(u)
        if o == 0:
            return self.f(u)
        return self.f(u) - o * strip.left(strip.unit(diff(self.f, u)))

    def raw(self, u, side):
        """side: 1 = left border."""
        c = self.centre(u)
        if side == 0:
            return c
        return c + side * self.wid(u) * self.ws / 2 * strip.left(strip.unit(diff(self.centre, u)))

    def __call__(self, u, side):
        return self.A @ self.raw(u, -side if self.flip else side) + self.b

    def grad(self, u, side):
        s = -side if self.flip else side
        return self.A @ diff(lambda t: self.raw(t, s), u, 1e-3)

    def width(self, u):
        return abs(self.wid(u)) * self.ws * math.sqrt(abs(np.linalg.det(self.A)))

    def line(self, side):
        return np.array([self(u, side) for u in np.linspace(0, 1, GRID + 1)])


class State:
    def __init__(self, kw):
        w, o = kw["width"], kw.get("offset", 0)
        n = self.n = max(len(v) if isinstance(v, list) else 1 for v in (w, o))
        lst = lambda v: [v[i % len(v)] for i in range(n)] if isinstance(v, list) else [v] * n
        self.w = lst(w)
        self.o = list(o) if isinstance(o, list) else [(i - (n - 1) / 2) * o for i in range(n)]
        self.x = arr(kw["initial_point"])
        self.ends, self.layers, self.datatypes = lst(kw.get("ends", "flush")), lst(kw.get("layer", 0)), lst(kw.get("datatype", 0))
        self.gdsii, self.wt = kw.get("gdsii_path", False), kw.get("width_transform", True)
        self.tolerance, self.max_points = kw.get("tolerance", 0.01), kw.get("max_points", 199)
        self.secs = [[] for _ in range(n)]
        self.mirrored = False

    def affine(self, A, b, s, flip):
        self.x = A @ self.x + b
        self.mirrored |= flip
        keep = self.gdsii and not self.wt
        for p in self.secs:
            for q in p:
                q.A, q.b = A @ q.A, A @ q.b + b
                q.flip ^= flip
                q.either |= flip
                if keep:
                    q.ws /= s
        if not keep:
            self.w = [v * s for v in self.w]
        self.o = [v * s * (-1 if flip else 1) for v in self.o]
        self.ends = [tuple(x * s for x in e) if isinstance(e, tuple) else e for e in self.ends]

    def add(self, f, width=None, offset=None):
        x0 = self.x
        for k in range(self.n):
            w0, o0 = self.w[k], self.o[k]
            w = width[k] if isinstance(width, (list, tuple)) else width
            if w is None or self.gdsii:
                wf = lambda u, w0=w0: w0
            elif callable(w):
                wf = w
            else:
                wf = lambda u, w0=w0, w=w: w0 + (w - w0) * u
            absolute = isinstance(offset, (list, tuple))
            o = offset[k] if absolute else offset
            if o is None:
                of = lambda u, o0=o0: o0
            elif callable(o):
                of = o if absolute else lambda u, o0=o0: o0 + o(u)
            else:
                o1 = o if absolute else o0 + o
                of = lambda u, o0=o0, o1=o1: o0 + (o1 - o0) * u
            self.secs[k].append(Sec(f, of, wf))
            self.secs[k][-1].either = self.mirrored
            self.w[k], self.o[k] = wf(1), of(1)
        self.x = arr(f(1))

    def direction(self):
        z = [q[-1].grad(1, 0) for q in self.secs]
        a = [math.atan2(v[1], v[0]) for v in z]
        return a[0] + sum(math.remainder(x - a[0], 2 * math.pi) for x in a) / len(a)


# --------------------------------------------------------------------------------------
# commands: (on the path, on the model)

def linef(p, q):
    return lambda u: p + (q - p) * u


def seg(p, rel):
    return (lambda rp, **k: rp.segment(p, relative=True, **k) if rel else rp.segment(p, **k),
            lambda s, **k: s.add(linef(s.x, s.x + p if rel else arr(p)), **k))


def arcf(x, r, a0, a1):
    c = x - r * arr((math.cos(a0), math.sin(a0)))
    return lambda u: c + r * arr((math.cos(a0 + (a1 - a0) * u), math.sin(a0 + (a1 - a0) * u)))


def arc(r, a0, a1):
    return lambda rp, **k: rp.arc(r, a0, a1, **k), lambda s, **k: s.add(arcf(s.x, r, a0, a1), **k)


def turn(r, a):
    v = {"l": H, "r": -H, "ll": 2 * H, "rr": -2 * H}.get(a, a)

    def model(s, rp, **k):
        # the direction is that of the path up to its numerical differentiation
        d = rp.x - s.x
        a0 = s.direction() - (H if v >= 0 else -H)
        real = math.atan2(d[1], d[0]) - v / 2 - (H if v >= 0 else -H)
        if abs(math.remainder(real - a0, 2 * math.pi)) < 2e-3:
            a0 = real
        s.add(arcf(s.x, r, a0, a0 + v), **k)
    model.needs_path = True
    return lambda rp, **k: rp.turn(r, a, **k), model


def para(f, df=None, rel=True):
    def real(rp, **k):
        if df:
            k["curve_derivative"] = lambda u: np.array(df(u))
        if not rel:
            k["relative"] = False
        return rp.parametric(lambda u: np.array(f(u)), **k)

    def model(s, **k):
        x = s.x if rel else 0
        s.add(lambda u: arr(f(u)) + x, **k)
    return real, model


def bez(pts, rel=True):
    def model(s, **k):
        x = s.x
        c = [x] + [arr(p) + x if rel else arr(p) for p in pts]
        g, _ = hb.bezier([tuple(p) for p in c])
        s.add(lambda u: arr(g(u)), **k)
    return (lambda rp, **k: rp.bezier(pts, **k) if rel else rp.bezier(pts, relative=False, **k)), model


def smooth(pts, rel=True, **opt):
    def model(s, **k):
        x = s.x
        c = [x] + [arr(p) + x if rel else arr(p) for p in pts]
        ctl = hb.hobby(c, **opt)
        for i, (a, b) in enumerate(ctl):
            g, _ = hb.bezier([tuple(c[i]), (a.real, a.imag), (b.real, b.imag), tuple(c[(i + 1) % len(c)])])
            s.add(lambda u, g=g: arr(g(u)), **k)
    real_opt = dict(opt)
    if not rel:
        real_opt["relative"] = False
    return (lambda rp, **k: rp.smooth(pts, **real_opt, **k)), model


CMD = {
    "seg": seg((15, 4), True), "segabs": seg((30, 25), False), "up": seg((3, 14), True), "back": seg((-12, 9), True),
    "near": seg((16, 1), True), "down": seg((6, -15), True),
    "arc": arc(12, -H, 0.2), "arccw": arc(10, H, -0.3), "turnl": turn(11, "l"), "turnr": turn(11, "r"), "turn": turn(14, -0.7),
    "half": turn(9, "ll"), "halfr": turn(9, "rr"),
    "par": para(lambda u: (18 * u, 5 * u * u)), "pard": para(lambda u: (14 * u, 6 * math.sin(u)), lambda u: (14, 6 * math.cos(u))),
    "bez": bez([(6, 0), (12, 8), (12, 16)]), "bezabs": bez([(18, 12), (24, 20)], False),
    "smooth": smooth([(10, 3), (20, 12)]), "smootha": smooth([(28, 8), (34, 22)], False, angles=[0.2, None, 1.2], t_in=1.2, t_out=0.9),
    "smooth1": smooth([(18, 6)], angles=[-0.2, 0.8], curl_end=0.5), "smoothc": smooth([(14, 0), (14, 14), (0, 14)], cycle=True),
    "smoothca": smooth([(40, 5), (38, 30), (3, 28)], False, cycle=True, t_out=[1.25, 1, 1, 1.5]),
}
VAR = {
    "": {}, "w": dict(width=np.float64(1.25)), "o": dict(offset=0.75), "wo": dict(width=0.5, offset=np.float64(-1)),
    "wl": dict(width=[0.75, 1.5]), "ol": dict(offset=[-2, 2.5]),
    "wf": dict(width=lambda u: 1 + u * (1 - u) + 0.25 * u), "of": dict(offset=lambda u: 0.75 * u * u),
    "wlf": dict(width=[lambda u: 1 - 0.5 * u, 1.75]), "olf": dict(offset=[-1.5, lambda u: 1.5 + u * u]),
}
BASE = {
    "one": dict(initial_point=(0, 0), width=1),
    "two": dict(initial_point=(1, 2), width=[1, 2], offset=3, layer=[1, 2], ends=["extended", "round"]),
    "off": dict(initial_point=(0, 0), width=1, offset=[-1.5, 1.5], layer=3, datatype=[1, 2], ends=[(1.5, 0.5), "smooth"]),
    "same": dict(initial_point=(-2, 0), width=[1, 1], offset=[-1.5, 1.5], ends="smooth", max_points=30),
    "fine": dict(initial_point=(0, 0), width=2, ends="round", tolerance=0.002, max_points=0),
    "wide": dict(initial_point=(0, 0), width=6, ends=(2, 0), max_points=8),
}


# zeros are values like any other
ZERO = {
    "w0": dict(width=0), "o0": dict(offset=0), "wl0": dict(width=[0, 1.5]), "wlz": dict(width=[1.5, 0.0]),
    "ol0": dict(offset=[0, 0]), "olz": dict(offset=[0, 4]), "oly": dict(offset=[-4, 0]), "w0o0": dict(width=0.0, offset=0.0),
    "wl0ol0": dict(width=[0, 0], offset=[0, 0]), "wf0": dict(width=lambda u: 1 - u), "of0": dict(offset=lambda u: 0 * u),
    "olf0": dict(offset=[lambda u: 3 * u - 3, 0]),
}
VAR.update(ZERO)


def legal(var, n):
    return all(not isinstance(v, list) or len(v) == n for v in VAR[var].values())


# --------------------------------------------------------------------------------------

def crossing(p, q):
    """All proper intersections of two polylines: (i, j, point)."""
    a, r = p[:-1], p[1:] - p[:-1]
    b, t = q[:-1], q[1:] - q[:-1]
    den = r[:, None, 0] * t[None, :, 1] - r[:, None, 1] * t[None, :, 0]
    d = b[None] - a[:, None]
    with np.errstate(all="ignore"):
        u = (d[..., 0] * t[None, :, 1] - d[..., 1] * t[None, :, 0]) / den
        v = (d[..., 0] * r[:, None, 1] - d[..., 1] * r[:, None, 0]) / den
        ok = (den != 0) & (u > 0) & (u <= 1) & (v >= 0) & (v < 1)
    return [(int(i), int(j), a[i] + u[i, j] * r[i]) for i, j in zip(*np.nonzero(ok))]


def chain(secs, side, tol):
    """Border of a path: consecutive sections meet at the intersection of their borders,
    prolonged along their tangents where they are too short.  None: not a plain corner."""
    out = []
    cur = secs[0].line(side)
    for a, b in zip(secs, secs[1:]):
        nxt = b.line(side)
        p0, p1 = cur[-1], nxt[0]
        v0, v1 = a.grad(1, side), b.grad(0, side)
        gap = math.hypot(*(p1 - p0))
        if gap <= tol:
            out.append(cur)
            cur = nxt
            continue
        m = strip.meet(p0, v0, p1, v1)
        ang = abs(math.atan2(v0[0] * v1[1] - v0[1] * v1[0], v0 @ v1))
        if m is None or ang > 2.4 or ang < 0.02:
            return None
        if m[0] > 0 and m[1] < 0:
            out += [cur, [p0 + m[0] * v0]]
            cur = nxt
        elif m[0] < 0 and m[1] > 0:
            c = crossing(cur, nxt)
            if len(c) != 1:
                return None
            i, j, q = c[0]
            if i < 2 or j > GRID - 2 or m[0] < -0.95 or m[1] > 0.95:
                return None
            out.append(cur[:i + 1])
            cur = np.vstack(([q], nxt[j + 1:]))
        else:
            return None
    return np.vstack(out + [cur])


def outline(secs, end, tol):
    L, R = chain(secs, 1, tol), chain(secs, -1, tol)
    if L is None or R is None:
        return None
    caps = []
    for q in (0, 1):
        s = secs[(0, -1)[q]]
        c, d, h = s(q, 0), s.grad(q, 0), s.width(q) / 2
        d = strip.unit(d) * (1 if q else -1)
        n = strip.left(d)       # the cap runs from the right hand of d to its left hand
        if end == "flush":
            cap = []
        elif end == "round":
            a = math.atan2(d[1], d[0])
            cap = strip.arc(c, h, a - H, a + H)
        elif end == "smooth":
            r, l = (R[-1], L[-1]) if q else (L[0], R[0])
            sr, sl = (-1, 1) if q else (1, -1)
            g = 1 if q else -1
            cap = strip.curve(r, g * s.grad(q, sr), l, -g * s.grad(q, sl))
        else:
            e = h if end == "extended" else end[q]
            cap = [c + e * d - h * n, c + e * d + h * n]
        caps.append([arr(p) for p in cap])
    pts = list(R) + caps[1] + list(L[::-1]) + caps[0]
    return np.array(pts)


def selfcross(p):
    p = geo.clean(p, 1e-9)
    q = np.vstack((p, p[:1]))
    n = len(p)
    for i, j, _ in crossing(q, q):
        d = (i - j) % n
        if d not in (0, 1, n - 1):
            return True
    return False


def regular(s):
    """The outlines of the paths, or None where the corners leave no plain outline."""
    out = []
    for k in range(s.n):
        o = outline(s.secs[k], s.ends[k], s.tolerance)
        if o is None or selfcross(o):
            return None
        out.append(o)
    return out


def cover(rec, s, polys, what, eps=None):
    out = regular(s)
    if out is None:
        return True
    keys = {}
    for k in range(s.n):
        keys.setdefault((s.layers[k], s.datatypes[k]), []).append(k)
    if not rec.expect(set(polys) == set(keys), lambda: "%s: keys %s, expected %s" % (what, sorted(polys), sorted(keys))):
        return False
    for key, mem in keys.items():
        if s.max_points > 4:
            if not rec.expect(all(len(p) <= s.max_points for p in polys[key]), "%s: too many points in a piece" % what):
                return False
        elif not rec.expect(len(polys[key]) == len(mem), "%s: number of polygons" % what):
            return False
        want = [out[k] for k in mem]
        why = geo.check_cover(polys[key], want, lambda x, y: geo.covered(want, x, y, "nonzero"), eps or 6 * s.tolerance, "nonzero", overlap=False)
        if not rec.expect(not why, lambda: "%s: %s: %s" % (what, key, why)):
            return False
    rec.step()
    return True


def near(a, b, eps):
    return abs(np.asarray(a, dtype=float) - b).max() <= eps


def attributes(rec, rp, s, what):
    if not rec.expect(near(rp.x, s.x, 1e-7), lambda: "%s: at %s, expected %s" % (what, rp.x, s.x)):
        return False
    if not rec.expect(len(rp) == len(s.secs[0]), lambda: "%s: %d sections, expected %d" % (what, len(rp), len(s.secs[0]))):
        return False
    if not rec.expect(near(rp.offsets, s.o, 1e-7), lambda: "%s: offsets %s, expected %s" % (what, rp.offsets, s.o)):
        return False
    return rec.expect(near(np.abs(rp.widths), np.abs(s.w), 1e-7), lambda: "%s: widths %s, expected %s" % (what, rp.widths, s.w))


def samples(rec, rp, s, what, us=(0, 0.25, 0.5, 1)):
    """Positions, directions and widths all along the path."""
    n = len(s.secs[0])
    for i in range(n):
        for t in us:
            u = i + t
            if t == 1 and i < n - 1:
                pos = None         # belongs to the next section
            else:
                pos = [q[i] for q in s.secs]
            end = t in (0, 1)
            for arm in (0, -1, 1):
                if pos is not None:
                    got = rp(u, arm) if arm else rp(u)
                    for k, q in enumerate(pos):
                        big = max(1, s.w[k])
                        exp = [q(t, a) for a in ((0,) if arm == 0 else (1, -1) if q.either else (-arm,))]
                        # the direction of a border at an end is taken over half a step inside
                        eps = ((1e-3 if end and q.off(t) else 0) * (1 + abs(q.off(t))) if arm == 0 else (
                            3e-3 if end else 1e-4) * (big + 1 + abs(q.off(t))))
                        if not rec.expect(min(math.hypot(*(got[k] - e)) for e in exp) < max(eps, 1e-7),
                                          lambda: "%s: path(%g, %d)[%d] = %s, expected %s" % (what, u, arm, k, got[k], exp)):
                            return False
                side = "-" if t == 1 else "+"
                g = rp.grad(u, arm, side)
                for k, q in enumerate(r[i] for r in s.secs):
                    exp = [q.grad(t, a) for a in ((0,) if arm == 0 else (1, -1) if q.either else (-arm,))]
                    ok = False
                    for e in exp:
                        le = math.hypot(*e)
                        da = abs(math.atan2(e[0] * g[k][1] - e[1] * g[k][0], e @ g[k]))
                        dl = abs(math.hypot(*g[k]) / le - 1) if le else 1
                        ok |= da < (0.15 if end and arm else 0.01) and (dl < 0.012 or bool(end and (arm or q.off(t))))
                    if not rec.expect(ok, lambda: "%s: grad(%g, %d, %r)[%d] = %s, expected %s" % (what, u, arm, side, k, g[k], exp)):
                        return False
            if pos is not None:
                w = rp.width(u)
                for k, q in enumerate(pos):
                    if not rec.expect(abs(w[k] - q.width(t)) < 1e-6 * (1 + w[k]), lambda: "%s: width(%g)[%d] = %s, expected %s" % (
                            what, u, k, w[k], q.width(t))):
                        return False
            rec.step()
    # the default side of a join is the section before it
    for i in range(1, n):
        a, b = rp.grad(i), rp.grad(i, 0, "-")
        if not rec.expect(near(a, b, 0), "%s: grad(%d) is not the direction before the join" % (what, i)):
            return False
    return True


def run_cmds(case, rec):
    import gdspy

    kw = BASE[case["base"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rp, s = gdspy.RobustPath(**kw), State(kw)
        if not attributes(rec, rp, s, "construction") or not rec.expect(rp.get_polygons() == [] and rp.get_polygons(True) == {}
                                                                        and rp.to_polygonset() is None and rp.area() == 0, "empty path"):
            return
        for c, v in case["cmds"]:
            real, model = CMD[c]
            if c.startswith(("turn", "half")) and not s.secs[0]:
                try:
                    real(rp)
                    rec.fail("turn of an empty path")
                except ValueError:
                    pass
                return
            r = real(rp, **VAR[v])
            model(s, *([rp] if hasattr(model, "needs_path") else []), **VAR[v])
            if not rec.expect(r is rp, "%s does not return the path" % c) or not attributes(rec, rp, s, c):
                return
        rec.step(len(case["cmds"]))
        if not samples(rec, rp, s, "%s %s" % (case["base"], case["cmds"])):
            return
        polys = rp.get_polygons(True)
        if not attributes(rec, rp, s, "after get_polygons"):
            return
        if case.get("cover", True) and not cover(rec, s, polys, "polygons"):
            return
        if len(s.secs[0]) == 1 and not close(rec, s, polys):
            return
        rec.state((case["base"], str(case["cmds"])))


def close(rec, s, polys):
    """The borders of paths of one section are within tolerance of the polygons' edges."""
    for k in range(s.n):
        q = s.secs[k][0]
        if q.off(0) and q.off(1) and abs(q.off(1)) > 20:
            continue
        segs = geo.edges(polys[(s.layers[k], s.datatypes[k])])
        for side in (1, -1):
            pts = q.line(side)
            e = geo.dist_segments(pts[:, 0], pts[:, 1], segs).max()
            if not rec.expect(e <= 1.25 * s.tolerance, lambda: "a border of path %d is off by %.4g, tolerance %g" % (k, e, s.tolerance)):
                return False
    return True


# straight sections: ends, corners and cuts to any precision
FINE = {
    "one": dict(initial_point=(0.25, -1), width=2), "wide": dict(initial_point=(0, 0), width=6),
    "two": dict(initial_point=(1, 2), width=[1, 2], offset=5, layer=[1, 2]),
    "same": dict(initial_point=(1, 2), width=[1, 2, 1], offset=[-4, 1, 6]),
}
FINE_ENDS = {"flush": "flush", "round": "round", "extended": "extended", "smooth": "smooth", "tuple": (1.5, 0.5), "neg": (-0.5, 2)}
FINE_VAR = {"": {}, "w": dict(width=1.25), "w0": dict(width=0), "W": dict(width=9)}


def run_fine(case, rec):
    import gdspy

    kw = dict(FINE[case["base"]], ends=FINE_ENDS[case["end"]], **case["kw"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rp, s = gdspy.RobustPath(**kw), State(kw)
        for c, v in case["cmds"]:
            CMD[c][0](rp, **FINE_VAR[v])
            CMD[c][1](s, **FINE_VAR[v])
        rec.step(len(case["cmds"]))
        polys = rp.get_polygons(True)
        del strip.LOG[:]
        if not cover(rec, s, polys, "polygons", case["eps"]):
            return
        if not chords(rec, [p for v in polys.values() for p in v], s.tolerance):
            return
        rec.state((case["base"], case["end"], str(case["cmds"]), str(case["kw"])))


def gen_fine(tier):
    for b, e in itertools.product(FINE, FINE_ENDS):
        eps, tol = {"smooth": (0.02, 1e-3), "round": (0.01, 1e-3)}.get(e, (1e-5, 1e-3))
        for cmds in ([("seg", "")], [("seg", "w")], [("seg", "W")], [("seg", "w0")], [("back", "w")], [("seg", ""), ("up", "")],
                     [("seg", "w"), ("up", "")], [("seg", "w0"), ("up", "w")], [("up", "W")], [("near", "w"), ("seg", "w")],
                     [("seg", "w"), ("up", ""), ("near", "")]):
            if e == "neg" and any(v for _, v in cmds):
                continue    # the border is cut at the commanded distance, then tapered
            for mp in (0, 5, 20):
                for pr in (1e-3, 1e-7) if mp else (1e-3,):
                    if tier == "thorough" or mp != 20 or e in ("round", "smooth"):
                        yield dict(base=b, end=e, cmds=cmds, eps=eps if pr == 1e-7 or not mp else max(eps, 4e-3),
                                   kw=dict(tolerance=tol, max_points=mp, precision=pr))


def gen_cmds(tier):
    deep = tier == "thorough"
    for b in BASE:
        n = 2 if b in ("two", "off", "same") else 1
        vs = [v for v in VAR if legal(v, n) and v not in ZERO]
        for c in CMD:
            for v in vs:
                yield dict(base=b, cmds=[(c, v)])
        few = list(CMD) if deep or b == "two" else ["seg", "up", "arc", "turnr", "bez"]
        for c1 in few:
            for c2 in few:
                if c1 == c2 and c1.endswith("abs"):
                    continue       # without length
                yield dict(base=b, cmds=[(c1, ""), (c2, "")])
        for c1, c2 in itertools.product(("seg", "turnl", "par") if not deep else few, repeat=2):
            for v1, v2 in itertools.product(vs if deep and b == "two" else ("", "wo", "of", "ol"), repeat=2):
                if legal(v1, n) and legal(v2, n) and (v1 or v2) and (c1 in ("seg", "up", "par") or not deep):
                    yield dict(base=b, cmds=[("seg", ""), (c1, v1), (c2, v2)])
    short = ["seg", "up", "near", "turnr", "arc", "bez", "smooth1"] if not deep else list(CMD)
    for b in ("two", "wide") if not deep else ("two", "wide", "same"):
        for c in itertools.product(short[:7 if b == "two" else 4] if not deep else short, repeat=3):
            if all(x != y or not x.endswith("abs") for x, y in zip(c, c[1:])):
                yield dict(base=b, cmds=[(x, "") for x in c])


def gen_zero(tier):
    deep = tier == "thorough"
    cmds = [c for c in CMD if not c.startswith(("turn", "half"))] if deep else ["seg", "arc", "par", "pard", "bez", "smooth", "smootha"]
    turns = ["turnl", "turnr", "turn", "half"] if deep else ["turnl"]
    for b in BASE:
        n = 2 if b in ("two", "off", "same") else 1
        for z in ZERO:
            if legal(z, n):
                for c in cmds:
                    yield dict(base=b, cmds=[(c, z)], cover="width" not in ZERO[z])
                    if b in ("one", "two", "off") or deep:
                        yield dict(base=b, cmds=[("seg", z), (c, "")], cover="width" not in ZERO[z])
                        yield dict(base=b, cmds=[("seg", z), (c, "wo")], cover="width" not in ZERO[z])
                for c in turns:
                    yield dict(base=b, cmds=[("seg", ""), (c, z)], cover="width" not in ZERO[z])
                    yield dict(base=b, cmds=[("seg", z), (c, ""), ("seg", "")], cover="width" not in ZERO[z])


# --------------------------------------------------------------------------------------

def R(a):
    return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])


def about(A, c, s):
    c = arr(c)
    return lambda st, rp: st.affine(A, c - A @ c, s, False)


def tf(t, r, m, x, at=None):
    mm = 1 if m is None else m
    F = np.diag((1.0, -1.0 if x else 1.0))
    q = R(0 if r is None else r)
    A = mm * q @ F
    b = q @ F @ arr((0, 0) if at is None else at) + arr((0, 0) if t is None else t)
    return (lambda rp: rp.transform(t, r, m, x) if at is None else rp.transform(t, r, m, x, at),
            lambda st, rp: st.affine(A, b, mm, bool(x)))


def lay(ls, ds):
    def go(o):
        o.layers = [ls[i % len(ls)] for i in range(o.n)]
        o.datatypes = [ds[i % len(ds)] for i in range(o.n)]
        return o
    return go, lambda st, rp: go(st)


def lay1():
    """Changes the last layer and datatype only."""
    def go(o):
        o.layers[-1] += 20
        o.datatypes = o.datatypes[:-1] + [9]
        return o
    return go, lambda st, rp: go(st)


def cmd(c, v=""):
    real, model = CMD[c]
    extra = hasattr(model, "needs_path")
    return lambda rp: real(rp, **VAR[v]), lambda st, rp: model(st, *([rp] if extra else []), **VAR[v])


EDITS = {
    "seg": cmd("seg"), "up": cmd("up", "w"), "bez": cmd("bez", "o"), "turnl": cmd("turnl"), "turnr": cmd("turnr", "w"),
    "par": cmd("par", "wf"), "arc": cmd("arc", "of"),
    "tr": (lambda rp: rp.translate(3, -2.5), lambda st, rp: st.affine(np.eye(2), arr((3, -2.5)), 1, False)),
    "rot": (lambda rp: rp.rotate(0.3, (1, 2)), about(R(0.3), (1, 2), 1)),
    "rot90": (lambda rp: rp.rotate(-H), about(R(-H), (0, 0), 1)),
    "sc": (lambda rp: rp.scale(2, (1, -1)), about(2 * np.eye(2), (1, -1), 2)),
    "sch": (lambda rp: rp.scale(0.5), about(0.5 * np.eye(2), (0, 0), 0.5)),
    "tf": tf((1, 2), 0.5, 1.5, False), "tfa": tf(None, H, 2, False, (5, 3)),
    "mir": tf((-1, 0), None, None, True), "mirall": tf((0, 4), 0.25, 0.5, True, (2, 1)),
    "lay": lay([7, 8], [1]), "lay1": lay1(), "mov": tf((4, -3), None, None, False),
}
PATHS = {
    "one": (dict(initial_point=(0, 0), width=2, ends="round"), ["seg"]),
    "two": (dict(initial_point=(0, 0), width=[1, 2], offset=3, ends=["extended", (1.5, 0.5)], layer=[1, 2]), ["seg", "up"]),
    "curve": (dict(initial_point=(1, 1), width=[1, 1], offset=2, ends="smooth", max_points=20), ["bez"]),
    "gds": (dict(initial_point=(0, 0), width=2, ends=(1, 2), gdsii_path=True, layer=3), ["seg", "up"]),
    "gdsw": (dict(initial_point=(0, 0), width=[2, 1], offset=[-2, 2], ends="round", gdsii_path=True, width_transform=False), ["seg"]),
}


def run_hist(case, rec):
    import gdspy

    kw, pre = PATHS[case["path"]]

    def fresh():
        rp = gdspy.RobustPath(**kw)
        for c in pre:
            CMD[c][0](rp)
        return rp

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref, s = fresh(), State(kw)
        for c in pre:
            CMD[c][1](s)
        for e in case["edits"]:
            real, model = EDITS[e]
            rec.expect(real(ref) is ref, "%s does not return the path" % e)
            model(s, ref)
            if not attributes(rec, ref, s, e):
                return
        rec.step(len(case["edits"]))
        if case.get("samples", True) and not samples(rec, ref, s, "%s %s" % (case["path"], case["edits"]), (0, 0.25, 1)):
            return
        want = {q: query(ref, q) for q in QUERIES}
        if not attributes(rec, ref, s, "after all queries"):
            return
        if case.get("cover", True) and not cover(rec, s, want["spec"], "polygons of %s" % case["edits"]):
            return
        check_queries(rec, s, want)
        for j, mask in enumerate(itertools.product((0, 1), repeat=len(case["edits"]))):
            if not any(mask) or (len(mask) > case.get("full", 9) and mask not in ((1,) * len(mask), (0,) * (len(mask) - 1) + (1,))):
                continue
            rp = fresh()
            for i, (e, q) in enumerate(zip(case["edits"], mask)):
                if q:
                    query(rp, QUERIES[1 + (case["i"] + i + j) % 7])
                EDITS[e][0](rp)
            query(rp, QUERIES[1 + (case["i"] + j) % 7])
            rec.step(len(case["edits"]))
            for q in QUERIES:
                if not rec.expect(same_result(query(rp, q), want[q]), lambda: "%s after queries before %r of %r differs from the path never queried" % (
                        q, [e for e, m in zip(case["edits"], mask) if m], case["edits"])):
                    return
            if not attributes(rec, rp, s, "with queries"):
                return
        rec.state((case["path"], str(case["edits"])))


SOME = ["seg", "up", "turnl", "rot", "tfa", "mirall", "sc", "lay"]


def gen_hist(tier):
    deep = tier == "thorough"
    i = 0
    for p in PATHS:
        for k in (1, 2):
            for e in itertools.product(EDITS if deep or k == 1 or p in ("two", "gdsw") else SOME, repeat=k):
                i += 1
                yield dict(path=p, edits=list(e), i=i, samples=deep or k == 1 or i % 3 == 0, full=9 if deep else 1)
    few = ["seg", "turnr", "rot", "sc", "mirall", "lay"]
    for p in PATHS if deep else ("two", "gdsw"):
        for e in itertools.product(EDITS if deep and p == "two" else few, repeat=3):
            i += 1
            yield dict(path=p, edits=list(e), i=i, cover=i % 4 == 0 or deep, samples=deep or i % 8 == 0, full=3 if deep else 1)
    if deep:
        for e in itertools.product(few, repeat=4):
            i += 1
            yield dict(path="two", edits=list(e), i=i, cover=False, samples=False, full=1)


def run_args(case, rec):
    """One transformation with each of all small arguments, queried before and after, and a
    section after it."""
    import gdspy

    name, a = case["op"], [tuple(v) if isinstance(v, list) else v for v in case["args"]]
    if name == "translate":
        real, model = (lambda rp: rp.translate(*a)), (lambda st, rp: st.affine(np.eye(2), arr(a), 1, False))
    elif name == "rotate":
        real, model = (lambda rp: rp.rotate(*a)), about(R(a[0]), a[1], 1)
    elif name == "scale":
        real, model = (lambda rp: rp.scale(*a)), about(a[0] * np.eye(2), a[1], a[0])
    else:
        real, model = tf(*a)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for path in case["paths"]:
            kw, pre = PATHS[path]
            rp, fresh, s = gdspy.RobustPath(**kw), gdspy.RobustPath(**kw), State(kw)
            for c in pre:
                CMD[c][0](rp), CMD[c][0](fresh), CMD[c][1](s)
            rp.get_polygons(), rp.area(True)
            rec.expect(real(rp) is rp, "%s does not return the path" % name)
            real(fresh)
            model(s, rp)
            what = "%s.%s%r" % (path, name, tuple(a))
            for more in (None, "seg"):
                if more:
                    for o in (rp, fresh):
                        EDITS[more][0](o)
                    EDITS[more][1](s, rp)
                rec.step()
                if not attributes(rec, rp, s, what) or not attributes(rec, fresh, s, what):
                    return
                if not samples(rec, rp, s, what, (0.25,) if not more else (0.5,)):
                    return
                for q in ("spec", "bbox", "gds"):
                    if not rec.expect(same_result(query(rp, q), query(fresh, q)), lambda: "%s: %s differs from the path never queried" % (what, q)):
                        return
            rec.state((path, name, a))


LISTS = dict(ends=["flush", (1.5, 0.5), "round", "extended"], layer=[5, 1, 8, 3], datatype=[2, 0, 7, 1])


def run_lists(case, rec):
    """Parallel paths given lists of any lengths are the single paths of the cycled values."""
    import gdspy

    n = case["n"]
    wid, off = [0.75, 1, 1.25, 0.5][:n], [-6.0, -1, 2, 5.5][:n]
    kw = {name: LISTS[name][:k] if k else LISTS[name][1] for name, k in zip(LISTS, case["lens"])}

    def build(w, o, kw):
        rp = gdspy.RobustPath((0, 0), w, o, **kw)
        return rp.segment((40, 5)).segment((15, 45), relative=True).arc(20, 2.5, 1.2).get_polygons(True)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.step()
        got = build(list(wid), list(off), kw)
        want = {}
        for i in range(n):
            one = {name: (v[i % len(v)] if isinstance(v, list) else v) for name, v in kw.items()}
            for key, ps in build(wid[i], [off[i]], one).items():
                want.setdefault(key, []).extend(ps)
    if not rec.expect(set(got) == set(want), lambda: "lists %r: keys %s, expected %s" % (kw, sorted(got), sorted(want))):
        return
    for key in want:
        why = geo.match_polygons(got[key], want[key])
        if not rec.expect(why is None, lambda: "lists %r: paths on %s differ from the single paths: %s" % (kw, key, why)):
            return
    rec.state((n, case["lens"]))


def gen_lists(tier):
    for n in (1, 2, 3, 4):
        for lens in itertools.product((0, 1, 2, 3, 4), repeat=3):
            if max(lens) <= n + 1 and (tier == "thorough" or len([x for x in lens if x]) <= 1 or len(set(lens)) == 1):
                yield dict(n=n, lens=list(lens))


def groups(tier):
    deep = tier == "thorough"
    return [
        Group("lists", lambda: gen_lists(tier), run_lists,
              "1 to 4 parallel paths x all lengths of the lists of ends, layers and datatypes"),
        Group("arguments", lambda: (dict(op=n, args=list(a), paths=list(PATHS) if deep else [("two",), ("gdsw",), ("one",)][i % 3])
                                    for i, (n, a) in enumerate(c19.placements())), run_args,
              "every transformation with all arguments of a 3 x 3 lattice (7 angles, 4 factors, reflection, place in an array)"),
        Group("fine", lambda: gen_fine(tier), run_fine,
              "straight sections: %d kinds of ends, tapers, %d paths, numbers of points and precisions of the pieces, to 1e-5" % (
                  len(FINE_ENDS), len(FINE))),
        Group("zeros", lambda: gen_zero(tier), run_cmds,
              "construction commands with %d kinds of zero widths and offsets, first, last and before other commands, on %d paths" % (
                  len(ZERO), len(BASE))),
        Group("commands", lambda: gen_cmds(tier), run_cmds,
              "all sequences of %d construction commands up to depth 2 (3 for %d of them) on %d paths, %d kinds of width and offset arguments" % (
                  len(CMD), len(CMD) if deep else 7, len(BASE), len(VAR) - len(ZERO))),
        Group("histories", lambda: gen_hist(tier), run_hist,
              "all histories of %d edits up to depth 2, selected to depth %d, %d paths, queries before every subset of the edits" % (
                  len(EDITS), 4 if deep else 3, len(PATHS))),
    ]
