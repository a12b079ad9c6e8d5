"""C17: Path and L1Path commands against a model of the strips they describe.

Every command is checked relative to the model state before it: the polygons it adds are
decomposed into pairs of opposite points and each pair must sit symmetrically, at the
commanded distance and half width, on the normal of the commanded curve.
"""
import itertools
import math
import warnings

import numpy as np

from mc import geo
from mc.engine import Group
from mc.hobby import hobby

PI, H = math.pi, math.pi / 2
NAMED = {"+x": 0, "+y": H, "-x": PI, "-y": -H}
TOL = 1e-7


def same(a, b, tol=TOL):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def same_angle(a, b, tol=1e-7):
    return abs(math.remainder(a - b, 2 * PI)) <= tol


class M:
    """Model state."""

    def __init__(self, width, p, n, dist):
        self.x, self.y = p
        self.ang = 0.0
        self.w, self.n, self.d = width / 2, n, dist
        self.polys = []  # as found in the real object, transformed by the model
        self.types = []
        self.mirrored = False

    @property
    def p(self):
        return np.array((self.x, self.y), dtype=float)


def lin(a, b):
    return lambda u: a + (b - a) * u


class Sec:
    """A commanded section: curve(u), deriv(u), half width(u), distance(u)."""

    def __init__(self, curve, deriv, w, d, tol=None, inv=None, dangle=1e-7):
        self.curve, self.deriv, self.w, self.d = curve, deriv, w, d
        self.tol, self.inv, self.dangle = tol, inv, dangle


def side_curve(s, n, k, sg):
    """The ideal left (sg=-1) or right (sg=1) border of parallel path k; path 0 is the
    leftmost."""
    def g(u):
        c, t = s.curve(u), s.deriv(u)
        f = ((k - (n - 1) / 2) * s.d(u) + sg * s.w(u)) / math.hypot(t[0], t[1])
        return np.array((c[0] + t[1] * f, c[1] - t[0] * f))
    return g


def newton_inverse(g, samples=64):
    grid = [i / samples for i in range(samples + 1)]
    pts = np.array([g(u) for u in grid])

    def solve(u, p):
        for _ in range(8):
            h = 1e-6
            v = g(u)
            a, b = max(0.0, u - h), min(1.0, u + h)
            e = (g(b) - g(a)) / (b - a)
            q = float(e @ e)
            if q == 0:
                break
            du = float(e @ (p - v)) / q
            u = min(1.0, max(0.0, u + du))
            if abs(du) < 1e-9:
                break
        v = g(u) - p
        return u if v[0] * v[0] + v[1] * v[1] < 1e-12 else None

    def inv(p, lo, hi):
        d = (pts[:, 0] - p[0]) ** 2 + (pts[:, 1] - p[1]) ** 2
        near = [int(i) for i in np.argsort(d)[:8]]
        # local minima of the distance, nearest to lo first
        near = [i for i in near if grid[i] >= lo - 1.5 / samples]
        for i in near:
            u = solve(grid[i], p)
            if u is not None and lo - 1e-6 <= u <= hi + 1e-6:
                return u
            if d[i] > 1:
                break
        return None

    return inv


def check_strip(rec, name, polys, s, n, k):
    """polys: consecutive pieces of parallel path k.  Every vertex must lie on one of the
    two borders, in order.  Returns the parameters of the vertices of both sides."""
    gs = {sg: side_curve(s, n, k, sg) for sg in (-1, 1)}
    invs = {sg: s.inv(gs[sg], sg, n, k) for sg in (-1, 1)}
    u0 = 0.0
    us = {-1: [0.0], 1: [0.0]}
    for j, poly in enumerate(polys):
        p = np.asarray(poly, dtype=float)
        err = walk(p, gs, invs, us, u0)
        if err:
            rec.fail("%s: path %d piece %d: %s: %s" % (name, k, j, err, geo.fmt(p)))
            return None
        u0 = us[1][-1]
    if abs(u0 - 1) > 1e-5:
        rec.fail("%s: path %d ends at u=%.9g" % (name, k, u0))
        return None
    return us


def walk(p, gs, invs, us, u0):
    N = len(p)
    l0, r0 = gs[-1](u0), gs[1](u0)
    il = [i for i in range(N) if same(p[i], l0, 2e-6)]
    ir = [i for i in range(N) if same(p[i], r0, 2e-6)]
    if not il or not ir:
        return "start points %s %s are not vertices" % (l0, r0)
    best = "start points are not neighbours"
    for i in il:
        for j in ir:
            if i == j:
                order = [p[(i + q) % N] for q in range(N)] + [p[i]]
                orders = [order, order[::-1]]
            elif (i + 1) % N == j and N > 2:
                orders = [[p[(i - q) % N] for q in range(N)]]
            elif (j + 1) % N == i:
                orders = [[p[(i + q) % N] for q in range(N)]]
            else:
                continue
            for o in orders:
                e = two_sides(o, invs, u0)
                if not isinstance(e, str):
                    us[-1] += e[0][1:]
                    us[1] += e[1][1:]
                    return None
                best = e
    return best


def two_sides(order, invs, u0):
    """order: vertices from the left start point, around, to the right start point."""
    a = []
    u = u0
    for q, pt in enumerate(order):
        v = u0 if q == 0 else invs[-1](pt, u, 1.0)
        if v is None or v < u - 1e-6:
            break
        a.append(v)
        u = v
    last = len(a)
    # the border may continue by chance: try the longest run first
    why = "no end"
    for h in range(last, 0, -1):
        u1 = a[h - 1]
        for apex in (False, True):
            rest = order[h - 1 if apex else h:][::-1]
            b, v = [], u0
            for q, pt in enumerate(rest):
                w = u0 if q == 0 else invs[1](pt, v, 1.0)
                if w is None or w < v - 1e-6:
                    why = "vertex %s is on neither border after u=%.6g" % (pt, v)
                    b = None
                    break
                b.append(w)
                v = w
            if b and abs(v - u1) < 1e-5 and u1 > u0 + 1e-9:
                return a[:h], b
            if b:
                why = "the sides end at u=%.6g and %.6g" % (u1, v)
        if h < last - 2:
            break
    return why


def layers_of(spec, n):
    if isinstance(spec, list):
        return [spec[i % len(spec)] for i in range(n)]
    return [spec] * n


# --------------------------------------------------------------------------------------
# commands: name -> function(path, model) -> Sec list (in order), kwargs used

def seg(length, direction=None, fw=None, fd=None, ax=0):
    def go(path, m, lay):
        kw = dict(lay)
        if direction is not None:
            kw["direction"] = direction
        if fw is not None:
            kw["final_width"] = fw
        if fd is not None:
            kw["final_distance"] = fd
        if ax:
            kw["axis_offset"] = ax
        path.segment(length, **kw)
        if direction is not None:
            m.ang = NAMED.get(direction, direction)
        t = np.array((math.cos(m.ang), math.sin(m.ang)))
        right = np.array((t[1], -t[0]))
        p0 = m.p
        v = length * t + ax * right
        w1 = m.w if fw is None else fw / 2
        d1 = m.d if fd is None else fd
        s = Sec(lambda u: p0 + v * u, lambda u: t, lin(m.w, w1), lin(m.d, d1))

        def inv(g, sg, n, k):
            def f(p, lo, hi):
                u = float((p - p0) @ t) / length
                return u if same(g(u), p) else None
            return f

        s.inv = inv
        m.x, m.y = p0 + v
        m.w, m.d = w1, d1
        return [s]
    return go


def arc_sec(m, r, a0, a1, fw, fd, tol):
    c = m.p - r * np.array((math.cos(a0), math.sin(a0)))
    w1 = m.w if fw is None else fw / 2
    d1 = m.d if fd is None else fd
    sg = 1 if a1 > a0 else -1
    f = lambda u: c + r * np.array((math.cos(a0 + (a1 - a0) * u), math.sin(a0 + (a1 - a0) * u)))
    df = lambda u: sg * np.array((-math.sin(a0 + (a1 - a0) * u), math.cos(a0 + (a1 - a0) * u)))
    s = Sec(f, df, lin(m.w, w1), lin(m.d, d1), tol=tol)

    def inv(g, sg, n, k):
        per = 2 * PI / abs(a1 - a0)

        def h(p, lo, hi):
            q = p - c
            u = (math.atan2(q[1], q[0]) - a0) / (a1 - a0)
            while u < lo - 1e-7:
                u += per
            while u - per >= lo - 1e-7:
                u -= per
            return u if u <= hi + 1e-7 and same(g(u), p) else None
        return h

    s.inv = inv
    s.radius = r
    # inner radius must stay positive (the library warns about the others)
    s.bad = min(r - (m.n - 1) / 2 * s.d(u) - s.w(u) for u in (0, 1)) < 1e-3
    m.x, m.y = f(1)
    m.ang = a1 + sg * H
    m.w, m.d = w1, d1
    return s


def arc(r, a0, a1, fw=None, fd=None, tol=0.01, **kw):
    def go(path, m, lay):
        k = dict(lay, **kw)
        if fw is not None:
            k["final_width"] = fw
        if fd is not None:
            k["final_distance"] = fd
        path.arc(r, a0, a1, tolerance=tol, **k)
        s = arc_sec(m, r, a0, a1, fw, fd, tol)
        s.mp = kw.get("max_points", 199)
        s.np = kw.get("number_of_points")
        return [s]
    return go


def turn(r, ang, fw=None, fd=None, tol=0.01, **kw):
    def go(path, m, lay):
        k = dict(lay, **kw)
        if fw is not None:
            k["final_width"] = fw
        if fd is not None:
            k["final_distance"] = fd
        path.turn(r, ang, tolerance=tol, **k)
        a = {"l": H, "ll": PI, "r": -H, "rr": -PI}.get(ang, ang)
        a0 = m.ang + (H if a < 0 else -H)
        s = arc_sec(m, r, a0, a0 + a, fw, fd, tol)
        s.mp = kw.get("max_points", 199)
        s.np = kw.get("number_of_points")
        return [s]
    return go


def param(f, df, give=True, fw=None, fd=None, rel=True, tol=0.01, **kw):
    def go(path, m, lay):
        k = dict(lay, **kw)
        k["relative"] = rel
        if fw is not None:
            k["final_width"] = fw
        if fd is not None:
            k["final_distance"] = fd
        p0 = m.p if rel else np.zeros(2)
        path.parametric(f, df if give else None, tolerance=tol, **k)
        s = general(m, lambda u: (p0[0] + f(u)[0], p0[1] + f(u)[1]), df, fw, fd, tol,
                    1e-6 if give else 0.2)
        s.mp = kw.get("max_points", 199)
        return [s]
    return go


def general(m, curve, df, fw, fd, tol, dangle):
    if callable(fw):
        w = lambda u: fw(u) / 2
    else:
        w = lin(m.w, m.w if fw is None else fw / 2)
    if callable(fd):
        d = fd
    else:
        d = lin(m.d, m.d if fd is None else fd)
    s = Sec(curve, df, w, d, tol=tol, dangle=dangle)
    s.inv = lambda g, sg, n, k: newton_inverse(g)
    s.bad = min(math.hypot(*df(i / 64)) for i in range(65)) < 1e-6
    m.x, m.y = curve(1)
    t = df(1)
    m.ang = math.atan2(t[1], t[0])
    m.w, m.d = w(1), d(1)
    m.loose = dangle > 1e-3
    return s


def bern(ps):
    ps = [(float(p[0]), float(p[1])) for p in ps]
    n = len(ps) - 1
    cs = [math.comb(n, i) for i in range(n + 1)]

    def f(u):
        x = y = 0.0
        for i in range(n + 1):
            b = cs[i] * (1 - u) ** (n - i) * u ** i
            x += b * ps[i][0]
            y += b * ps[i][1]
        return x, y
    return f


def bez(pts, fw=None, fd=None, rel=True, tol=0.01, **kw):
    def go(path, m, lay):
        k = dict(lay, **kw)
        k["relative"] = rel
        if fw is not None:
            k["final_width"] = fw
        if fd is not None:
            k["final_distance"] = fd
        path.bezier(pts, tolerance=tol, **k)
        ps = [m.p] + [np.asarray(p, dtype=float) + (m.p if rel else 0) for p in pts]
        n = len(ps) - 1
        df = bern([n * (b - a) for a, b in zip(ps, ps[1:])])
        s = general(m, bern(ps), df, fw, fd, tol, 1e-6)
        s.mp = kw.get("max_points", 199)
        return [s]
    return go


def smooth(pts, rel=True, angles=None, fws=None, fds=None, cycle=False, tol=0.01):
    def go(path, m, lay):
        k = dict(lay)
        k["relative"] = rel
        if fws is not None:
            k["final_widths"] = fws
        if fds is not None:
            k["final_distances"] = fds
        p0 = m.p
        path.smooth(pts, angles=angles, cycle=cycle, tolerance=tol, **k)
        full = [p0] + [np.asarray(p, dtype=float) + (p0 if rel else 0) for p in pts]
        ctl = hobby(full, angles, cycle=cycle)
        ca = [np.array((a.real, a.imag)) for a, b in ctl]
        cb = [np.array((b.real, b.imag)) for a, b in ctl]
        ends = full[1:] + ([full[0]] if cycle else [])
        out = []
        for i, e in enumerate(ends):
            ps = [full[i], ca[i], cb[i], e]
            df = bern([3 * (b - a) for a, b in zip(ps, ps[1:])])
            s = general(m, bern(ps), df, fws[i] if fws else None, fds[i] if fds else None, tol, 1e-6)
            s.mp = 199
            out.append(s)
        return out
    return go


def xf(name, *args):
    def go(path, m, lay):
        getattr(path, name)(*args)
        if name == "translate":
            f = lambda p: np.asarray(p, dtype=float) + args
        elif name == "rotate":
            c = np.array(args[1] if len(args) > 1 else (0, 0), dtype=float)
            ca, sa = math.cos(args[0]), math.sin(args[0])
            f = lambda p: (np.asarray(p, dtype=float) - c) @ np.array([[ca, sa], [-sa, ca]]) + c
            m.ang += args[0]
        elif name == "scale":
            sx = args[0]
            sy = args[1] if len(args) > 1 and args[1] is not None else sx
            c = np.array(args[2] if len(args) > 2 else (0, 0), dtype=float)
            f = lambda p: (np.asarray(p, dtype=float) - c) * (sx, sy) + c
            m.w *= sx
            m.scaled = True
            m.d *= sx
        else:
            p1 = np.array(args[0], dtype=float)
            p2 = np.array(args[1] if len(args) > 1 else (0, 0), dtype=float)
            a = math.atan2(*(p2 - p1)[::-1])
            c2, s2 = math.cos(2 * a), math.sin(2 * a)
            f = lambda p: (np.asarray(p, dtype=float) - p1) @ np.array([[c2, s2], [s2, -c2]]) + p1
            m.ang = 2 * a - m.ang
        m.polys = [f(p) for p in m.polys]
        m.x, m.y = f(m.p)
        return None
    return go


PAR = (lambda u: (8 * u, 4 * u * u), lambda u: (8, 8 * u))
PAR2 = (lambda u: (-6 * u, 5 * math.sin(2 * u)), lambda u: (-6, 10 * math.cos(2 * u)))
LINE = (lambda u: (0, -5 * u), lambda u: (0, -5))

COMMANDS = {
    "seg": seg(5), "seg+x": seg(4, "+x"), "seg+y": seg(4, "+y"), "seg-x": seg(4, "-x"),
    "seg-y": seg(4, "-y"), "seg.7": seg(3.5, 0.7), "seg-2": seg(3, -2.0, fw=1.5),
    "segw": seg(5, None, fw=0.5), "segw0": seg(5, None, fw=0), "segd": seg(5, None, fd=4),
    "segwd": seg(6, "+y", fw=2, fd=2.5), "segax": seg(5, None, ax=1.5), "segall": seg(5, 2.5, 0.25, 4, -1),
    "arcl": arc(10, -H, 0.3), "arcr": arc(10, H, -1.1), "arcw": arc(12, 0, 2, fw=0.5),
    "arcd": arc(12, 1, -0.5, fd=1.5, fw=1.5), "arcfull": arc(15, 0.25, 0.25 + 2 * PI),
    "arcmp": arc(20, 0, 2, max_points=21), "arcnp": arc(9, 2, 0.5, number_of_points=14),
    "arc0": arc(9, 2, 0.5, fw=0), "arcmp0": arc(200, 2, 0.5, max_points=0, tol=0.0005),
    "arcfrac": arc(200, 2, 0.5, tol=0.0005, fw=4, fd=1.5),
    "arcthin": arc(30, 0, 2, fw=0.01, fd=0, tol=1e-3), "arcwide": arc(30, 0, -2, fw=9, fd=12, tol=1e-3),
    "l": turn(8, "l"), "r": turn(8, "r"), "ll": turn(8, "ll", fw=0.5), "rr": turn(8, "rr", fd=4),
    "t.5": turn(9, 0.5), "t-2": turn(9, -2, fw=2, fd=2), "tfine": turn(9, 1, tol=1e-4),
    "par": param(*PAR), "parn": param(*PAR, give=False), "par2": param(*PAR2, fw=2, fd=1.5),
    "parabs": param(lambda u: (3 + 8 * u, 4 - 4 * u * u), lambda u: (8, -8 * u), rel=False),
    "parfn": param(*PAR, fw=lambda u: 1 + u * u, fd=lambda u: 3 - u),
    "parmp": param(*PAR, max_points=9, tol=1e-3), "parmp0": param(*PAR, max_points=0, tol=1e-3),
    "par0": param(*PAR, fw=0), "line": param(*LINE), "parcoarse": param(*PAR, tol=1, number_of_evaluations=2),
    "bez2": bez([(4, 1), (6, 5)]), "bez3": bez([(0, 5), (6, 5), (6, -1)], fw=2),
    "bez4": bez([(3, 0), (0, 4), (-5, 5), (-6, 8)], fd=1.5), "bezabs": bez([(9, 1), (4, 9)], rel=False),
    "sm": smooth([(8, 0), (8, 8)]), "sm3": smooth([(5, 5), (10, 0), (15, 6)], fws=[1.5, 0.5, 2], fds=[2, 2.5, 3]),
    "smabs": smooth([(20, 1), (4, 19)], rel=False), "smang": smooth([(9, 3)], angles=[0.5, 1.5]),
    "smcycw": smooth([(9, 0), (9, 9), (0, 9)], cycle=True, fws=[1.5, 0.5, 2, 1], fds=[2, 2.5, 3, 1.5]),
    "par0mp": param(*PAR, fw=0, max_points=8, tol=1e-3), "parhump": param(*PAR, fw=lambda u: 1 + 2 * u - 2 * u * u, fd=lambda u: 2 + u - u * u, tol=1e-3),
    "smcyc": smooth([(9, 0), (9, 9), (0, 9)], cycle=True),
    "tr": xf("translate", 3, -2), "rot": xf("rotate", 0.7), "rotc": xf("rotate", -H, (1, 2)),
    "sc": xf("scale", 2), "scc": xf("scale", 1.5, None, (3, 1)), "scxy": xf("scale", 2, 3),
    "mi": xf("mirror", (0, 1)), "mic": xf("mirror", (1, 0), (2, 3)),
}

CONFIGS = [
    (1, (0, 0), 1, 0, dict(layer=1, datatype=2)),
    (1.5, (2, -3), 2, 3, dict(layer=[1, 2], datatype=[5])),
    (1, (0.5, 1), 3, 2.5, dict(layer=[1, 2], datatype=[3, 4, 5])),
    (0, (0, 0), 1, 0, dict()),
    (0.5, (-1, 2), 4, 2, dict(layer=[1, 2, 3], datatype=[4, 5])),
    (9, (0, 0), 3, 10, dict(layer=[1, 2], datatype=[3, 4, 5])),
]


# commands by final width and distance; zeros are values like any other
KINDS = {
    "seg": lambda w, d: seg(5, None, w, d), "seg-y": lambda w, d: seg(5, "-y", w, d), "seg.7": lambda w, d: seg(4, 0.7, w, d, -0.5),
    "arc": lambda w, d: arc(10, H, -1.1, w, d), "arcl": lambda w, d: arc(12, 0, 2, w, d), "turn": lambda w, d: turn(9, "r", w, d),
    "t-2": lambda w, d: turn(9, -2, w, d), "par": lambda w, d: param(*PAR, fw=w, fd=d),
    "parn": lambda w, d: param(*PAR, give=False, fw=w, fd=d), "bez": lambda w, d: bez([(0, 5), (6, 5), (6, -1)], w, d),
    "sm": lambda w, d: smooth([(8, 0), (8, 8)], fws=None if w is None else [w, 1], fds=None if d is None else [d, 3]),
    "sm1": lambda w, d: smooth([(9, 3)], fws=None if w is None else [w], fds=None if d is None else [d]),
}


def command(name):
    if isinstance(name, str):
        return COMMANDS[name]
    if name[0] in KINDS:
        return KINDS[name[0]](*name[1:])
    return xf(*name)


def gen_final(tier):
    deep = tier == "thorough"
    W, D = (None, 0, 0.5, 1, 2), (None, 0, 1, 2.5, 4)
    for cfg in range(len(CONFIGS)):
        for k in KINDS:
            for w, d in itertools.product(W, D):
                yield dict(cfg=cfg, cmds=[(k, w, d)])
                if deep or cfg in (1, 3):
                    yield dict(cfg=cfg, cmds=[("seg", w, d), (k, None, None), ("seg", None, None)])
    for k1, k2 in itertools.product(KINDS, KINDS):
        for a, b in itertools.product(((0, None), (None, 0), (0, 0), (1, 2)), ((None, None), (0, 0), (0.5, 1))):
            if deep or k1 in ("seg", "arc", "par"):
                yield dict(cfg=2, cmds=[(k1,) + a, (k2,) + b])


def run(case, rec):
    import gdspy

    width, p0, n, dist, lay = CONFIGS[case["cfg"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path = gdspy.Path(width, p0, n, dist)
        m = M(width, p0, n, dist)
        rec.expect(path.polygons == [] and path.length == 0, "a new path is not empty")
        for name in case["cmds"]:
            rec.step()
            before, length = len(path.polygons), path.length
            w0 = m.w
            secs = command(name)(path, m, lay)
            if any(getattr(q, "bad", False) for q in secs or ()):
                return  # an arc turning on itself or a curve without a tangent
            if not state_ok(rec, path, m, name) or not length_ok(rec, path.length, length, name, secs):
                return
            for i, (g, e) in enumerate(zip(path.polygons[:before], m.polys)):
                if np.shape(g) != np.shape(e) or np.abs(np.asarray(g) - e).max() > 1e-7:
                    rec.fail("%s: polygon %d was %s, expected %s" % (name, i, geo.fmt(g), geo.fmt(e)))
                    return
            new = path.polygons[before:]
            if not rec.expect(len(path.layers) == len(path.datatypes) == len(path.polygons),
                              lambda: "%s: lengths of polygons, layers and datatypes differ" % name):
                return
            if secs is None:
                if not rec.expect(not new, lambda: "%s added polygons" % name):
                    return
                continue
            if not check_new(rec, path, m, name, secs, new, before, lay, w0):
                return
            m.polys += [np.array(p) for p in new]
            m.types += list(zip(path.layers, path.datatypes))[before:]
            rec.expect(list(zip(path.layers, path.datatypes)) == m.types, lambda: "%s: layers" % name)
            rec.state((str(name), case["cfg"], round(m.x, 6), round(m.y, 6), round(m.w, 6), len(new)))


def length_ok(rec, got, before, name, secs):
    """The length of the central axis; chords may be shorter than the curve by a part of the tolerance."""
    if secs is None:
        op = name if not isinstance(name, str) else {"sc": ("scale", 2), "scc": ("scale", 1.5), "scxy": ("scale", 2, 3)}.get(name, ("other",))
        if op[0] == "scale" and len(op) > 2 and op[2] not in (None, op[1]):
            return True
        want = before * (abs(op[1]) if op[0] == "scale" else 1)
        return rec.expect(abs(got - want) <= 1e-9 * (1 + want), lambda: "%s: length %r, expected %r" % (name, got, want))
    want, slack = before, 1e-9 * (1 + before)
    for s in secs:
        p = np.array([s.curve(i / 128) for i in range(129)], dtype=float)
        n = float(np.hypot(*np.diff(p, axis=0).T).sum())
        want += n
        slack += n * 2e-3 + (3 * s.tol if s.tol else 0)
    return rec.expect(abs(got - want) <= slack, lambda: "%s: length %r, expected %r" % (name, got, want))


def state_ok(rec, path, m, name):
    ok = same((path.x, path.y), (m.x, m.y))
    if not rec.expect(ok, lambda: "%s: position (%r, %r), expected (%r, %r)" % (name, path.x, path.y, m.x, m.y)):
        return False
    d = NAMED[path.direction] if isinstance(path.direction, str) else path.direction
    loose = getattr(m, "loose", False)
    if not rec.expect(same_angle(d, m.ang, 0.3 if loose else 1e-6),
                      lambda: "%s: direction %r, expected %r" % (name, path.direction, m.ang)):
        return False
    if loose:
        m.ang, m.loose = d, False
    if not rec.expect(abs(path.w - m.w) < 1e-9, lambda: "%s: half width %r, expected %r" % (name, path.w, m.w)):
        return False
    return rec.expect(path.n < 2 or abs(path.distance - m.d) < 1e-9,
                      lambda: "%s: distance %r, expected %r" % (name, path.distance, m.d))


def thin(p):
    """All edges run there and back: the polygon covers nothing."""
    p = [tuple(np.round(x, 9)) for x in np.asarray(p, dtype=float)]
    n = {}
    for a, b in zip(p, p[1:] + p[:1]):
        if a != b:
            n[a, b] = n.get((a, b), 0) + 1
    return all(n.get((b, a), 0) == c for (a, b), c in n.items())


def check_new(rec, path, m, name, secs, new, before, lay, w0):
    """Assign the new polygons to sections and parallel paths and check each strip."""
    n = path.n
    flat = all(s.w(u) == 0 for s in secs for u in (0, 0.37, 1))
    if flat:
        # nothing to draw: no polygon or degenerate ones
        return rec.expect(all(thin(p) for p in new), lambda: "%s: zero width path added an area" % name)
    if not rec.expect(new and len(new) % n == 0, lambda: "%s: %d polygons for %d paths" % (name, len(new), n)):
        return False
    lays, dts = layers_of(lay.get("layer", 0), n), layers_of(lay.get("datatype", 0), n)
    pieces = [new[i:i + n] for i in range(0, len(new), n)]
    for i in range(len(new)):
        g = (path.layers[before + i], path.datatypes[before + i])
        if not rec.expect(g == (lays[i % n], dts[i % n]),
                          lambda: "%s: polygon %d on %r, expected %r" % (name, i, g, (lays[i % n], dts[i % n]))):
            return False
    # Pieces of one section end where the next begins: distribute by the section end.
    groups = [[] for _ in secs]
    if len(secs) == 1:
        groups[0] = pieces
    else:
        i = 0
        for s, g in zip(secs, groups):
            ends = [side_curve(s, n, 0, sg)(1) for sg in (-1, 1)]
            while i < len(pieces):
                g.append(pieces[i])
                i += 1
                if all(any(same(v, e, 2e-6) for v in g[-1][0]) for e in ends):
                    break
        if not rec.expect(i == len(pieces) and all(groups),
                          lambda: "%s: %d pieces for %d sections" % (name, len(pieces), len(secs))):
            return False
    for s, g in zip(secs, groups):
        for k in range(n):
            polys = [q[k] for q in g]
            us = loose_strip(rec, name, polys, s, n, k) if s.dangle > 1e-3 else check_strip(rec, name, polys, s, n, k)
            if us is None or not limits(rec, name, s, polys, us, n, k):
                return False
    return True


def loose_strip(rec, name, polys, s, n, k):
    """Numerical derivative: the pairs of opposite points are centred on the curve, at the
    commanded width, about normal to it."""
    if n > 1:
        return {}
    inv = newton_inverse(lambda u: np.asarray(s.curve(u), dtype=float))
    us = [0.0]
    for j, p in enumerate(polys):
        p = np.asarray(p, dtype=float)
        # a zero width makes a single vertex at that end
        tips = (j == 0 and s.w(0) == 0) + (j == len(polys) - 1 and s.w(1) == 0)
        if (len(p) + tips) % 2 == 0:
            if j == 0 and s.w(0) == 0:
                p = np.vstack((p[-1:], p)) if same(p[-1], s.curve(0)) else np.vstack((p, p[:1]))
            if j == len(polys) - 1 and s.w(1) == 0:
                p = np.insert(p, len(p) // 2, p[len(p) // 2], 0)
        h = len(p) // 2
        for a, b in zip(p[:h], p[::-1]):
            u = inv((a + b) / 2, us[-1], 1.0)
            t = s.deriv(u or 0)
            if u is None or abs(np.hypot(*(a - b)) - 2 * s.w(u)) > 1e-6 or \
                    abs((a - b) @ np.asarray(t)) > s.dangle * math.hypot(*t) * 2 * s.w(u):
                rec.fail("%s: %s and %s are not a cross section" % (name, a, b))
                return None
            us.append(u)
    if abs(us[-1] - 1) > 1e-6:
        rec.fail("%s: ends at u=%r" % (name, us[-1]))
        return None
    return {0: us}


def limits(rec, name, s, polys, us, n, k):
    mp = getattr(s, "mp", 0)
    if mp > 0:
        if not rec.expect(all(len(p) <= mp for p in polys),
                          lambda: "%s: pieces of %s points, limit %d" % (name, [len(p) for p in polys], mp)):
            return False
    else:
        if not rec.expect(len(polys) == 1, lambda: "%s: %d pieces without limit" % (name, len(polys))):
            return False
    if getattr(s, "np", None):
        return rec.expect(len(polys[0]) == s.np, lambda: "%s: %d points, expected %d" % (name, len(polys[0]), s.np))
    if s.tol and (mp == 0 or mp > 50 or not hasattr(s, "radius")):
        # the number of segments of arcs is rounded to the nearest, and again in each of the pieces
        q = len(polys)
        seg = max(1, min(((len(x) - 1) // q for x in us.values()), default=1))
        more = (((seg if q == 1 else seg + 2) + 0.5) / seg) ** 2
        # arcs follow the circles of the borders, the other curves are refined by their central axis
        for f, a, b in ((side_curve(s, n, k, sg) if hasattr(s, "radius") else s.curve, a, b) for sg, x in us.items() for a, b in zip(x, x[1:])):
            if b - a < 1e-9:
                continue
            c = (np.asarray(f(a)) + np.asarray(f(b))) / 2
            e = np.hypot(*(c - np.asarray(f((a + b) / 2))))
            lim = s.tol * (1.1 * more if hasattr(s, "radius") else 1.001) + 1e-9
            if not rec.expect(e <= lim, lambda: "%s: chord from u=%.4g to %.4g is off by %.4g, tolerance %g" % (name, a, b, e, s.tol)):
                return False
    return True


def gen(depth, cfgs, names=None):
    names = names or list(COMMANDS)
    for c in cfgs:
        for k in range(1, depth + 1):
            for cmds in itertools.product(names, repeat=k):
                yield dict(cfg=c, cmds=list(cmds))


def placements():
    """Transformations with all small arguments."""
    pts = [(x, y) for x in (-2, 0, 3) for y in (-1, 0, 2)]
    for p in pts:
        yield "translate", p[0], p[1]
        for a in (H, -H, PI, 0.4, -2.2, 5, 0):
            yield "rotate", a, p
        for f in (0.5, 1, 3):
            yield "scale", f, None, p
            yield "scale", f, 2 * f, p
        for q in pts:
            if p != q:
                yield "mirror", p, q
        if any(p):
            yield "mirror", p


def gen_args(tier):
    for x in placements():
        if x[0] == "scale" and x[2] not in (None, x[1]):
            yield dict(cfg=0, cmds=["segd", list(x)])
            continue
        for c in (0, 1, 2, 4) if tier == "thorough" else (1, 4):
            for pre, post in (("seg", "seg"), ("arcl", "l"), ("bez3", "par2"), ("seg-y", "sm")):
                yield dict(cfg=c, cmds=[pre, list(x), post])


FEW = ["seg", "seg-y", "segw0", "segall", "arcd", "arcr", "r", "ll", "t-2", "par2", "parfn",
       "bez3", "sm3", "rotc", "scc", "mic", "scxy", "tr"]


# --------------------------------------------------------------------------------------
# L1Path

def l1_expected(start, direction, width, length, turn, n, dist):
    """Outline, end point and direction of every parallel path: path 0 is the rightmost."""
    a = {"+x": 0, "+y": 1, "-x": 2, "-y": 3}[direction]
    units = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    pos = np.array(start, dtype=float)
    nodes, dirs, facs = [pos], [], []
    f = 1.0
    for j, l in enumerate(length):
        dirs.append(a)
        facs.append(f)
        pos = pos + np.array(units[a]) * l
        nodes.append(pos)
        if j < len(turn):
            f = abs(turn[j])
            a = (a + (1 if turn[j] > 0 else -1)) % 4
    out = []
    for k in range(n):
        sides = []
        for sg in (-1, 1):
            pts = []
            for j in range(len(nodes)):
                ss = [i for i in (j - 1, j) if 0 <= i < len(dirs)]
                p = np.zeros(2)
                q = nodes[j].copy()
                for i in ss:
                    t = np.array(units[dirs[i]], dtype=float)
                    left = np.array((-t[1], t[0]))
                    off = facs[i] * ((k - (n - 1) / 2) * dist + sg * width / 2)
                    q = q + left * off
                pts.append(tuple(q))
            sides.append(pts)
        out.append(sides[0] + sides[1][::-1])
    return out, tuple(nodes[-1]), ["+x", "+y", "-x", "-y"][dirs[-1]]


def run_l1(case, rec):
    import gdspy

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        n = case["n"]
        p = gdspy.L1Path(tuple(case["start"]), case["dir"], case["width"], case["length"], case["turn"],
                         n, case["dist"], case["mp"], [4, 5], [6, 7, 8])
    rec.step()
    exp, end, d = l1_expected(case["start"], case["dir"], case["width"], case["length"], case["turn"], n, case["dist"])
    rec.expect(same((p.x, p.y), end), lambda: "ends at (%r, %r), expected %r" % (p.x, p.y, end))
    rec.expect(p.direction == d, lambda: "direction %r, expected %r" % (p.direction, d))
    lays, dts = layers_of([4, 5], n), layers_of([6, 7, 8], n)
    rec.expect(len(p.polygons) == len(p.layers) == len(p.datatypes), "lengths")
    if case["mp"] == 0:
        if rec.expect(len(p.polygons) == n, lambda: "%d polygons for %d paths" % (len(p.polygons), n)):
            for k in range(n):
                rec.expect(geo.same_polygon(p.polygons[k], exp[k], 1e-9),
                           lambda: "path %d is %s, expected %s" % (k, geo.fmt(p.polygons[k]), geo.fmt(exp[k])))
    else:
        rec.expect(all(len(q) <= case["mp"] for q in p.polygons),
                   lambda: "pieces of %s points, limit %d" % ([len(q) for q in p.polygons], case["mp"]))
        for k in range(n):
            mine = p.polygons[k::n]
            why = geo.check_cover(mine, [exp[k]], lambda x, y: geo.covered([exp[k]], x, y, "nonzero"), 1e-7)
            rec.expect(not why, lambda: "path %d: %s" % (k, why))
    rec.expect(p.layers == [lays[i % n] for i in range(len(p.polygons))]
               and p.datatypes == [dts[i % n] for i in range(len(p.polygons))], "layers and datatypes")
    a = 0.7
    old = [np.array(q) for q in p.polygons]
    p.rotate(a, (1, 2))
    R = np.array([[math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]])
    for g, o in zip(p.polygons, old):
        rec.expect(np.abs(g - ((o - (1, 2)) @ R + (1, 2))).max() < 1e-9, "rotated polygon")
    e2 = (np.array(end) - (1, 2)) @ R + (1, 2)
    rec.expect(same((p.x, p.y), e2), lambda: "after rotation ends at (%r, %r), expected %r" % (p.x, p.y, e2))
    rec.expect(same_angle(p.direction, NAMED[d] + a), "direction after rotation")
    rec.state((case["dir"], tuple(case["turn"]), len(p.polygons)))


def gen_l1(tier):
    deep = 5 if tier == "thorough" else 4
    for d in NAMED:
        for k in range(deep + 1):
            for t in itertools.product((1, -1), repeat=k):
                for n, dist in ((1, 0), (2, 3), (3, 2)):
                    yield dict(start=(1, -2), dir=d, width=1, length=[20 + 4 * i for i in range(k + 1)], turn=list(t),
                               n=n, dist=dist, mp=0)
        for t in itertools.product((1, -1, 2, -0.5), repeat=3):
            for n, dist in ((1, 0), (2, 3)):
                yield dict(start=(0, 0), dir=d, width=1.5, length=[20, 30, 25, 40], turn=list(t), n=n, dist=dist, mp=0)
        for t in itertools.product((1, -1), repeat=deep):
            # spirals and staircases that do not cross themselves
            ln = [20 + 14 * i for i in range(deep + 1)]
            for mp in (6, 8, 9, 199):
                for n, dist in ((1, 0), (2, 3)):
                    yield dict(start=(0, 0), dir=d, width=1, length=ln, turn=list(t), n=n, dist=dist, mp=mp)


def groups(tier):
    deep = tier == "thorough"
    return [
        Group("arguments", lambda: gen_args(tier), run,
              "every transformation with all arguments of a 3 x 3 lattice (7 angles, 6 factors), between sections"),
        Group("final", lambda: gen_final(tier), run,
              "12 kinds of commands x 5 final widths x 5 final distances (zeros included), alone, after and before others"),
        Group("single", lambda: gen(1, range(len(CONFIGS))), run, "every command alone, 4 configurations"),
        Group("pairs", lambda: gen(2, range(len(CONFIGS)) if deep else (2,), None if deep else None), run,
              "all pairs of %d commands" % len(COMMANDS)),
        Group("triples", lambda: gen(3, (0, 2) if deep else (1,), FEW if deep else FEW[::2] + ["mic"]), run,
              "all triples of a selection of commands"),
        Group("l1path", lambda: gen_l1(tier), run_l1,
              "all turn sequences up to length %d, widths, parallel paths, max_points" % (5 if deep else 4)),
    ]
