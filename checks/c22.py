"""C22: Curve commands against a reference interpreter of the same commands."""
import itertools
import math

import numpy as np

from mc import geo, hobby as hb
from mc.engine import Group

H = math.pi / 2


def arr(x):
    return np.array(x, dtype=float)


class Bez:
    """Bernstein curve; exact inverse through the roots of a polynomial."""

    def __init__(self, ctrl):
        self.c = [complex(*p) for p in ctrl]
        n = len(self.c) - 1
        co = []
        for k in range(n + 1):
            co.append(math.comb(n, k) * sum((-1) ** (k - i) * math.comb(k, i) * self.c[i] for i in range(k + 1)))
        self.p = np.array(co[::-1])

    def __call__(self, u):
        return np.polyval(self.p, u)

    def inverse(self, z, lo):
        d = self.p.copy()
        d[-1] -= z
        q = np.polyder(d)
        if not q.any():
            return lo if abs(d[-1]) < 1e-7 else None
        # stationary points of the squared distance
        g = np.real(np.polymul(d, q.conj()))
        while len(g) > 1 and abs(g[0]) < 1e-13 * abs(g).max():
            g = g[1:]
        best = None
        for r in list(np.roots(g)) + [0, 1]:
            if abs(r.imag) > 1e-3 and abs(self(r.real) - z) > 1e-7:
                continue
            u = min(1.0, max(0.0, float(r.real)))
            if u >= lo - 1e-5 and abs(self(u) - z) < 1e-7 and (best is None or u < best):
                best = u
        return None if best is None else max(best, lo)


class Arc:
    def __init__(self, z0, rx, ry, a0, a1, rot):
        self.rx, self.ry, self.a0, self.a1 = rx, ry, a0 - rot, a1 - rot
        self.t = complex(math.cos(rot), math.sin(rot))
        self.o = z0 - self.t * complex(rx * math.cos(self.a0), ry * math.sin(self.a0))

    def __call__(self, u):
        a = self.a0 + (self.a1 - self.a0) * u
        return self.o + self.t * complex(self.rx * math.cos(a), self.ry * math.sin(a))

    def inverse(self, z, lo):
        w = (z - self.o) / self.t
        a = math.atan2(w.imag / self.ry, w.real / self.rx)
        full = self.a1 - self.a0
        cur = self.a0 + full * lo
        da = (a - cur) % (2 * math.pi) if full > 0 else -((cur - a) % (2 * math.pi))
        if abs(da) > 2 * math.pi - 1e-6:
            da = 0
        u = lo + da / full
        return min(u, 1.0) if u < 1 + 1e-6 and abs(self(min(u, 1.0)) - z) < 1e-7 else None


class Line:
    def __init__(self, a, b):
        self.a, self.b = a, b


def pairs(a):
    """Coordinates or complex numbers -> complex numbers."""
    out, a = [], list(a)
    while a:
        x = a.pop(0)
        out.append(x if isinstance(x, complex) else complex(x, a.pop(0)))
    return out


class Ref:
    def __init__(self, z):
        self.z, self.c, self.q = complex(z), None, None

    def run(self, name, args, kw):
        """Pieces added by the command."""
        z0 = self.z
        base = z0 if name.islower() else 0
        low = name.lower()
        out = []
        c, q = self.c, self.q
        self.c = self.q = None
        if name == "arc":
            r, a0, a1 = args[:3]
            rx, ry = r if isinstance(r, (tuple, list)) else (r, r)
            out.append(Arc(z0, rx, ry, a0, a1, args[3] if len(args) > 3 else kw.get("rotation", 0)))
            self.z = out[-1](1)
            return out
        if low == "l":
            ends = [base + w for w in pairs(args)]
        elif low == "h":
            ends = [complex((z0.real if base else 0) + x, z0.imag) for x in args] if name == "h" else [complex(x, z0.imag) for x in args]
        elif low == "v":
            ends = [complex(z0.real, z0.imag + y) if name == "v" else complex(z0.real, y) for y in args]
        if low in "lhv":
            for e in ends:
                out.append(Line(self.z, e))
                self.z = e
            return out
        if low == "i":
            pts = [z0] + [base + complex(*p) for p in args[0]]
            ctl = hb.hobby([(p.real, p.imag) for p in pts], reduce=False, **kw)
            for k, (a, b) in enumerate(ctl):
                e = pts[(k + 1) % len(pts)]
                out.append(Bez([(w.real, w.imag) for w in (self.z, a, b, e)]))
                self.z, self.c = e, b
            return out
        w = [base + x for x in pairs(args)]
        if low == "b":
            out.append(Bez([(p.real, p.imag) for p in [z0] + w]))
            self.z = w[-1]
            return out
        step = {"c": 3, "s": 2, "q": 2, "t": 1}[low]
        if low == "s" and c is None:
            c = z0
        if low == "t" and q is None:
            q = z0
        for k in range(0, len(w), step):
            g = w[k:k + step]
            if low == "s":
                g = [2 * self.z - c] + g
            if low == "t":
                g = [2 * self.z - q] + g
            out.append(Bez([(p.real, p.imag) for p in [self.z] + g]))
            self.z = g[-1]
            c, q = g[-2], g[-2]
        if low in "cs":
            self.c = c
        else:
            self.q = q
        return out


CMD = {
    "L": ("L", (3, 1), {}), "L3": ("L", (3, 1, 2 + 3j, -1, 2), {}), "l": ("l", (2, -1), {}), "l3": ("l", (2, 1, 1j, 3, 2), {}),
    "H": ("H", (4,), {}), "H2": ("H", (4, -2), {}), "h": ("h", (1.5,), {}), "h3": ("h", (2, 3, -1), {}),
    "V": ("V", (3,), {}), "V2": ("V", (-3, 2), {}), "v": ("v", (1.5,), {}), "v3": ("v", (1, -2, 2), {}),
    "C": ("C", (1, 2, 3, 2, 4, 0), {}), "C2": ("C", (1j, 1 + 2j, 2, 2, 3, 3, 2 - 1j, 4, 1), {}),
    "c": ("c", (0, 1, 2, 1, 2, 0), {}), "c2": ("c", (1, 0, 1 + 1j, 0.5, 2, 0, 3, 2, 3, 3, 2), {}),
    "S": ("S", (3, 2, 5, 3), {}), "S2": ("S", (2 - 1j, 3, 0, 2, 3, 4, 2), {}), "s": ("s", (2, 1, 1, 2), {}),
    "s2": ("s", (1j, 2, 1, 3, -1, 4, 1), {}),
    "Q": ("Q", (2, 3, 4, 1), {}), "Q2": ("Q", (1 + 3j, 3, 2, 4, 0, 5 + 2j), {}), "q": ("q", (1, 2, 3, 1), {}), "q2": ("q", (0, 2, 2 + 1j, 3, 0, 4, 2), {}),
    "T": ("T", (6, -1.5), {}), "T2": ("T", (3 - 1j, 5, 2), {}), "t": ("t", (2, 1), {}), "t3": ("t", (1j, 2, 2, 4, 1), {}),
    "B": ("B", (1, 3, 4, 2), {}), "B4": ("B", (0, 2, 2 + 3j, 4, -1, 5, 2), {}), "b": ("b", (1, 1), {}), "b4": ("b", (1, 2, 3, 2, 4, 0, 3, -1), {}),
    "I": ("I", ([(2.5, 4.5), (4, 5)],), {}), "Ia": ("I", ([(5.5, 1), (6.5, 4)],), dict(angles=[0.3, None, 1.2], t_in=1.2, t_out=0.9)),
    "Ic": ("I", ([(4.5, 0.5), (3.5, 4)],), dict(cycle=True)), "i": ("i", ([(2, 1), (3, 3)],), dict(curl_start=0.5, curl_end=0)),
    "i1": ("i", ([(2, 2)],), dict(angles=[0.1, 1.3])), "ic": ("i", ([(3, 0), (3, 2), (1, 3)],), dict(cycle=True, t_in=[1, 1.1, 1, 1], t_out=1.1)),
    "A": ("arc", (2, 0, H), {}), "Acw": ("arc", (1.5, H, -0.7), {}), "Ae": ("arc", ((3, 1.5), 0.2, 2.5), {}),
    "Aer": ("arc", ((3, 1), 0.2, 3.5, 0.6), {}), "Afull": ("arc", (1, 0.4, 0.4 + 4 * H), {}), "Ar": ("arc", ([2, 2], 1, -1), dict(rotation=0.5)),
}
STARTS = {"0": (0, 0), "s": (1, -2), "z": (-1 + 1j,), "x": (2,)}


def zc(p):
    return complex(float(p[0]), float(p[1]))


def walk(rec, name, piece, new, prev, tol):
    """Consume the vertices of one piece; returns how many, or None."""
    if isinstance(piece, Line):
        ok = rec.expect(len(new) > 0 and abs(zc(new[0]) - piece.b) < 1e-9, lambda: "%s: vertex %s, expected %s" % (name, new[:1], piece.b))
        return 1 if ok else None
    us, k = [0.0], 0
    end = piece(1)
    while True:
        if not rec.expect(k < len(new), lambda: "%s: ends at %s instead of %s" % (name, new[-1:], end)):
            return None
        z = zc(new[k])
        u = piece.inverse(z, us[-1])
        if not rec.expect(u is not None, lambda: "%s: vertex %s is not on the curve after u=%.6g" % (name, z, us[-1])):
            return None
        us.append(u)
        k += 1
        if abs(z - end) < 1e-9 and u > 1 - 1e-4:
            break
    pts = [prev] + [zc(p) for p in new[:k]]
    for i in range(k):
        a, b = pts[i], pts[i + 1]
        q = [piece(us[i] + (us[i + 1] - us[i]) * t / 10) for t in range(1, 10)]
        e = geo.dist_segments(np.array([w.real for w in q]), np.array([w.imag for w in q]), [(a.real, a.imag, b.real, b.imag)]).max()
        # arcs: the number of chords, 2 or more, is rounded; cubics: the distances in the middle
        # and between the halves are limited, both add up to 1.74 of it
        lim = 1.6 if isinstance(piece, Arc) else 1.001 if len(piece.c) < 4 else 1.75
        if not rec.expect(e <= lim * tol, lambda: "%s: chord %s-%s is off the curve by %.4g, tolerance %g" % (name, a, b, e, tol)):
            return None
    return k


def get(c, ref, start, tol, rec):
    """All vertices, including the last one where get_points leaves it out."""
    p = c.get_points()
    if abs(ref.z - start) < tol * (1 - 1e-6):
        # closed: the last point is not repeated
        return [*p, (ref.z.real, ref.z.imag)]
    return list(p)


def coincident(z, m, pts):
    """Knots of an interpolation that have no distance between them."""
    w = [z] + [(z if m == "i" else 0) + complex(*p) for p in pts]
    return any(abs(a - b) < 1e-9 for a, b in zip(w, w[1:]))


def run(case, rec):
    import gdspy

    tol = case.get("tol", 0.01)
    st = STARTS[case["start"]]
    c = gdspy.Curve(*st, tolerance=tol) if tol != 0.01 else gdspy.Curve(*st)
    z = st[0] if isinstance(st[0], complex) else complex(st[0], st[1] if len(st) > 1 else 0)
    ref = Ref(z)
    old = get(c, ref, z, tol, rec)
    rec.expect(len(old) == 1 and abs(zc(old[0]) - z) < 1e-12, "start")
    for name in case["cmds"]:
        m, a, k = CMD[name] if isinstance(name, str) else (name[0], decode(name[1]), {})
        before = ref.z
        if name[0] in "Ii" and coincident(before, m, a[0]):
            return
        pieces = ref.run(m, a, k)
        if any(isinstance(p, Bez) and max(abs(w - p.c[0]) for w in p.c) < 1e-9 for p in pieces):
            return
        r = getattr(c, m)(*a, **k)
        if not rec.expect(r is c, "%s does not return the curve" % m):
            return
        pts = get(c, ref, z, tol, rec)
        n = len(old)
        what = "%s of %s" % (name, case["cmds"])
        if not rec.expect(len(pts) > n and np.abs(arr(pts[:n]) - arr(old)).max() < 1e-9, lambda: "%s changed the previous points" % what):
            return
        new, prev = pts[n:], before
        for p in pieces:
            used = walk(rec, what, p, new, prev, tol)
            if used is None:
                return
            prev = zc(new[used - 1])
            new = new[used:]
        if not rec.expect(len(new) == 0, lambda: "%s: %d more points, starting at %s" % (what, len(new), new[0])):
            return
        old = pts
        rec.step()
    got = c.get_points()
    rec.expect(isinstance(got, np.ndarray) and got.shape[1:] == (2,), "type of get_points")
    if len(got):
        got += 100
        rec.expect(np.abs(c.get_points() + 100 - got).max() < 1e-9, "changing the points returned changes the curve")
    rec.state((case["start"], str(case["cmds"]), tol))


def decode(args):
    return tuple(complex(*v) if isinstance(v, (list, tuple)) else v for v in args)


KNOTS = [(2, 1), (3, -1), (5, 2), (4, 4), (1, 5), (-2, 3), (-1, -2), (2, -3), (4, 1)]


def gen_forms(tier):
    """Every command of several sections with its points as numbers or complex numbers, in all mixtures."""
    for m in "LlCcSsQqTtBb":
        step = {"l": 1, "c": 3, "s": 2, "q": 2, "t": 1, "b": 1}[m.lower()]
        for secs in range(1, 4 if step > 1 or m in "Bb" else 6):
            k = secs * step + (m in "Bb")
            full = k <= (9 if tier == "thorough" else 6)
            for mix in itertools.product((0, 1), repeat=k) if full else [tuple((i >> j) & 1 for i in range(k)) for j in range(3)]:
                args = []
                for p, c in zip(KNOTS, mix):
                    args += [list(p)] if c else list(p)
                for pre in (["l"], ["C"], ["q"]) if m in "SsTt" else (["l"],):
                    yield dict(start="s", cmds=pre + [[m, args]])


def gen_inflection(tier):
    """Cubics with an inflection in the middle of a piece, where their distance from the chord vanishes."""
    for k, i in itertools.product((20, 60) if tier == "quick" else (20, 60, 200, 600), range(1, 40)):
        u = i / 40
        # (u' - u)^3 in Bernstein form, times k
        y = [k * v for v in (-u ** 3, u ** 2 * (1 - u), -u * (1 - u) ** 2, (1 - u) ** 3)]
        rel = [v for j in (1, 2, 3) for v in (10 * j / 3, y[j] - y[0])]
        ab = [v + (1, -2)[j % 2] for j, v in enumerate(rel)]
        for m in "CcBb":
            yield dict(start="s", cmds=[[m, ab if m in "CB" else rel]])
        # the first control point of S and s is the reflection of the last one before
        z = (2, 1)
        pre = ["C", [0, 1, z[0] - rel[0], z[1] - rel[1], *z]]
        yield dict(start="s", cmds=[pre, ["S", [v + z[j % 2] for j, v in enumerate(rel[2:])]]])
        yield dict(start="s", cmds=[pre, ["s", rel[2:]]])


SMOOTH = ["L", "h", "C", "c2", "S", "s2", "Q", "q2", "T", "t3", "b", "i", "A"]


def gen(tier):
    deep = tier == "thorough"
    for s in STARTS:
        for tol in (0.01, 0.1, 0.001, 0.03, 0.004, 0.0003):
            for a in CMD:
                yield dict(start=s, cmds=[a], tol=tol)
    for a, b in itertools.product(CMD, repeat=2):
        yield dict(start="s", cmds=[a, b])
    for e in itertools.product(list(CMD) if deep else SMOOTH, repeat=3):
        yield dict(start="s", cmds=list(e))
    if deep:
        for e in itertools.product(SMOOTH, repeat=4):
            yield dict(start="z", cmds=list(e))


def closing(case, rec):
    """The last point is left out when and only when it is within the tolerance of the first."""
    import gdspy

    x, y, d, tol = case["x"], case["y"], case["d"], case["tol"]
    p = gdspy.Curve(x, y, tol).L(x + 2, y, x + 2, y + 2, x + d * 0.6, y + d * 0.8).get_points()
    exp = [(x, y), (x + 2, y), (x + 2, y + 2)] + ([(x + d * 0.6, y + d * 0.8)] if d > tol else [])
    rec.expect(p.shape == (len(exp), 2) and np.abs(p - exp).max() < 1e-12, lambda: "points %s, expected %s" % (p.tolist(), exp))
    rec.step()
    rec.state(str(case))


def groups(tier):
    return [
        Group("forms", lambda: gen_forms(tier), run,
              "commands of up to 3 (5) sections, every point as two numbers or one complex number, in all mixtures"),
        Group("commands", lambda: gen(tier), run,
              "all sequences of %d commands up to depth 2, %d of them to depth %d, 4 starts, 6 tolerances" % (
                  len(CMD), len(CMD) if tier == "thorough" else len(SMOOTH), 3)),
        Group("inflections", lambda: gen_inflection(tier), run,
              "cubics with an inflection at 39 parameters, %d sizes, all six commands" % (2 if tier == "quick" else 4)),
        Group("closing", lambda: (dict(x=x, y=y, d=d, tol=t) for x in (0, -3) for y in (0, 2) for t in (0.01, 0.5)
                                  for d in (0, t * 0.5, t * 0.99, t * 1.01, 2 * t)), closing,
              "closing distances around the tolerance"),
    ]
