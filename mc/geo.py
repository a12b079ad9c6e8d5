"""Small, boring plane geometry used by the oracles (no gdspy code)."""
import cmath
import math

import numpy as np


class Aff:
    """z -> a*z + b or a*conj(z) + b."""

    def __init__(self, a=1, b=0, conj=False):
        self.a, self.b, self.conj = complex(a), complex(b), conj

    def __call__(self, z):
        return self.a * (z.conjugate() if self.conj else z) + self.b

    def then(self, g):
        """g after self."""
        if g.conj:
            return Aff(g.a * self.a.conjugate(), g.a * self.b.conjugate() + g.b, not self.conj)
        return Aff(g.a * self.a, g.a * self.b + g.b, self.conj)

    def pts(self, p):
        p = np.asarray(p, dtype=float).reshape(-1, 2)
        z = p[:, 0] + 1j * p[:, 1]
        z = self.a * (z.conj() if self.conj else z) + self.b
        return np.stack((z.real, z.imag), axis=1)


ID = Aff()


def rot(deg):
    """Exact for multiples of 90 degrees."""
    d = deg % 360
    if d % 90 == 0:
        return (1, 1j, -1, -1j)[int(d // 90)]
    return cmath.exp(1j * math.radians(deg))


def placement(origin=(0, 0), rotation=None, magnification=None, x_reflection=False, **kw):
    """Reflection, magnification, rotation, translation: the GDSII order."""
    a = (1 if magnification is None else magnification) * rot(rotation or 0)
    return Aff(a, complex(*origin), bool(x_reflection))


def array_placements(cols, rows, spacing, origin=(0, 0), rotation=None, magnification=None,
                     x_reflection=False, **kw):
    """The array lattice is reflected and rotated, not magnified."""
    base = placement((0, 0), rotation, magnification, x_reflection)
    lat = placement((0, 0), rotation, None, x_reflection)
    out = []
    for i in range(cols):
        for j in range(rows):
            t = lat(complex(i * spacing[0], j * spacing[1])) + complex(*origin)
            out.append(Aff(base.a, t, base.conj))
    return out


def area2(p):
    """Twice the signed area."""
    p = np.asarray(p, dtype=float)
    x, y = p[:, 0], p[:, 1]
    return float(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


def area(p):
    return abs(area2(p)) / 2


def clean(p, tol=1e-8):
    """Without repeated consecutive vertices."""
    p = np.asarray(p, dtype=float)
    if len(p) < 2:
        return p
    keep = np.abs(p - np.roll(p, 1, axis=0)).max(axis=1) > tol
    return p[keep] if keep.any() else p[:1]


def same_polygon(p, q, tol=1e-8):
    """Equal as closed outlines: any starting vertex and direction, repeated vertices
    count once."""
    p = np.asarray(p, dtype=float)
    q = np.asarray(q, dtype=float)
    return _same(p, q, tol) or _same(clean(p, tol), clean(q, tol), tol)


def _same(p, q, tol):
    if p.shape != q.shape:
        return False
    if len(p) == 0:
        return True
    if np.abs(p - q).max() <= tol:
        return True
    n = len(p)
    start = np.nonzero(np.abs(q - p[0]).max(axis=1) <= tol)[0]
    for s in start:
        idx = (s + np.arange(n)) % n
        if np.abs(p - q[idx]).max() <= tol:
            return True
        idx = (s - np.arange(n)) % n
        if np.abs(p - q[idx]).max() <= tol:
            return True
    return False


def match_polygons(got, exp, tol=1e-8):
    """None or a reason: both lists hold the same outlines, in any order."""
    if len(got) != len(exp):
        return "%d polygons, expected %d" % (len(got), len(exp))
    left = list(exp)
    for g in got:
        for i, x in enumerate(left):
            if same_polygon(g, x, tol):
                del left[i]
                break
        else:
            return "polygon %s is not expected (one of %s)" % (
                fmt(g), "; ".join(fmt(x) for x in left[:3]))
    return None


def fmt(p):
    p = np.asarray(p, dtype=float)
    return "[%s%s]" % (", ".join("(%.9g, %.9g)" % (a, b) for a, b in p[:12]),
                       ", ..." if len(p) > 12 else "")


def bbox(polys):
    polys = [np.asarray(p, dtype=float) for p in polys if len(p)]
    if not polys:
        return None
    a = np.concatenate(polys)
    return np.array((a.min(axis=0), a.max(axis=0)))


def same_bbox(a, b, tol=1e-8):
    if a is None or b is None:
        return a is None and b is None
    return bool(np.abs(np.asarray(a, dtype=float) - b).max() <= tol)


def winding(p, x, y):
    """Winding number of polygon p around each point (x, y arrays), points off the edges."""
    p = np.asarray(p, dtype=float)
    q = np.roll(p, -1, axis=0)
    w = np.zeros(np.shape(x), dtype=int)
    for (x0, y0), (x1, y1) in zip(p, q):
        up = (y0 <= y) & (y1 > y)
        dn = (y0 > y) & (y1 <= y)
        side = (x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)
        w += (up & (side > 0)).astype(int)
        w -= (dn & (side < 0)).astype(int)
    return w


def covered(polys, x, y, rule="evenodd"):
    """Points covered by a union of polygons, each with its own fill rule."""
    c = np.zeros(np.shape(x), dtype=bool)
    for p in polys:
        w = winding(p, x, y)
        c |= (w % 2 != 0) if rule == "evenodd" else (w != 0)
    return c


def count(polys, x, y, rule="evenodd"):
    c = np.zeros(np.shape(x), dtype=int)
    for p in polys:
        w = winding(p, x, y)
        c += (w % 2 != 0) if rule == "evenodd" else (w != 0)
    return c


def dist_segments(x, y, segs):
    """Distance of each point to the nearest of the segments [(x0, y0, x1, y1)]."""
    best = np.full(np.shape(x), np.inf)
    for x0, y0, x1, y1 in segs:
        dx, dy = x1 - x0, y1 - y0
        L = dx * dx + dy * dy
        t = np.clip(((x - x0) * dx + (y - y0) * dy) / L, 0, 1) if L > 0 else 0
        best = np.minimum(best, np.hypot(x - x0 - t * dx, y - y0 - t * dy))
    return best


def edges(polys):
    out = []
    for p in polys:
        p = np.asarray(p, dtype=float)
        q = np.roll(p, -1, axis=0)
        out += [(a[0], a[1], b[0], b[1]) for a, b in zip(p, q)]
    return out


def simple(p):
    """No two non-adjacent edges of the outline touch."""
    p = [tuple(map(float, v)) for v in p]
    n = len(p)

    def orient(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    def on(a, b, c):
        return (min(a[0], b[0]) <= c[0] <= max(a[0], b[0])
                and min(a[1], b[1]) <= c[1] <= max(a[1], b[1]))

    def cross(a, b, c, d):
        o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
        if ((o1 > 0) != (o2 > 0) and o1 and o2) and ((o3 > 0) != (o4 > 0) and o3 and o4):
            return True
        return any((o == 0 and on(u, v, w)) for o, u, v, w in (
            (o1, a, b, c), (o2, a, b, d), (o3, c, d, a), (o4, c, d, b)))

    for i in range(n):
        if p[i] == p[(i + 1) % n]:
            return False
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                # neighbours: only spikes are a problem
                a, b, c = (p[i], p[(i + 1) % n], p[(j + 1) % n]) if j == i + 1 else (
                    p[j], p[i], p[1])
                if orient(a, b, c) == 0 and (
                        (a[0] - b[0]) * (c[0] - b[0]) + (a[1] - b[1]) * (c[1] - b[1]) > 0):
                    return False
                continue
            if cross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]):
                return False
    return True


def faces(segs, eps):
    """Sample points, one in every trapezoid (between consecutive event abscissas and
    consecutive segments) of the arrangement of the segments that is wider and taller
    than eps: returns arrays x, y, area. Together they represent every face of the
    arrangement up to slivers thinner than eps."""
    s = np.asarray(segs, dtype=float).reshape(-1, 4)
    s = np.unique(np.where((s[:, :1] > s[:, 2:3]) | ((s[:, :1] == s[:, 2:3]) & (s[:, 1:2] > s[:, 3:])),
                           s[:, [2, 3, 0, 1]], s), axis=0)
    ev = [s[:, 0], s[:, 2]]
    n = len(s)
    i, j = np.triu_indices(n, 1)
    a, b = s[i], s[j]
    r = a[:, 2:] - a[:, :2]
    q = b[:, 2:] - b[:, :2]
    d = r[:, 0] * q[:, 1] - r[:, 1] * q[:, 0]
    w = b[:, :2] - a[:, :2]
    with np.errstate(all="ignore"):
        t = (w[:, 0] * q[:, 1] - w[:, 1] * q[:, 0]) / d
        u = (w[:, 0] * r[:, 1] - w[:, 1] * r[:, 0]) / d
        ok = (d != 0) & (t > -1e-9) & (t < 1 + 1e-9) & (u > -1e-9) & (u < 1 + 1e-9)
    ev.append((a[:, 0] + t * r[:, 0])[ok])
    ev = np.sort(np.concatenate(ev))
    x0, x1 = ev[:-1], ev[1:]
    k = x1 - x0 > eps
    x0, x1 = x0[k], x1[k]
    xm = (x0 + x1) / 2
    nv = s[s[:, 2] - s[:, 0] > 0]
    if len(nv) == 0 or len(xm) == 0:
        return np.zeros(0), np.zeros(0), np.zeros(0)
    m = (nv[:, 3] - nv[:, 1]) / (nv[:, 2] - nv[:, 0])
    y = nv[None, :, 1] + m[None, :] * (xm[:, None] - nv[None, :, 0])
    act = (xm[:, None] > nv[None, :, 0]) & (xm[:, None] < nv[None, :, 2])
    y = np.sort(np.where(act, y, np.nan), axis=1)
    h = y[:, 1:] - y[:, :-1]
    with np.errstate(invalid="ignore"):
        good = h > eps
    ym = (y[:, 1:] + y[:, :-1]) / 2
    xx = np.broadcast_to(xm[:, None], ym.shape)
    ww = np.broadcast_to((x1 - x0)[:, None], ym.shape)
    return xx[good], ym[good], (ww * h)[good]


def perimeter(polys):
    return sum(float(np.hypot(*(np.asarray(p, dtype=float) - np.roll(p, -1, axis=0)).T).sum())
               for p in polys)


def on_grid(polys, prec):
    """All coordinates are multiples of the precision."""
    for p in polys:
        q = np.asarray(p, dtype=float) / prec
        if (np.abs(q - np.round(q)) > 1e-6 + 1e-14 * np.abs(q)).any():
            return False
    return True


SEAM = np.array([1 / 32, 0.19, 0.31, 0.437, 0.57, 0.69, 0.81, 31 / 32])


def check_cover(got, edges_of, want, eps, rule="evenodd", overlap=True):
    """None or a reason. `want(x, y)` -> bool array says which points must be covered by
    the polygons `got`; every face of the joint arrangement of the polygons `edges_of` and
    of `got` is decided. With overlap=True the polygons of `got` must not overlap."""
    got = [np.asarray(p, dtype=float).reshape(-1, 2) for p in got]
    x, y, ar = faces(edges(edges_of) + edges(got), eps)
    w = want(x, y)
    c = np.zeros(x.shape, dtype=int)
    for p in got:
        wn = winding(p, x, y)
        c += (wn % 2 != 0) if rule == "evenodd" else (wn != 0)
        if rule == "evenodd" and overlap and (np.abs(wn) > 1).any():
            i = int(np.argmax(np.abs(wn)))
            return "a result polygon winds %d times around (%g, %g)" % (wn[i], x[i], y[i])
    bad = np.nonzero((c > 0) != w)[0]
    if len(bad):
        # a moved edge is a sliver along the boundary, however long it is
        far = dist_segments(x[bad], y[bad], edges(edges_of)) > eps / 2 if edges_of else bad >= 0
        bad = bad[far]
    if len(bad):
        i = bad[int(np.argmax(ar[bad]))]
        return "(%.6g, %.6g), in a region of area %.3g, is %scovered" % (
            x[i], y[i], ar[i], "" if c[i] else "not ")
    over = np.nonzero(c > 1)[0] if overlap else []
    if len(over):
        over = over[dist_segments(x[over], y[over], edges(got)) > eps / 2]
    if len(over):
        i = over[0]
        return "result polygons overlap at (%.6g, %.6g)" % (x[i], y[i])
    # seams (of holes) must not leave the region either: they have no area
    e = np.array(edges(got))
    if rule == "evenodd" and len(e) and edges_of:
        e = e[np.hypot(e[:, 2] - e[:, 0], e[:, 3] - e[:, 1]) > 4 * eps]
        t = SEAM[:, None]
        x = (e[:, 0] + t * (e[:, 2] - e[:, 0])).ravel()
        y = (e[:, 1] + t * (e[:, 3] - e[:, 1])).ravel()
        out = np.nonzero(~want(x, y))[0]
        if len(out):
            out = out[dist_segments(x[out], y[out], edges(edges_of)) > eps]
        if len(out):
            return "an edge of the result leaves the region at (%.6g, %.6g)" % (x[out[0]], y[out[0]])
    return None
