"""The region a FlexPath describes, as a list of simple pieces (no gdspy code)."""
import math

import numpy as np

from mc import hobby as hb

ARC = 120  # pieces of a full turn in the ideal round shapes: finer than any tolerance used


def unit(v):
    return v / math.hypot(*v)


def left(v):
    """Left normal."""
    return np.array((-v[1], v[0]))


def meet(p0, v0, p1, v1):
    """Parameters of the intersection of two lines, None for parallel ones."""
    den = v0[0] * v1[1] - v0[1] * v1[0]
    if den * den < 1e-12 * (v0 @ v0) * (v1 @ v1):
        return None
    d = p1 - p0
    return (d[0] * v1[1] - d[1] * v1[0]) / den, (d[0] * v0[1] - d[1] * v0[0]) / den


def dedup(spine, *cols):
    keep = [0] + [i for i in range(1, len(spine)) if tuple(spine[i]) != tuple(spine[i - 1])]
    return [np.asarray(c, dtype=float)[keep] for c in (spine,) + cols]


def offset_spine(S, off):
    """Intersections of the lines at the (linearly varying) offsets to the left of each section."""
    S, off = dedup(np.asarray(S, dtype=float), off)
    if not off.any():
        return S
    n = [left(unit(b - a)) for a, b in zip(S, S[1:])]
    a = [S[i] + n[i] * off[i] for i in range(len(n))]
    b = [S[i + 1] + n[i] * off[i + 1] for i in range(len(n))]
    out = [a[0]]
    for i in range(1, len(n)):
        m = meet(a[i - 1], b[i - 1] - a[i - 1], a[i], b[i] - a[i])
        out.append((b[i - 1] + a[i]) / 2 if m is None else a[i - 1] + m[0] * (b[i - 1] - a[i - 1]))
    return np.array(out + [b[-1]])


LOG = []   # (centre, radius, angle) of the arcs of the ideal regions


def arc(c, r, a0, a1):
    if len(LOG) < 10000:
        LOG.append((np.asarray(c, dtype=float), r, abs(a1 - a0)))
    k = max(2, int(abs(a1 - a0) / (2 * math.pi) * ARC) + 2)
    return [c + r * np.array((math.cos(a), math.sin(a))) for a in np.linspace(a0, a1, k)]


def curve(p0, v0, p1, v1):
    """Hobby curve from p0 along v0 to p1 arriving along v1."""
    (c0, c1), = hb.hobby([p0, p1], [math.atan2(v0[1], v0[0]), math.atan2(v1[1], v1[0])], reduce=False)
    f, _ = hb.bezier([p0, c0, c1, p1])
    return [np.array(f(i / 24)) for i in range(25)]


def strip(P, w, corner="natural", end="flush", R=None):
    """P: offset spine; w: widths at its vertices.  Returns polygons to be united."""
    P = np.asarray(P, dtype=float)
    w = np.asarray(w, dtype=float)
    m = len(P) - 1
    t = [unit(b - a) for a, b in zip(P, P[1:])]
    n = [left(x) for x in t]
    out = []

    def edge(k, sg):
        """Border of section k on the given side."""
        a = P[k] + sg * n[k] * w[k] / 2
        b = P[k + 1] + sg * n[k] * w[k + 1] / 2
        return a, b

    cut0 = [0.0] * m   # shortening of the sections by circular bends
    cut1 = [0.0] * m
    if isinstance(end, tuple):
        # negative extensions shorten the first and last sections
        cut0[0], cut1[-1] = max(0, -end[0]), max(0, -end[1])
    if corner == "circular bend":
        for j in range(1, m):
            da = math.atan2(t[j - 1][0] * t[j][1] - t[j - 1][1] * t[j][0], t[j - 1] @ t[j])
            if abs(da) < 1e-9:
                continue
            cut = R * math.tan(abs(da) / 2)
            cut1[j - 1] += cut
            cut0[j] += cut
            sg = 1 if da > 0 else -1
            c = P[j] - t[j - 1] * cut + sg * n[j - 1] * R
            a0 = math.atan2(-sg * n[j - 1][1], -sg * n[j - 1][0])
            out.append(arc(c, R + w[j] / 2, a0, a0 + da) + arc(c, R - w[j] / 2, a0, a0 + da)[::-1])
    for k in range(m):
        l0, l1 = edge(k, 1)
        r0, r1 = edge(k, -1)
        if cut0[k] or cut1[k]:
            assert w[k] == w[k + 1] and cut0[k] + cut1[k] <= math.hypot(*(P[k + 1] - P[k])) + 1e-9
            l0, r0 = l0 + t[k] * cut0[k], r0 + t[k] * cut0[k]
            l1, r1 = l1 - t[k] * cut1[k], r1 - t[k] * cut1[k]
        out.append([r0, r1, l1, l0])
    for j in range(1, m):
        if corner == "circular bend":
            break
        for sg in (1, -1):
            a, p0 = edge(j - 1, sg)
            p1, b = edge(j, sg)
            v0, v1 = p0 - a, b - p1
            c = meet(p0, v0, p1, v1)
            turn = t[j - 1][0] * t[j][1] - t[j - 1][1] * t[j][0]
            outer = turn * sg < -1e-9
            if not outer or w[j] == 0:
                continue
            h = w[j] / 2
            if corner == "miter":
                fill = [p0] + ([] if c is None else [p0 + c[0] * v0]) + [p1]
            elif corner == "bevel":
                fill = [p0, p1]
            elif corner == "natural":
                e0, e1 = unit(v0) * h, unit(v1) * h
                c = meet(p0, e0, p1, e1)
                if c is None or (c[0] <= 1 and c[1] >= -1):
                    fill = [p0] + ([] if c is None else [p0 + c[0] * e0]) + [p1]
                else:
                    fill = [p0, p0 + e0 * min(1, c[0]), p1 + e1 * max(-1, c[1]), p1]
            elif corner == "round":
                a0 = math.atan2(*(p0 - P[j])[::-1])
                a1 = a0 + math.remainder(math.atan2(*(p1 - P[j])[::-1]) - a0, 2 * math.pi)
                fill = arc(P[j], h, a0, a1)
            elif corner == "smooth":
                fill = curve(p0, v0, p1, v1)
            else:
                fill = [np.asarray(q, dtype=float) for q in corner(p0, v0, p1, v1, P[j], w[j])]
            out.append([P[j]] + fill)
    for q in (0, 1):
        k = (0, m - 1)[q]
        c = P[(0, m)[q]]
        d = (-t[0], t[-1])[q]
        h = w[(0, -1)[q]] / 2
        r = edge(k, -1)[q]
        l = edge(k, 1)[q]
        vr = edge(k, -1)[q] - edge(k, -1)[1 - q]
        vl = edge(k, 1)[q] - edge(k, 1)[1 - q]
        if isinstance(end, str) and end == "flush":
            continue
        if callable(end):
            # the outline passes from the right to the left border
            out.append([np.asarray(x, dtype=float) for x in end(r, vr, l, -vl)])
        elif end == "round":
            a = math.atan2(d[1], d[0])
            out.append(arc(c, h, a - math.pi / 2, a + math.pi / 2))
        elif end == "smooth":
            out.append(curve(r, vr, l, -vl))
        else:
            e = h if end == "extended" else end[q]
            s = n[k] * h
            if e > 0:
                out.append([c + s, c - s, c - s + d * e, c + s + d * e])
    return [np.array(p) for p in out]



def regular(S, w, off, corner="natural", R=None):
    """Sections long enough for their corners, no reversals: the region is the plain union."""
    S, w, off = dedup(S, w, off)
    P = offset_spine(S, off)
    if len(P) < 2:
        return False
    cut = [0.0] * len(P)
    for j in range(1, len(P) - 1):
        a, b = P[j] - P[j - 1], P[j + 1] - P[j]
        if not a.any() or not b.any():
            return False
        da = abs(math.atan2(a[0] * b[1] - a[1] * b[0], a @ b))
        if da > 2.45:
            return False
        cut[j] = w[j] / 2 * math.tan(da / 2)
        if corner == "circular bend" and da > 1e-9:
            if not R > w[j] / 2 or w[j - 1] != w[j] or w[j] != w[j + 1]:
                return False
            cut[j] = R * math.tan(da / 2)
    for k in range(len(P) - 1):
        d, e = P[k + 1] - P[k], S[k + 1] - S[k]
        if d @ e <= 0 or math.hypot(*d) < 1.05 * (cut[k] + cut[k + 1]):
            return False
    return True
