"""C26: smooth interpolation and Bezier curves against curve theory, in all four curve classes.

A RobustPath without offset evaluates its centre line exactly, so the control points of
every segment it makes can be recovered; they are held against the defining properties
(pass through the points, tangent continuity, requested angles), against an independent
solution of Hobby's equations, and against themselves after a similarity, a reflection, a
reversal or a renumbering of the points.  The other classes are then compared with the
same control points.
"""
import cmath
import itertools
import math

import numpy as np

from checks.c22 import Bez, walk, zc
from mc import geo, hobby as hb
from mc.engine import Group

PI = math.pi


def chords(z, cyc):
    return [b - a for a, b in zip(z, z[1:] + (z[:1] if cyc else []))]


def near(z, ang, cyc):
    """The given angles, each within half a turn of the chords it meets, or None."""
    if ang is None:
        return ang
    d = [cmath.phase(c) for c in chords(z, cyc)]
    n, out = len(z), []
    for i, a in enumerate(ang):
        if a is None:
            out.append(None)
            continue
        meets = [d[k % len(d)] for k in (i - 1, i) if cyc or 0 <= k < n - 1]
        r = [a + 2 * PI * k for k in (-2, -1, 0, 1, 2)]
        r = [v for v in r if all(abs(v - c) < PI - 1e-6 for c in meets)]
        if not r:
            return "out"
        out.append(r[0])
    return out


def controls(z, opt, absolute=False):
    """Control points and ends of all segments made by RobustPath.smooth."""
    import gdspy

    rp = gdspy.RobustPath((z[0].real, z[0].imag), 0.1, tolerance=0.01)
    off = 0 if absolute else z[0]
    k = dict(opt)
    if "angles" in k and k["angles"] is None:
        del k["angles"]
    rp.smooth([((p - off).real, (p - off).imag) for p in z[1:]], relative=not absolute, **k)
    n = len(z) if opt.get("cycle") else len(z) - 1
    if len(rp) != n:
        return None, rp
    out = []
    for s in range(n):
        f = [complex(*rp(s + u)[0]) for u in (0, 1 / 3., 2 / 3.)]
        f.append(complex(*rp(s + 1 - (0 if s == n - 1 else 1e-12))[0]))
        out.append((f[0], (-5 * f[0] + 18 * f[1] - 9 * f[2] + 2 * f[3]) / 6,
                    (2 * f[0] - 9 * f[1] + 18 * f[2] - 5 * f[3]) / 6, f[3]))
    return out, rp


def worst(a, b):
    return max(abs(x - y) for p, q in zip(a, b) for x, y in zip(p, q)) if len(a) == len(b) else 99


def aim(v):
    return v / abs(v)


def tame(ref, z, cyc):
    """The reference is far from the poles of the velocity function."""
    d = chords(z, cyc)
    for (a, b), c, p in zip(ref, d, z):
        if not (abs(a - p) < 30 * abs(c) and abs(b - p - c) < 30 * abs(c)
                and abs(a - p) > 1e-3 * abs(c) and abs(b - p - c) > 1e-3 * abs(c)):
            return False
    return True


def listed(v, n):
    return list(v) if isinstance(v, (list, tuple)) else [v] * n


def variants(z, opt, full):
    """Equivalent problems: (name, points, options, map of a control point, renumbering)."""
    n, cyc = len(z), opt.get("cycle", False)
    ang = opt.get("angles")

    def turn(a, r, sign=1):
        return None if a is None else [None if v is None else sign * v + r for v in a]

    for name, f, r, sg in (
            ("translation", lambda p: p + (3 - 7j), 0, 1), ("rotation by 90", lambda p: p * 1j, PI / 2, 1),
            ("rotation by 180", lambda p: -p, PI, 1), ("rotation by 0.7 and scaling", lambda p: p * 2.5 * cmath.exp(0.7j) + 1, 0.7, 1),
            ("reflection", lambda p: p.conjugate(), 0, -1)):
        if not full and name in ("translation", "rotation by 90", "rotation by 180"):
            continue
        yield name, [f(p) for p in z], dict(opt, angles=turn(ang, r, sg)), f, lambda c: c
    rev = dict(opt, angles=None if ang is None else turn(ang[::-1], PI),
               t_in=listed(opt.get("t_out", 1), n)[::-1], t_out=listed(opt.get("t_in", 1), n)[::-1],
               curl_start=opt.get("curl_end", 1), curl_end=opt.get("curl_start", 1))

    def back(c):
        m = len(c)
        d = [tuple(s[::-1]) for s in c]
        return [d[(n - 2 - k) % m] for k in range(m)]
    yield "reversal", z[::-1], rev, lambda p: p, back
    if cyc:
        o = dict(opt, angles=None if ang is None else ang[1:] + ang[:1])
        for t in ("t_in", "t_out"):
            o[t] = listed(opt.get(t, 1), n)
            o[t] = o[t][1:] + o[t][:1]
        yield "renumbering", z[1:] + z[:1], o, lambda p: p, lambda c: c[1:] + c[:1]


def run(case, rec):
    z = [complex(*p) for p in case["pts"]]
    for opt in options(case["opt"], len(z), case["cycle"]):
        one(z, opt, rec, case.get('full', True) or case['opt'] == 'angles')


def one(z, opt, rec, full=True):
    cyc = opt.get("cycle", False)
    d = chords(z, cyc)
    ang = near(z, opt.get("angles"), cyc)
    if ang == "out":
        rec.step()
        return
    opt = dict(opt, angles=ang)
    what = "%s %s" % (z, {k: v for k, v in opt.items() if v is not None})
    ref = hb.hobby([(p.real, p.imag) for p in z], **opt)
    if not tame(ref, z, cyc):
        rec.step()
        return
    got, rp = controls(z, opt)
    rec.step()
    rec.state(what)
    if not rec.expect(got is not None, lambda: "%s: %d sections" % (what, len(rp))):
        return
    m = len(got)
    knots = z + (z[:1] if cyc else [])
    for k in range(m):
        p0, c1, c2, p3 = got[k]
        if not rec.expect(abs(p0 - knots[k]) < 1e-8 and abs(p3 - knots[k + 1]) < 1e-8,
                          lambda: "%s: segment %d goes from %s to %s" % (what, k, p0, p3)):
            return
        for u in (0.2, 0.85):
            b = Bez([(w.real, w.imag) for w in got[k]])(u)
            rec.expect(abs(complex(*rp(k + u)[0]) - b) < 1e-8, lambda: "%s: segment %d is not a cubic at %g" % (what, k, u))
            g = complex(*rp.grad(k + u)[0])
            q = np.polyval(np.polyder(Bez([(w.real, w.imag) for w in got[k]]).p), u)
            rec.expect(abs(g - q) < 1e-3 * (1 + abs(q)), lambda: "%s: derivative of segment %d at %g is %s, not %s" % (what, k, u, g, q))
    for v in range(len(z)):
        arrive = (v - 1) % m if cyc or v else None
        leave = v if cyc or v < len(z) - 1 else None
        t = [aim(z[v] - got[arrive][2])] if arrive is not None else []
        t += [aim(got[leave][1] - z[v])] if leave is not None else []
        if len(t) == 2:
            rec.expect(abs(t[0] - t[1]) < 1e-6, lambda: "%s: tangents %s and %s at point %d" % (what, t[0], t[1], v))
        if ang is not None and ang[v] is not None:
            for w in t:
                rec.expect(abs(w - cmath.exp(1j * ang[v])) < 1e-6, lambda: "%s: tangent %s at point %d, requested %s" % (what, w, v, cmath.exp(1j * ang[v])))
    # a turn of exactly half a circle may go either way
    uturn = any(abs(abs(cmath.phase(b / a)) - PI) < 1e-6 for a, b in zip(d[-1:] + d if cyc else d, d if cyc else d[1:]))
    if not uturn:
        exp = [(p, a, b, q) for p, (a, b), q in zip(knots, ref, knots[1:])]
        e = worst(got, exp)
        if not rec.expect(e < 1e-6, lambda: "%s: control points %s, expected %s" % (what, [s[1:3] for s in got], ref)):
            return
    for name, w, o, f, order in variants(z, opt, full):
        if uturn and name != "translation":
            continue
        o["angles"] = near(w, o.get("angles"), cyc)
        if o["angles"] == "out":
            continue
        other, _ = controls(w, o, absolute=name in ("translation", "reversal"))
        rec.step()
        if other is None:
            rec.fail("%s: another number of segments after %s" % (what, name))
            return
        exp = order([tuple(f(p) for p in s) for s in got])
        e = worst(other, exp)
        if not rec.expect(e < 1e-6, lambda: "%s: %s gives %s, expected %s" % (what, name, other, exp)):
            return


ANG = {2: [(0.4,), (-1.2,), (2.0,)], 3: [(0.4, -1.2, 2.0), (-2.5, 0.0, 1.0)], 4: [(0.4, -1.2, 2.0, -0.3), (1.5, 0, -1.5, 3.0)]}


def masks(vals, n, full=True):
    for keep in itertools.product((0, 1), repeat=n):
        if any(keep) and (full or sum(keep) == 1 or all(keep)):
            yield [v if k else None for v, k in zip(vals, keep)]


def options(kind, n, cyc):
    """All option sets of a kind."""
    c = dict(cycle=True) if cyc else {}
    vary = [1.0, 1.5, 0.8, 2.0, 1.2, 0.9][:n]
    if kind in ("angles", "angles3"):
        vals = [(0.4, -1.2, 2.0, -0.3)[:n], (-2.5, 0.0, 1.0, 3.0)[:n], (1.6, 1.6, -0.8, 0.8)[:n]]
        for v in vals[:1 if kind == "angles" else 3]:
            for a in masks(v, n):
                yield dict(c, angles=a)
    elif kind == "tensions":
        for t_in in (1, 1.4, vary):
            for t_out in (1, 0.9, vary[::-1]):
                yield dict(c, t_in=t_in, t_out=t_out)
    elif kind == "curls":
        for a, b in itertools.product((0, 0.5, 1, 2), repeat=2):
            yield dict(c, curl_start=a, curl_end=b)
    elif kind == "mixed":
        for t_in, t_out in ((vary, vary[::-1]), (1.3, vary)):
            for a in masks((0.4, -1.2, 2.0, -0.3, 1.1, -2.0)[:n], n):
                yield dict(c, angles=a, t_in=t_in, t_out=t_out, **({} if cyc else dict(curl_start=0.5, curl_end=2)))
            if not cyc:
                yield dict(t_in=t_in, t_out=t_out, curl_start=0.3, curl_end=1.7)


GRID = [(x, y) for x in (0, 1, 2) for y in (0, 1, 2)]
WIDE = [(x, y) for x in (-1, 0, 1, 2) for y in (-1, 0, 1, 2)]
COARSE = [(0, 0), (2, 0), (1, 2), (-1, 1), (2, 2)]


def lists(start, grid, n, cyc):
    for t in itertools.product(grid, repeat=n - 1):
        p = [start] + [q for q in t]
        if all(a != b for a, b in zip(p, p[1:] + (p[:1] if cyc else []))):
            yield p


def gen(tier):
    deep = tier == "thorough"
    for cyc in (False, True):
        for n in (2, 3):
            for p in lists((0, 0), WIDE, n, cyc):
                for k in ("angles3" if deep or n == 2 else "angles", "tensions", "mixed") + (() if cyc else ("curls",)):
                    yield dict(pts=p, opt=k, cycle=cyc, full=True)
        for p in lists((1, 1), GRID if deep else GRID[:7], 4, cyc):
            for k in ("tensions",) if not deep else ("angles3", "tensions", "mixed") + (() if cyc else ("curls",)):
                yield dict(pts=p, opt=k, cycle=cyc, full=True)
        if not deep:
            for p in lists((0, 0), COARSE, 4, cyc):
                for k in ("angles", "mixed") + (() if cyc else ("curls",)):
                    yield dict(pts=p, opt=k, cycle=cyc, full=True)
        else:
            for p in lists((0, 0), COARSE, 5, cyc):
                for k in ("tensions", "mixed"):
                    if k == "tensions" or p[1] == (2, 0):
                        yield dict(pts=p, opt=k, cycle=cyc, full=True)
            for p in lists((0, 0), COARSE[:4], 6, cyc):
                yield dict(pts=p, opt="tensions", cycle=cyc)


# ---- the same interpolation in the other classes

def along(rec, what, vertices, segs, tol):
    """All vertices after the first one are on the segments in order and within tolerance."""
    prev, new = segs[0][0], list(vertices)
    for s in segs:
        used = walk(rec, what, Bez([(w.real, w.imag) for w in s]), new, prev, tol)
        if used is None:
            return
        prev, new = zc(new[used - 1]), new[used:]
    rec.expect(not new, lambda: "%s: %d more points" % (what, len(new)))


def ribbon(rec, what, polys, segs, w):
    """Polygons of a path of width w along the segments, one per segment."""
    if not rec.expect(len(polys) == len(segs), lambda: "%s: %d polygons" % (what, len(polys))):
        return
    for k, (p, s) in enumerate(zip(polys, segs)):
        b = Bez([(v.real, v.imag) for v in s])
        q = b(np.linspace(0, 1, 1001))
        d = geo.dist_segments(p[:, 0], p[:, 1], [(a.real, a.imag, c.real, c.imag) for a, c in zip(q, q[1:])])
        if not rec.expect(np.abs(d - w / 2).max() < 0.02 * w, lambda: "%s: segment %d: border at %g..%g from the curve, width %g" % (what, k, d.min(), d.max(), w)):
            return
        e = [(x[0], x[1], y[0], y[1]) for x, y in zip(p, np.roll(p, -1, 0))]
        q = q[1:-1:7]
        d = geo.dist_segments(q.real, q.imag, e)
        t = np.linspace(0, 1, 1001)[1:-1:7]
        ends = np.minimum(np.abs(q - s[0]), np.abs(q - s[-1]))
        ok = (d > np.minimum(0.9 * w / 2, 0.9 * ends)) & (geo.winding(p, q.real, q.imag) != 0)
        rec.expect(ok.all(), lambda: "%s: segment %d: the curve leaves the path at u=%s" % (what, k, t[~ok][:3]))


def classes(case, rec):
    z = [complex(*p) for p in case["pts"]]
    opts = list(options("mixed", len(z), case["cycle"]))
    if not case["deep"]:
        opts = [o for k, o in enumerate(opts) if k % 4 == 2]
    for opt in [dict(cycle=True) if case["cycle"] else {}] + opts:
        a = near(z, opt.get("angles"), case["cycle"])
        if a == "out":
            continue
        opt = dict(opt, angles=a)
        ref = hb.hobby([(p.real, p.imag) for p in z], **opt)
        if not tame(ref, z, case["cycle"]):
            continue
        knots = z + (z[:1] if case["cycle"] else [])
        segs = [(p, c, d, q) for p, (c, d), q in zip(knots, ref, knots[1:])]
        build(rec, z, opt, segs, "smooth")


def build(rec, z, opt, segs, how):
    import gdspy

    k = {n: v for n, v in opt.items() if v is not None}
    st = (z[0].real, z[0].imag)
    rel = [((p - z[0]).real, (p - z[0]).imag) for p in z[1:]]
    pts = [(p.real, p.imag) for p in z[1:]]
    what = "%s %s %s" % (how, z, k)
    tol = 0.01
    for rl, name, p in ((True, "i", rel), (False, "I", pts)):
        if how == "bezier":
            name = {"i": "b", "I": "B"}[name]
        if how == "smooth":
            c = getattr(gdspy.Curve(*st, tolerance=tol), name)(p, **k)
        else:
            c = getattr(gdspy.Curve(*st, tolerance=tol), name)(*[v for q in p for v in q])
        c.l(50, 0)      # never closed
        along(rec, "Curve.%s: %s" % (name, what), c.get_points()[1:-1], segs, tol)
        rec.step()
        fp = gdspy.FlexPath([st], 0.1, tolerance=tol)
        getattr(fp, how)(p, relative=rl, **k)
        along(rec, "FlexPath %s relative=%s" % (what, rl), fp.points[1:], segs, tol)
        rec.step()
        # changes of width and offset leave the centre line alone
        for args in (dict(width=0.2), dict(offset=0.05), dict(width=[0.3], offset=[-0.1])):
            g = gdspy.FlexPath([st], 0.1, tolerance=tol)
            getattr(g, how)(p, relative=rl, **k, **args)
            if not rec.expect(np.array_equal(g.points, fp.points), lambda: "FlexPath %s relative=%s %s: %s, without change %s" % (
                    what, rl, args, g.points.tolist(), fp.points.tolist())):
                return
            r0, r1 = gdspy.RobustPath(st, 0.1), gdspy.RobustPath(st, 0.1)
            getattr(r0, how)(p, relative=rl, **k)
            getattr(r1, how)(p, relative=rl, **k, **dict(args, offset=[0.0]) if "offset" in args else args)
            if not rec.expect(len(r0) == len(r1) and np.array_equal(r0.x, r1.x) and all(
                    np.array_equal(r0(u), r1(u)) for u in np.arange(0.25, len(r0), 0.5)),
                    lambda: "RobustPath %s relative=%s %s: another centre line" % (what, rl, args)):
                return
        rec.step()
        bend = max(curvature(s) for s in segs)
        w = 0.02
        if bend < 4 and not any(meets_itself(s, 2 * w) for s in segs):
            path = gdspy.Path(w, st)
            path.direction = cmath.phase(segs[0][1] - segs[0][0])
            getattr(path, how)(p, relative=rl, tolerance=1e-4, max_points=0, **k)
            ribbon(rec, "Path %s relative=%s" % (what, rl), path.polygons, segs, w)
            end = segs[-1]
            rec.expect(abs(complex(path.x, path.y) - end[-1]) < 1e-8, lambda: "Path %s ends at %s, %s" % (what, path.x, path.y))
            turn = cmath.exp(1j * path.direction) - aim(end[-1] - end[-2])
            rec.expect(abs(turn) < 1e-6, lambda: "Path %s: direction %s" % (what, path.direction))
            rec.step()
            rp = gdspy.RobustPath(st, w, tolerance=1e-4, max_points=0)
            getattr(rp, how)(p, relative=rl, **k)
            if how == "bezier" or all(sm(a, b) for a, b in zip(segs, segs[1:])):
                band(rec, "RobustPath %s relative=%s" % (what, rl), rp.get_polygons(), segs, w)
                rec.step()
    rec.state(what)


def sm(a, b):
    return abs(aim(a[3] - a[2]) - aim(b[1] - b[0])) < 1e-6


def band(rec, what, polys, segs, w):
    """Outline of a whole path: vertices at half the width, curve inside."""
    if not rec.expect(len(polys) == 1, lambda: "%s: %d polygons" % (what, len(polys))):
        return
    p = polys[0]
    q = np.concatenate([Bez([(v.real, v.imag) for v in s])(np.linspace(0, 1, 601)) for s in segs])
    d = geo.dist_segments(p[:, 0], p[:, 1], [(a.real, a.imag, c.real, c.imag) for a, c in zip(q, q[1:]) if a != c])
    rec.expect(d.max() < 0.52 * w, lambda: "%s: border at %g from the curve, width %g" % (what, d.max(), w))


def meets_itself(s, d):
    q = Bez([(v.real, v.imag) for v in s])(np.linspace(0, 1, 201))
    run = np.concatenate([[0], np.cumsum(np.abs(np.diff(q)))])
    return bool(((np.abs(q[:, None] - q) < d) & (np.abs(run[:, None] - run) > 4 * d)).any())


def curvature(s):
    b = Bez([(v.real, v.imag) for v in s])
    d1 = np.polyder(b.p)
    d2 = np.polyder(d1)
    u = np.linspace(0, 1, 101)
    v, a = np.polyval(d1, u), np.polyval(d2, u)
    if np.abs(v).min() < 0.1:
        return 99
    return np.abs((v.conj() * a).imag / np.abs(v) ** 3).max()


def gen_classes(tier):
    deep = tier == "thorough"
    for cyc in (False, True):
        for n in (2, 3):
            for p in lists((1, 0), WIDE if deep or n == 2 else GRID, n, cyc):
                yield dict(pts=p, cycle=cyc, deep=deep)
        for p in lists((1, 0), COARSE[:5 if deep else 3], 4, cyc):
            yield dict(pts=p, cycle=cyc, deep=deep)


# ---- Bezier curves

def bezier(case, rec):
    import gdspy

    z = [complex(*p) for p in case["pts"]]
    b = Bez(case["pts"])
    what = str(z)
    d2 = np.polyder(b.p, 2)
    size = 1 + np.abs(np.polyval(d2, np.linspace(0, 1, 11))).max() if len(d2) else 1
    for rl in (True, False):
        rp = gdspy.RobustPath(case["pts"][0], 0.1)
        rp.bezier([((p - z[0] * rl).real, (p - z[0] * rl).imag) for p in z[1:]], relative=rl)
        rec.step()
        if not rec.expect(len(rp) == 1, lambda: "%s: %d sections" % (what, len(rp))):
            return
        n = len(z) - 1
        for u in np.linspace(0, 1, n + 2):
            q = np.polyval(np.polyder(b.p), u)
            if abs(q) < 1e-6:
                continue    # no direction here
            e = abs(complex(*rp(u)[0]) - b(u))
            if not rec.expect(e < 1e-9, lambda: "RobustPath.bezier %s: %s at %g, expected %s" % (what, rp(u), u, b(u))):
                return
            g = complex(*rp.grad(u, side='+')[0])
            # one-sided numeric derivative at the ends
            if not rec.expect(abs(g - q) < 1e-3 * (size + abs(q)), lambda: "RobustPath.bezier %s: derivative %s at %g, expected %s" % (what, g, u, q)):
                return
    rec.state(what)


def gen_bezier(tier):
    deep = tier == "thorough"
    for n, grid in ((2, WIDE), (3, WIDE), (4, WIDE if deep else GRID), (5, GRID if deep else COARSE[:4]), (6, COARSE[:4]), (7, COARSE[:4] if deep else COARSE[:2])):
        for p in itertools.product(grid, repeat=n - 1):
            p = [(1, 1)] + list(p)
            if p[0] != p[1] and p[-1] != p[-2]:
                yield dict(pts=p)


def degree(case, rec):
    """The commands for a Bezier curve in all classes."""
    z = [complex(*p) for p in case["pts"]]
    n = len(z) - 1
    b = Bez(case["pts"])
    v = np.polyval(np.polyder(b.p), np.linspace(0, 1, 101))
    if n == 1:
        segs = [(z[0], z[0] + (z[1] - z[0]) / 3, z[0] + (z[1] - z[0]) * 2 / 3, z[1])]
    elif n == 2:
        segs = [(z[0], z[0] + (z[1] - z[0]) * 2 / 3, z[2] + (z[1] - z[2]) * 2 / 3, z[2])]
    else:
        segs = [tuple(z)]
    if np.abs(v).min() < 0.1:
        rec.step()
        return
    if n <= 3:
        build(rec, z, {}, segs, "bezier")
    else:
        build(rec, z, {}, [tuple(z)], "bezier")


def gen_degree(tier):
    deep = tier == "thorough"
    for n, grid in ((2, WIDE), (3, WIDE if deep else GRID), (4, GRID if deep else COARSE), (5, COARSE if deep else COARSE[:4]), (6, COARSE[:4] if deep else COARSE[:3])):
        for p in itertools.product(grid, repeat=n - 1):
            p = [(1, 0)] + list(p)
            if p[0] != p[1] and p[-1] != p[-2]:
                yield dict(pts=p)


# ---- angles more than half a turn from a chord

TURNS = {
    "cut": ([(0, 0), (-1, -0.1), (-2, 0)], [3.1, None, None]),
    "full": ([(0, 0), (1, 1), (2, 0)], [2 * PI + 0.3, None, None]),
}


def turns(case, rec):
    """Angles that differ by a full turn are the same angle."""
    pts, ang = TURNS[case["name"]]
    z = [complex(*p) for p in pts]
    got, _ = controls(z, dict(angles=ang))
    ref = hb.hobby(pts, angles=ang)
    exp = [(p, a, b, q) for p, (a, b), q in zip(z, ref, z[1:])]
    e = worst(got, exp)
    rec.step()
    rec.state(case["name"])
    rec.expect(e < 1e-6, lambda: "angle %s at the start of %s: control points differ by %.3g from those with the same angle less a full turn" % (ang[0], pts, e),
               key="hobby-full-turn-" + case["name"])


def groups(tier):
    return [
        Group("interpolation", lambda: gen(tier), run, "all lattice point lists of 2 and 3 points (4x4), 4 points (3x3, thorough with all options), 5 and 6 points (thorough), open and closed, x angle masks, tensions, curls; 5-7 equivalent problems each"),
        Group("classes", lambda: gen_classes(tier), classes, "the same interpolation in Curve.i/I, Path, FlexPath and RobustPath.smooth"),
        Group("bezier", lambda: gen_bezier(tier), bezier, "all lattice control polygons of degree 1 to 6, exact position and derivative"),
        Group("degrees", lambda: gen_degree(tier), degree, "all lattice control polygons of degree 1 to 5 in all classes"),
        Group("turns", lambda: [dict(name=n) for n in TURNS], turns, "angles beyond half a turn"),
    ]
