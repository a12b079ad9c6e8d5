"""C16: polygon transforms and fillets over all short histories."""
import copy
import itertools
import math

import numpy as np

from mc import geo, lattice
from mc.engine import Group

H = math.pi / 2


def lin(m, c=(0, 0), t=(0, 0)):
    m, c = np.array(m, dtype=float), np.array(c, dtype=float)
    return lambda p: (p - c) @ m.T + c + t


def rotm(a):
    return [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]


def mirm(p1, p2):
    a = math.atan2(p2[1] - p1[1], p2[0] - p1[0])
    return [[math.cos(2 * a), math.sin(2 * a)], [math.sin(2 * a), -math.cos(2 * a)]]


OPS = [
    ("translate", (3, -2), lin(np.eye(2), t=(3, -2))),
    ("translate", (0.5, 0), lin(np.eye(2), t=(0.5, 0))),
    ("rotate", (H,), lin(rotm(H))),
    ("rotate", (0.3, (1, 2)), lin(rotm(0.3), (1, 2))),
    ("rotate", (-math.pi, (-1, 0)), lin(rotm(-math.pi), (-1, 0))),
    ("scale", (2,), lin(np.eye(2) * 2)),
    ("scale", (-1.5, None, (1, -2)), lin(np.eye(2) * -1.5, (1, -2))),
    ("scale", (2, 0.5), lin(np.diag((2, 0.5)))),
    ("scale", (1, -1, (3, 4)), lin(np.diag((1, -1)), (3, 4))),
    ("scale", (3, 1, (0, 1)), lin(np.diag((3, 1)), (0, 1))),
    ("mirror", ((0, 1),), lin(mirm((0, 1), (0, 0)), (0, 0))),
    ("mirror", ((1, 0), (2, 3)), lin(mirm((1, 0), (2, 3)), (1, 0))),
    ("mirror", ((5, 5), (5, 0)), lin(mirm((5, 5), (5, 0)), (5, 5))),
    ("mirror", ((-1, 2), (4, 2)), lin(mirm((-1, 2), (4, 2)), (-1, 2))),
]
KW = {("rotate", 3): dict(angle=0.3, center=np.array((1, 2)))}

SHAPES = ["tri", "intset", "set3", "rect", "round", "text", "empty", "int32"]


def build(name):
    import gdspy

    tri, sq = [(0, 0), (3, 0), (1, 2)], [(-1, -2), (2, -2), (2, 1), (-1, 1)]
    ell = lattice.SPECIAL["ell"]
    if name == "tri":
        return gdspy.Polygon([(x + 0.25, y - 0.5) for x, y in tri], 3, 4)
    if name == "intset":
        s = gdspy.PolygonSet([tri, sq], 1, 2)
        s.layers = [1, 5]
        return s
    if name == "set3":
        s = gdspy.PolygonSet([np.array(tri, dtype=float), np.array(sq, dtype=float) + 7, np.array(ell) * 0.5], 6, 0)
        s.layers, s.datatypes = [6, 6, 2], [0, 1, 0]
        return s
    if name == "rect":
        return gdspy.Rectangle((3, 4), (1, -1), 9, 8)
    if name == "round":
        return gdspy.Round((1, 1), 3, 1, 0.2, 2.5, number_of_points=16, layer=2)
    if name == "text":
        return gdspy.Text("a!", 9, (1, 2), layer=4, datatype=5)
    if name == "empty":
        return gdspy.PolygonSet([])
    if name == "int32":
        return gdspy.PolygonSet([np.array(sq, dtype=np.int32)], 1, 1)
    raise AssertionError(name)


def queries(rec, ps, model, ld, what):
    if not (len(ps.polygons) == len(ps.layers) == len(ps.datatypes) == len(model)):
        return rec.fail(what + "%d polygons, %d layers, %d datatypes, expected %d" % (
            len(ps.polygons), len(ps.layers), len(ps.datatypes), len(model)))
    for p, q in zip(ps.polygons, model):
        if np.shape(p) != np.shape(q) or np.abs(np.asarray(p, dtype=float) - q).max() > 1e-8:
            return rec.fail(what + "%s, expected %s" % (geo.fmt(p), geo.fmt(q)))
    if list(zip(ps.layers, ps.datatypes)) != ld:
        rec.fail(what + "layers %r" % list(zip(ps.layers, ps.datatypes)))
    bb = ps.get_bounding_box()
    if not geo.same_bbox(bb, geo.bbox(model)):
        rec.fail(what + "bounding box %r" % (bb,))
    a = [geo.area(p) for p in model]
    if abs(ps.area() - sum(a)) > 1e-7 * (1 + sum(a)):
        rec.fail(what + "area %r, expected %r" % (ps.area(), sum(a)))
    exp = {}
    for k, v in zip(ld, a):
        exp[k] = exp.get(k, 0) + v
    got = ps.area(True)
    if set(got) != set(exp) or any(abs(got[k] - exp[k]) > 1e-7 * (1 + exp[k]) for k in exp):
        rec.fail(what + "area by spec %r, expected %r" % (got, exp))


def run_hist(case, rec):
    def go(hist):
        ps = build(case["shape"])
        src = [p for p in ps.polygons]
        keep = [np.array(p) for p in src]
        twin = copy.deepcopy(ps)
        ld = list(zip(ps.layers, ps.datatypes))
        model = [np.array(p, dtype=float) for p in ps.polygons]
        for i in hist:
            name, args, f = OPS[i]
            if (name, i) in KW:
                kw = {k: np.array(v) if hasattr(v, "shape") else v for k, v in KW[name, i].items()}
                r = getattr(ps, name)(**kw)
                if not np.array_equal(kw["center"], KW[name, i]["center"]):
                    rec.fail("%s modified the center" % name)
            else:
                r = getattr(ps, name)(*args)
            rec.expect(r is ps, "%s does not return the object" % name)
            model = [f(p) for p in model]
        rec.step(len(hist))
        queries(rec, ps, model, ld, "%s %r: " % (case["shape"], [OPS[i][:2] for i in hist]))
        if any(not np.array_equal(a, b) for a, b in zip(src, keep)):
            rec.fail("%r changed the arrays given before" % [OPS[i][:2] for i in hist])
        if any(not np.array_equal(a, b) for a, b in zip(twin.polygons, keep)):
            rec.fail("a copy was changed")
        rec.state((case["shape"], [tuple(map(tuple, np.round(p, 6) + 0.0)) for p in model]))

    hist = case["first"]
    n = range(len(OPS))
    if hist[1] == 0:
        go(hist[:1])
        if hist[0] == 0:
            go([])
    go(hist)
    for c in n:
        go(hist + [c])
        if case["depth"] > 3 and len(rec.fails) < 20:
            for d in n:
                go(hist + [c, d])


def gen_hist(tier):
    for s in SHAPES:
        for a, b in itertools.product(range(len(OPS)), repeat=2):
            yield dict(shape=s, first=[a, b], depth=4 if tier == "thorough" else 3)


# ------------------------------------------------------------------ fillet

def ideal(p, radii, ppp):
    """Outline of the filleted polygon: list of (kind, ...) and the tangent points."""
    p = np.asarray(p, dtype=float)
    keep = [i for i in range(len(p)) if np.hypot(*(p[i] - p[i - 1])) > 0]
    p, radii = p[keep], [radii[i] for i in keep]
    n = len(p)
    out = []
    for i in range(n):
        a, v, b = p[i - 1], p[i], p[(i + 1) % n]
        u0, u1 = v - a, b - v
        l0, l1 = np.hypot(*u0), np.hypot(*u1)
        u0, u1 = u0 / l0, u1 / l1
        th = abs(math.atan2(u0[0] * u1[1] - u0[1] * u1[0], u0 @ u1))
        if th < 1e-6:
            out.append(dict(t0=v, t1=v, r=0, pts=[v], sag=0))
            continue
        tt = math.tan(th / 2)
        r = min(radii[i], 0.49 * l0 / tt, 0.49 * l1 / tt)
        t0, t1 = v - u0 * r * tt, v + u1 * r * tt
        side = 1 if u0[0] * u1[1] - u0[1] * u1[0] > 0 else -1
        c = t0 + side * r * np.array((-u0[1], u0[0]))
        a0 = math.atan2(*(t0 - c)[::-1])
        ang = a0 + side * np.linspace(0, th, 60)
        pts = np.stack((c[0] + r * np.cos(ang), c[1] + r * np.sin(ang)), axis=1)
        m = max(2, math.ceil(th / 2 / math.pi * ppp - 1e-9)) - 1
        out.append(dict(t0=t0, t1=t1, r=r, c=c, pts=pts, sag=r * (1 - math.cos(th / m / 2))))
    return out


def check_fillet(rec, q, p, radii, ppp, what):
    q = np.asarray(q, dtype=float)
    out = ideal(p, radii, ppp)
    # every vertex on the ideal outline, in order
    line = np.concatenate([o["pts"] for o in out])
    d = geo.dist_segments(q[:, 0], q[:, 1], geo.edges([line]))
    for v, dv in zip(q, d):
        on = dv < 1e-7 or any(o["r"] > 0 and abs(np.hypot(*(v - o["c"])) - o["r"]) < 1e-7 and
                              np.hypot(*(o["pts"] - v).T).min() < 0.06 * o["r"] for o in out)
        if not on:
            return rec.fail(what + "vertex (%r, %r) is not on the filleted outline" % tuple(v))
    for o in out:
        for t in (o["t0"], o["t1"]):
            if np.hypot(*(q - t).T).min() > 1e-7:
                return rec.fail(what + "no vertex at the end (%g, %g) of a fillet" % tuple(t))
    sag = max(o["sag"] for o in out) + 1e-7
    dl = geo.dist_segments(line[:, 0], line[:, 1], geo.edges([q]))
    if dl.max() > sag:
        i = int(np.argmax(dl))
        return rec.fail(what + "the outline misses (%g, %g) by %g (allowed %g)" % (
            line[i][0], line[i][1], dl[i], sag))
    A, B = geo.area2(line), geo.area2(q)
    if abs(A - B) > 4 * sag * geo.perimeter([line]) + 1e-6:
        rec.fail(what + "signed area %r, expected %r" % (B / 2, A / 2))


def run_fillet(case, rec):
    import gdspy

    P = [np.array(p) for p in case["p"]]
    if case.get("dtype"):
        P = [p.astype(case["dtype"]) for p in P]
    n = [len(p) for p in P]
    rad = case["r"]
    form = case["form"]
    if form == "scalar":
        arg = rad[0]
        radii = [[rad[0]] * k for k in n]
    elif form == "perpoly":
        arg = [rad[i % len(rad)] for i in range(len(P))]
        radii = [[arg[i]] * k for i, k in enumerate(n)]
    elif form == "pervertex":
        radii = [[rad[(i + j) % len(rad)] for j in range(k)] for i, k in enumerate(n)]
        arg = [list(r) for r in radii]
    elif form == "mixed":
        radii = [[rad[0]] * k if i % 2 else [rad[j % len(rad)] for j in range(k)] for i, k in enumerate(n)]
        arg = [rad[0] if i % 2 else list(r) for i, r in enumerate(radii)]
    elif form in ("flat", "array"):
        radii = [[rad[(2 * i + j) % len(rad)] for j in range(k)] for i, k in enumerate(n)]
        arg = [x for r in radii for x in r]
        if form == "array":
            arg = np.array(arg)
    ps = gdspy.PolygonSet(P, 3, 4)
    src = list(ps.polygons)
    keep = [np.array(p) for p in src]
    argc = copy.deepcopy(arg)
    r = ps.fillet(arg, points_per_2pi=case["ppp"], max_points=0)
    rec.step()
    what = "fillet of %r with %r (%s): " % (case["p"], arg, form)
    rec.expect(r is ps, what + "does not return the set")
    rec.expect(repr(arg) == repr(argc), what + "argument changed")
    if not (len(ps.polygons) == len(P) == len(ps.layers) == len(ps.datatypes)):
        return rec.fail(what + "%d polygons" % len(ps.polygons))
    for q, p, rr in zip(ps.polygons, P, radii):
        check_fillet(rec, q, p, rr, case["ppp"], what)
    rec.expect(all(np.array_equal(a, b) for a, b in zip(src, keep)), what + "changed the original arrays")
    if case.get("mp"):
        prec = case.get("prec", 1e-3)
        cut = gdspy.PolygonSet([np.array(p) for p in P], 3, 4)
        cut.layers, cut.datatypes = list(range(len(P))), list(range(7, 7 + len(P)))
        rec.step()
        rec.expect(cut.fillet(arg, points_per_2pi=case["ppp"], max_points=case["mp"], precision=prec) is cut, what + "does not return the set")
        if not rec.expect(len(cut.polygons) == len(cut.layers) == len(cut.datatypes), what + "lengths"):
            return
        rec.expect(all(len(q) <= case["mp"] for q in cut.polygons), lambda: what + "pieces of %s points, limit %d" % ([len(q) for q in cut.polygons], case["mp"]))
        for i, q in enumerate(ps.polygons):
            mine = [p for p, l, d in zip(cut.polygons, cut.layers, cut.datatypes) if (l, d) == (i, i + 7)]
            why = geo.check_cover(mine, [q], lambda x, y: geo.covered([q], x, y, "nonzero"), 5 * prec, "nonzero", overlap=False)
            rec.expect(not why, lambda: what + "limit %d: polygon %d: %s" % (case["mp"], i, why))
        rec.expect(all(0 <= l < len(P) and d == l + 7 for l, d in zip(cut.layers, cut.datatypes)), what + "layers of the pieces")
    rec.state((case["p"], np.asarray(arg, dtype=object).tolist() if form == "array" else arg, case["ppp"], case.get("mp")))


def gen_fillet(tier):
    th = tier == "thorough"
    pool = list(lattice.triangles(3)) + list(lattice.quads(3))
    for p in pool:
        for r in ([0.1], [0.5], [5]):
            yield dict(p=[p], r=r, form="scalar", ppp=64)
        yield dict(p=[p[::-1]], r=[0, 0.25, 9], form="flat", ppp=16)
        if th:
            for ppp in (4, 8, 128):
                yield dict(p=[p], r=[0.2, 0.7, 0, 3], form="pervertex", ppp=ppp)
    if th:
        for p in list(lattice.triangles(4)) + list(lattice.quads(4)):
            yield dict(p=[p], r=[0.3], form="scalar", ppp=64)
            yield dict(p=[p], r=[0, 0.2, 4, 1], form="flat", ppp=32)
    sp = [lattice.SPECIAL[k] for k in lattice.SIMPLE + ["keyhole", "bowtie", "repeat", "star"]]
    for a in sp:
        for r in ([0], [0.1], [0.5], [1], [20], [0.1, 0.5, 0]):
            for form in ("scalar", "perpoly", "pervertex", "mixed", "flat"):
                yield dict(p=[a], r=r, form=form, ppp=128)
                yield dict(p=[a], r=r, form=form, ppp=10, dtype="int64")
    for a, b in itertools.product(sp, sp):
        for form in ("perpoly", "pervertex", "mixed", "flat"):
            yield dict(p=[a, b], r=[0.3, 0.05, 2], form=form, ppp=32)
    for a, b, c in itertools.product(sp[:5], repeat=3):
        for form in ("perpoly", "pervertex", "mixed", "flat"):
            yield dict(p=[a, b, c], r=[0.3, 0, 0.05, 2], form=form, ppp=24)
    many = [0.3, 0, 0.05, 2, 0.1, 0.7, 0.2, 1, 0.15, 0.4, 0.25]
    for n in (4, 5, 6) if th else (4, 5):
        for i in range(len(sp)):
            P = [sp[(i + 3 * j) % len(sp)] for j in range(n)]
            for form in ("perpoly", "pervertex", "mixed", "flat", "array"):
                yield dict(p=P, r=many, form=form, ppp=16)
    for i, a in enumerate(sp):
        for mp in (5, 9, 20, 199):
            for form in ("scalar", "flat", "array"):
                yield dict(p=[a, sp[i - 1], sp[i - 2]], r=[0.3, 0.1, 0.2, 0.4, 0.05], form=form, ppp=64, mp=mp)
                yield dict(p=[a, sp[i - 1], sp[i - 2]], r=[0.3, 0.1, 0.2, 0.4, 0.05], form=form, ppp=16, mp=mp, prec=1e-6)


def run_wrong(case, rec):
    """Radius lists of every wrong length are refused."""
    import gdspy

    sq = [(0, 0), (4, 0), (4, 4), (0, 4)]
    tri = [(0, 0), (3, 0), (1, 2)]
    P = [sq, tri, sq][: case["n"]]
    tot = sum(map(len, P))
    ps = gdspy.PolygonSet(P)
    if case["k"] >= 0:
        arg = [0.1] * case["k"]
        ok = case["k"] in (len(P), tot)
    else:
        arg = [[0.1] * len(p) for p in P]
        arg[-1] = arg[-1][:case["k"]]
        ok = False
    try:
        ps.fillet(arg)
    except ValueError:
        rec.expect(not ok, "fillet refused %r for %d polygons" % (arg, len(P)))
        rec.expect(all(np.array_equal(a, b) for a, b in zip(ps.polygons, P)), "refused fillet changed the set")
    else:
        rec.expect(ok, "fillet accepted %r for %d polygons" % (arg, len(P)))
    rec.step()
    rec.state(case)


def gen_wrong(tier):
    for n in (1, 2, 3):
        for k in range(-2, 14):
            yield dict(n=n, k=k)


def run_mix(case, rec):
    """Fillets between transforms: the fillet of the transformed outline."""
    import gdspy

    P = lattice.SPECIAL[case["p"]]
    for a, b in itertools.product(range(len(OPS)), repeat=2):
        ps = gdspy.PolygonSet([P, [(x + 9, y) for x, y in P]], 1, 2)
        getattr(ps, OPS[a][0])(*OPS[a][1])
        model = [OPS[a][2](np.array(p, dtype=float)) for p in ([P, [(x + 9, y) for x, y in P]])]
        ps.fillet([0.2, 0.4], points_per_2pi=16)
        what = "%r %r fillet: " % (case["p"], OPS[a][:2])
        if len(ps.polygons) != 2:
            rec.fail(what + "%d polygons" % len(ps.polygons))
            return
        for q, p, r in zip(ps.polygons, model, (0.2, 0.4)):
            check_fillet(rec, q, p, [r] * len(p), 16, what)
        model = [OPS[b][2](np.array(q)) for q in ps.polygons]
        getattr(ps, OPS[b][0])(*OPS[b][1])
        queries(rec, ps, model, [(1, 2), (1, 2)], what + "%r: " % (OPS[b][:2],))
        rec.step(3)
    rec.state(case)


def placements():
    pts = [(x, y) for x in (-3, -1, 0, 1.5, 4) for y in (-2, 0, 1, 3)]
    for p in pts:
        yield "translate", p
        for a in (H, -H, math.pi, 2 * math.pi, 0, 0.4, -2.2, 7, math.pi / 4):
            yield "rotate", (a, p)
        for f in itertools.product((-1, -0.5, 0, 1, 3), (None, -2, 0, 1, 0.25)):
            yield "scale", f + (p,)
        for q in pts:
            if p != q:
                yield "mirror", (p, q)
        if any(p):
            yield "mirror", (p,)


def model_of(name, a):
    if name == "translate":
        return lin(np.eye(2), t=a)
    if name == "rotate":
        return lin(rotm(a[0]), a[1])
    if name == "scale":
        return lin(np.diag((a[0], a[0] if a[1] is None else a[1])), a[2])
    q = a[1] if len(a) > 1 else (0, 0)
    return lin(mirm(a[0], q), a[0])


def run_args(case, rec):
    """One transformation with each of all small arguments, in every form."""
    name, a = case["op"], tuple(tuple(v) if isinstance(v, list) else v for v in case["args"])
    f = model_of(name, a)
    for shape in SHAPES:
        for form in (tuple, list, np.array):
            ps = build(shape)
            ld = list(zip(ps.layers, ps.datatypes))
            model = [f(np.array(p, dtype=float)) for p in ps.polygons]
            args = [form(v) if isinstance(v, tuple) else v for v in a]
            rec.step()
            rec.expect(getattr(ps, name)(*args) is ps, "%s does not return the object" % name)
            rec.expect(all(tuple(v) == w for v, w in zip(args, a) if isinstance(w, tuple)), "%s changed its arguments" % name)
            queries(rec, ps, model, ld, "%s.%s%r: " % (shape, name, a))
            rec.state((shape, name, a))


def groups(tier):
    return [
        Group("histories", lambda: gen_hist(tier), run_hist,
              "%d objects x all histories of up to %d of %d operations" % (len(SHAPES), 4 if tier == "thorough" else 3, len(OPS))),
        Group("arguments", lambda: (dict(op=n, args=list(a)) for n, a in placements()), run_args,
              "every transformation with all arguments of a 5 x 4 lattice (9 angles, 25 pairs of factors) on %d objects" % len(SHAPES)),
        Group("fillet", lambda: gen_fillet(tier), run_fillet,
              "all triangles and quadrilaterals of the 3x3 (4x4) lattice and special outlines x radius forms"),
        Group("wrong", lambda: gen_wrong(tier), run_wrong, "radius lists of all lengths"),
        Group("mix", lambda: (dict(p=k) for k in lattice.SIMPLE), run_mix, "transform, fillet, transform"),
    ]
