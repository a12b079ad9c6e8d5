"""C33: operands that are not polygons are refused by an ordinary exception."""
import itertools
import sys

import numpy as np

from mc.engine import Group

NAN, INF = float("nan"), float("inf")
OUT = [NAN, INF, -INF, 1e300, -1e300, 4.7e15, -4.7e15, 9.3e15, 1.9e16]
# what may stand in the place of a coordinate, a point or a polygon
COORD = OUT + ["a", "", None, (1, 2), [], {}, object, b"1", 1j]
POINT = [7, 1.5, "", "a", None, (), (1,), [], [2], {}, object, {0: 1.0}, b"", 1j]
POLY = [7, 1.5, None, {1: 2}, object, 1j, {1, 2}]
EXC = (TypeError, ValueError, IndexError, KeyError, OverflowError)

TRI = [(0.5, 0.25), (6.5, 1.75), (2.25, 5.125)]
QUAD = [(1.5, 0.75), (7.25, 2.5), (4.75, 7.375), (0.125, 3.5)]
HEX = [(0.5, 0.25), (3.5, 0.375), (6.5, 1.75), (5.5, 4.75), (2.25, 5.125), (0.25, 2.5)]


def fresh():
    """Two polygons of objects that nothing else refers to."""
    return [[[x + 1e-3, y + 1e-3] for x, y in p] for p in (TRI, QUAD)]


def leaves(polys):
    out = [polys]
    for p in polys:
        out.append(p)
        if isinstance(p, (list, tuple)):
            for q in p:
                out.append(q)
                if isinstance(q, (list, tuple)):
                    out.extend(q)
    return [o for o in out if isinstance(o, (float, list, np.ndarray)) or (isinstance(o, tuple) and len(o) > 0)]


def operations(bad, good):
    """Every operation with the bad list in each operand position."""
    import gdspy
    from gdspy import clipper

    yield "boolean 1", lambda: gdspy.boolean(bad, good, "or")
    yield "boolean 2", lambda: gdspy.boolean(good, bad, "and")
    yield "boolean alone", lambda: gdspy.boolean(bad, None, "or")
    yield "boolean xor", lambda: gdspy.boolean(good, bad, "xor", max_points=0)
    yield "boolean not", lambda: gdspy.boolean(bad, good, "not", layer=3)
    for join in ("miter", "bevel", "round"):
        yield "offset " + join, lambda: gdspy.offset(bad, 0.5, join)
    yield "offset inward", lambda: gdspy.offset(bad, -0.1)
    yield "offset joined", lambda: gdspy.offset(bad, 0.5, join_first=True)
    yield "slice 0", lambda: gdspy.slice(bad, [1.5, 2.5], 0)
    yield "slice 1", lambda: gdspy.slice(bad, 2.5, 1)
    yield "inside polygons", lambda: gdspy.inside([(1, 1), (2, 2)], bad)
    yield "inside points", lambda: gdspy.inside(bad, good)
    yield "inside points all", lambda: gdspy.inside(bad, good, "all")
    yield "inside one group", lambda: gdspy.inside(bad[-1], good)
    yield "clip", lambda: clipper.clip(bad, good, "or", 1000)
    yield "clip 2", lambda: clipper.clip(good, bad, "or", 1000)
    yield "_chop", lambda: clipper._chop(bad[-1], (1.5,), 0, 1000)


def run_malformed(case, rec):
    """One malformed item at one place of a list of good polygons."""
    kind, where, item = case["kind"], case["where"], case["item"]
    value = {"coord": COORD, "point": POINT, "poly": POLY}[kind][item]
    n = 0
    while True:
        bad, good = fresh(), [[[x + 2e-3, y + 1e-3] for x, y in HEX]]
        i, j, k = where
        if case["wrap"] == "tuple":
            bad = [tuple(tuple(q) for q in p) for p in bad]
        if kind == "poly":
            bad[i] = value
        else:
            p = [list(q) if isinstance(q, tuple) else q for q in bad[i]]
            if kind == "point":
                p[j] = value
            else:
                p[j] = list(p[j])
                p[j][k] = value
            bad[i] = p if case["wrap"] == "list" else tuple(tuple(q) if isinstance(q, list) and kind == "coord" else q for q in p)
        if i == 0 and case["last"]:
            bad = bad[::-1]
        if kind == "coord" and case["wrap"] == "array" and isinstance(value, float):
            bad = [np.array(p, dtype=float) for p in bad]
        ops = list(operations(bad, good))
        if n >= len(ops):
            break
        name, f = ops[n]
        n += 1
        rec.step()
        del ops
        objs = leaves(bad) + leaves(good)
        before = [sys.getrefcount(o) for o in objs]
        what = "%s with %r as %s %r: " % (name, value, kind, where)
        pts = name.startswith("inside points") or name == "inside one group"
        try:
            r = f()
        except EXC:
            pass
        except BaseException as e:
            rec.fail(what + "%s: %s" % (type(e).__name__, e))
        else:
            # the bad polygon is not one of the operands, or the group is just empty
            skip = (name in ("_chop", "inside one group") and bad[-1] is not bad[i if not (i == 0 and case["last"]) else -1]) or (
                pts and kind == "poly")
            if not skip:
                rec.fail(what + "%r returned" % (r,))
            del r
        after = [sys.getrefcount(o) for o in objs]
        if after != before:
            d = [(type(o).__name__, a - b) for o, a, b in zip(objs, after, before) if a != b]
            rec.fail(what + "reference counts of the operands change: %r" % d[:5])
    rec.state(str((kind, where, item, case["wrap"], case["last"])))


def gen_malformed(tier):
    for wrap in ("list", "tuple", "array"):
        for last in (False, True):
            for i, m in ((0, 3), (1, 4)):
                for item in range(len(POLY)):
                    if wrap != "array":
                        yield dict(kind="poly", where=(i, 0, 0), item=item, wrap=wrap, last=last)
                for j in range(m):
                    for item in range(len(POINT)):
                        if wrap != "array":
                            yield dict(kind="point", where=(i, j, 0), item=item, wrap=wrap, last=last)
                    for k in (0, 1):
                        for item in range(len(OUT) if wrap == "array" else len(COORD)):
                            yield dict(kind="coord", where=(i, j, k), item=item, wrap=wrap, last=last)


def run_numbers(case, rec):
    """Distances, positions and names outside their ranges."""
    import gdspy

    A = fresh()
    v = case["v"]
    bad = []
    what = case["what"]
    rec.step()
    calls = {
        "distance": [lambda j=j, jf=jf: gdspy.offset(A, v, j, join_first=jf) for j in ("miter", "bevel", "round") for jf in (False, True)],
        "position": [lambda p=p, ax=ax: gdspy.slice(A, p, ax) for ax in (0, 1) for p in ([v], [1, v], [v, 1], v)[: 3 if isinstance(v, list) else 4]],
        "operation": [lambda: gdspy.boolean(A, A, v), lambda: gdspy.boolean(A, [], v)],
        "join": [lambda: gdspy.offset(A, 1, v), lambda: gdspy.offset(A, -1, v, join_first=True)],
    }[what]
    objs = leaves(A)
    for i, f in enumerate(calls):
        before = [sys.getrefcount(o) for o in objs]
        try:
            r = f()
        except EXC:
            pass
        except BaseException as e:
            rec.fail("%s %r (%d): %s: %s" % (what, v, i, type(e).__name__, e))
        else:
            rec.fail("%s %r (%d): %r returned" % (what, v, i, r))
        after = [sys.getrefcount(o) for o in objs]
        rec.expect(before == after, "%s %r (%d): reference counts of the operands change" % (what, v, i))
    rec.state(str(case))


def gen_numbers(tier):
    for v in [NAN, INF, -INF, 1e16, -1e16, 1e300, "a", None, (1,), [], 1j]:
        yield dict(what="distance", v=v)
    for v in [NAN, "a", None, (1,), [1, 2], 1j, {}]:
        yield dict(what="position", v=v)
    for v in ["nand", "", "OR", "or ", "an", 1, "nor"]:
        yield dict(what="operation", v=v)
    for v in ["square", "", "Round", "mitre", 2, "natural"]:
        yield dict(what="join", v=v)


def run_fracture(case, rec):
    """A polygon with one coordinate outside the range cannot be cut."""
    import gdspy

    P = [list(p) for p in HEX]
    i, k = case["at"]
    P[i][k] = OUT[case["item"]]
    n = case["n"]
    sets = [P] if n == 0 else [HEX, P] if n == 1 else [P, HEX]
    rec.step()
    for build in (lambda: gdspy.PolygonSet(sets).fracture(5), lambda: gdspy.PolygonSet(sets).fracture(5, 1e-3),
                  lambda: gdspy.Polygon(P).fracture(5) if n == 0 else gdspy.PolygonSet(sets).fracture(5)):
        try:
            r = build()
        except EXC:
            pass
        except BaseException as e:
            rec.fail("fracture with %r at %r: %s: %s" % (OUT[case["item"]], case["at"], type(e).__name__, e))
        else:
            rec.fail("fracture with %r at %r: %r returned" % (OUT[case["item"]], case["at"], r.polygons[:3]))
    rec.state(str(case))


def run_pairs(case, rec):
    """Two malformed coordinates of one list: refused for the first, whatever the second."""
    import gdspy

    places = [(0, j, k) for j in range(3) for k in (0, 1)] + [(1, j, k) for j in range(4) for k in (0, 1)]
    a, b = places[case["a"]], places[case["b"]]
    for va in COORD:
        for vb in (NAN, "a", None, (1, 2)):
            bad, good = fresh(), [[[x + 2e-3, y + 1e-3] for x, y in HEX]]
            for (i, j, k), v in ((a, va), (b, vb)):
                bad[i][j][k] = v
            objs = leaves(bad) + leaves(good)
            for name, f in operations(bad, good):
                if name in ("_chop", "inside one group"):
                    continue
                rec.step()
                before = [sys.getrefcount(o) for o in objs]
                try:
                    r = f()
                except EXC:
                    pass
                except BaseException as e:
                    rec.fail("%s with %r at %r and %r at %r: %s: %s" % (name, va, a, vb, b, type(e).__name__, e))
                else:
                    rec.fail("%s with %r at %r and %r at %r: %r returned" % (name, va, a, vb, b, r))
                    del r
                if before != [sys.getrefcount(o) for o in objs]:
                    rec.fail("%s with %r at %r and %r at %r: reference counts of the operands change" % (name, va, a, vb, b))
    rec.state((a, b))


def run_refs(case, rec):
    """Accepted operands: the reference counts of the operands do not change either."""
    import gdspy

    A, B = fresh(), [[[x + 2e-3, y + 1e-3] for x, y in HEX]]
    if case["wrap"] == "tuple":
        A, B = ([tuple(tuple(q) for q in p) for p in z] for z in (A, B))
    elif case["wrap"] == "array":
        A, B = ([np.array(p) for p in z] for z in (A, B))
    if case["empty"]:
        A[1] = type(A[1])(())if case["wrap"] != "array" else np.zeros((0, 2))
    objs = leaves(A) + leaves(B)
    for name, f in operations(A, B):
        if case["empty"] and name == "_chop":
            continue
        if name == "inside one group" and case["empty"]:
            continue
        for rep in range(3):
            rec.step()
            before = [sys.getrefcount(o) for o in objs]
            r = f()
            del r
            after = [sys.getrefcount(o) for o in objs]
            if before != after:
                rec.fail("%s with %r: reference counts of the operands change" % (name, case))
    rec.state(str(case))


def run_results(case, rec):
    """Results own their numbers: freeing them releases every object."""
    import gc
    import gdspy
    from gdspy import clipper

    A, B = fresh(), [[[x + 2e-3, y + 1e-3] for x, y in HEX]]
    for name, f in list(operations(A, B)) + [
            ("raw offset", lambda: clipper.offset(A, 0.5, "round", 16, 1000, 0)),
            ("raw chop", lambda: clipper._chop(B[0], (1.5, 2.5), 1, 1000)),
            ("raw inside", lambda: clipper.inside([[(1, 1)], [(9, 9)]], B, 1, 1000))]:
        for _ in range(3):
            f()
        gc.collect()
        n0 = sys.getallocatedblocks()
        for _ in range(200):
            f()
        gc.collect()
        n1 = sys.getallocatedblocks()
        rec.step()
        rec.expect(n1 - n0 < 150, lambda: "%s: %d blocks are left over by 200 calls" % (name, n1 - n0))
        rec.state(name)


def groups(tier):
    return [
        Group("malformed", lambda: gen_malformed(tier), run_malformed,
              "every kind of malformed coordinate, point and polygon x every place of a triangle and a quadrilateral in a list x %d operations and operands" % 18),
        Group("numbers", lambda: gen_numbers(tier), run_numbers, "distances, positions, operations and joints outside their ranges"),
        Group("fracture", lambda: (dict(item=i, at=(j, k), n=n) for i in range(len(OUT)) for j in range(6) for k in (0, 1) for n in (0, 1, 2)), run_fracture, "every place of a hexagon, alone and in a set"),
        Group("pairs", lambda: (dict(a=a, b=b) for a in range(14) for b in range(14) if a != b), run_pairs, "all pairs of places x values"),
        Group("refs", lambda: (dict(wrap=w, empty=e) for w in ("list", "tuple", "array") for e in (False, True)), run_refs, "reference counts with accepted operands"),
        Group("results", lambda: (dict(x=0),), run_results, "objects left over by repeated calls"),
    ]
