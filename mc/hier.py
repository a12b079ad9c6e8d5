"""Hierarchies described with the DSL of mc/spec.py and their flattened meaning.

desc: {cell name: [element descriptions]}; contents of a cell are polygons, paths,
labels and references (by name; names that are not keys are missing cells)."""
import numpy as np

from mc import geo, spec


def build(desc):
    import gdspy

    cells = {n: gdspy.Cell(n) for n in desc}
    for n, els in desc.items():
        for s in els:
            cells[n].add(spec.build(s, cells))
    return cells


def placements(s):
    kw = dict(origin=spec.T(s.get("o", (0, 0))), rotation=s.get("rot"),
              magnification=s.get("mag"), x_reflection=s.get("xr", False))
    if s["t"] == "ref":
        return [geo.placement(**kw)]
    return geo.array_placements(s["cols"], s["rows"], s["sp"], **kw)


_path_cache = {}


def path_polygons(s):
    """{(layer, datatype): polygons} that the path itself reports, untransformed."""
    k = repr(s)
    if k not in _path_cache:
        _path_cache[k] = {kk: [np.array(p) for p in v]
                          for kk, v in spec.build(s).get_polygons(True).items()}
    return _path_cache[k]


def own_polygons(els, T, kinds=("poly", "flex", "rob")):
    out = []
    for s in els:
        if s["t"] not in kinds and not (s["t"] == "fpath" and "flex" in kinds):
            continue
        if s["t"] in ("poly", "fpath"):
            for p, ld in zip(s["polys"], s["ld"]):
                out.append((tuple(ld), T.pts(p)))
        else:
            for k, v in path_polygons(s).items():
                out += [(k, T.pts(p)) for p in v]
    return out


def polygons(desc, name, depth=None, T=geo.ID, kinds=("poly", "flex", "rob"), boxes=True):
    """[(spec or cell name, points)]."""
    if name not in desc:
        return []
    if depth is not None and depth < 0:
        if not boxes:
            return []
        bb = geo.bbox([p for _, p in polygons(desc, name)])
        if bb is None:
            return []
        (a, b), (c, d) = bb
        return [(name, T.pts([(a, b), (a, d), (c, d), (c, b)]))]
    out = own_polygons(desc[name], T, kinds)
    for s in desc[name]:
        if s["t"] in ("ref", "arr"):
            for q in placements(s):
                out += polygons(desc, s["cell"], None if depth is None else depth - 1,
                                q.then(T), kinds, boxes)
    return out


def elements(desc, name, T=geo.ID):
    """Polygon sets and paths of the flattened cell, each with its polygons frozen."""
    out = []
    for s in desc.get(name, []):
        if s["t"] in ("poly", "fpath", "flex", "rob"):
            items = own_polygons([s], T)
            out.append(dict(t="poly" if s["t"] == "poly" else "fpath",
                            polys=[[tuple(v) for v in p.tolist()] for _, p in items],
                            ld=[k for k, _ in items]))
    for s in desc.get(name, []):
        if s["t"] in ("ref", "arr"):
            for q in placements(s):
                out += elements(desc, s["cell"], q.then(T))
    return out


def labels(desc, name, depth=None, T=geo.ID, tr=(False, 1, 0)):
    """[(text, layer, texttype, anchor, position, own transform, composed transform)]."""
    if name not in desc:
        return []
    out = []
    for s in desc[name]:
        if s["t"] == "label":
            own = (bool(s.get("xr")), s.get("mag") or 1, (s.get("rot") or 0) % 360)
            comp = (own[0] != tr[0], own[1] * tr[1],
                    (tr[2] + (-own[2] if tr[0] else own[2])) % 360)
            p = T(complex(*s["pos"]))
            out.append((s["text"], s.get("l", 0), s.get("tt", 0),
                        spec.ANCHORS[s.get("anchor", "o")], (p.real, p.imag), own, comp))
        elif s["t"] in ("ref", "arr") and (depth is None or depth > 0):
            r = (bool(s.get("xr")), s.get("mag") or 1, (s.get("rot") or 0) % 360)
            t2 = (r[0] != tr[0], r[1] * tr[1], (tr[2] + (-r[2] if tr[0] else r[2])) % 360)
            for q in placements(s):
                out += labels(desc, s["cell"], None if depth is None else depth - 1,
                              q.then(T), t2)
    return out


def label_tuple(l):
    return (l.text, l.layer, l.texttype, int(l.anchor),
            (float(l.position[0]), float(l.position[1])),
            (bool(l.x_reflection), l.magnification if l.magnification is not None else 1,
             (l.rotation or 0) % 360))


def close_label(g, x, composed, tol=1e-8):
    if g[:4] != x[:4]:
        return False
    if max(abs(g[4][0] - x[4][0]), abs(g[4][1] - x[4][1])) > tol:
        return False
    w = x[6] if composed else x[5]
    d = abs(g[5][2] - w[2]) % 360
    return g[5][0] == w[0] and abs(g[5][1] - w[1]) < 1e-9 and min(d, 360 - d) < 1e-9


def match_labels(got, exp, composed, tol=1e-8):
    if len(got) != len(exp):
        return "%d labels, expected %d" % (len(got), len(exp))
    left = list(exp)
    for l in got:
        g = label_tuple(l)
        for i, x in enumerate(left):
            if close_label(g, x, composed, tol):
                del left[i]
                break
        else:
            return "label %r is not expected (one of %r)" % (g, left[:2])
    return None


def by_spec(items):
    d = {}
    for k, p in items:
        d.setdefault(k, []).append(p)
    return d


def match_dict(got, exp, tol=1e-8):
    exp = by_spec(exp)
    if set(got) != set(exp):
        return "keys %r, expected %r" % (sorted(map(str, got)), sorted(map(str, exp)))
    for k in exp:
        why = geo.match_polygons(got[k], exp[k], tol)
        if why:
            return "%r: %s" % (k, why)
    return None


def path_polys_of(p):
    return [np.array(q) for q in p.get_polygons()]
