"""In-memory gdspy contents rendered as plain stream-like dictionaries (public
attributes only), in database units given a factor (database unit in user units)."""
import numpy as np

from mc import gds, spec

INV = {}
for _k, _v in spec.ANCHORS.items():
    INV[_k] = _v


def pts(a, f):
    return [(float(p[0]) / f, float(p[1]) / f) for p in np.asarray(a, dtype=float).reshape(-1, 2)]


def tr(el):
    return dict(strans=0x8000 if el.x_reflection else 0, mag=el.magnification,
                angle=el.rotation)


def refname(r):
    return r.ref_cell if isinstance(r.ref_cell, str) else r.ref_cell.name


def element(el, f):
    import gdspy

    props = sorted(dict(el.properties).items())
    if isinstance(el, gdspy.PolygonSet):
        out = []
        if not (len(el.polygons) == len(el.layers) == len(el.datatypes)):
            raise AssertionError("polygons, layers and datatypes differ in length")
        for p, l, d in zip(el.polygons, el.layers, el.datatypes):
            xy = pts(p, f)
            out.append(dict(kind=gds.BOUNDARY, layer=l, type=d, xy=xy + xy[:1], props=props))
        return out
    if isinstance(el, gdspy.Label):
        e = dict(kind=gds.TEXT, layer=el.layer, type=el.texttype, string=el.text,
                 presentation=int(el.anchor), xy=pts(el.position, f), props=props)
        e.update(tr(el))
        return [e]
    if isinstance(el, gdspy.CellReference):
        e = dict(kind=gds.SREF, sname=refname(el), xy=pts(el.origin, f), props=props)
        e.update(tr(el))
        return [e]
    if isinstance(el, gdspy.CellArray):
        e = dict(kind=gds.AREF, sname=refname(el), props=props,
                 colrow=(el.columns, el.rows), origin=pts(el.origin, f)[0],
                 spacing=pts(el.spacing, f)[0])
        e.update(tr(el))
        o, s = e["origin"], e["spacing"]
        d = dict(t="arr", cell="", cols=el.columns, rows=el.rows, sp=s, o=o,
                 rot=el.rotation, xr=el.x_reflection)
        e["xy"] = spec.expected_stream(d, 1)[0]["xy"]
        return [e]
    if isinstance(el, gdspy.FlexPath):
        out = []
        for i in range(el.n):
            end = el.ends[i]
            e = dict(kind=gds.PATH, layer=el.layers[i], type=el.datatypes[i],
                     pathtype=spec.PATHTYPE.get(end, 4) if isinstance(end, str) else 4,
                     width=float(el.widths[0, i]) / f * (1 if el.width_transform else -1),
                     bgnextn=None, endextn=None, props=props, gds=el.gdsii_path)
            if not isinstance(end, str):
                e["bgnextn"], e["endextn"] = float(end[0]) / f, float(end[1]) / f
            e["xy"] = spec.offset_line(
                [tuple(p) for p in np.asarray(el.points, dtype=float) / f],
                float(el.offsets[0, i]) / f)
            out.append(e)
        return out
    raise AssertionError("unexpected element %r" % el)


def cell(c, f):
    out = []
    for el in c.polygons + c.paths + c.labels + c.references:
        out += element(el, f)
    return out


ORDER = {gds.BOUNDARY: 0, gds.PATH: 1, gds.TEXT: 2, gds.SREF: 3, gds.AREF: 3}


def compare(got, exp, slack=1e-3):
    """Element lists, compared in order within each kind."""
    if len(got) != len(exp):
        return "%d elements, expected %d" % (len(got), len(exp))
    k = lambda e: ORDER[e["kind"]]
    for g, x in zip(sorted(got, key=k), sorted(exp, key=k)):
        why = spec.compare_stream(g, x, slack)
        if why:
            return why
    return None


def rnd(a):
    return tuple(map(tuple, np.round(np.asarray(a, dtype=float).reshape(-1, 2), 9).tolist()))


def fp_element(el):
    """Everything observable about an element, hashable."""
    import gdspy

    props = tuple(sorted(dict(el.properties).items()))
    if isinstance(el, gdspy.PolygonSet):
        return ("poly", tuple(map(rnd, el.polygons)), tuple(el.layers), tuple(el.datatypes), props)
    if isinstance(el, gdspy.Label):
        return ("label", el.text, rnd(el.position), int(el.anchor), el.rotation, el.magnification,
                bool(el.x_reflection), el.layer, el.texttype, props)
    if isinstance(el, (gdspy.CellReference, gdspy.CellArray)):
        return (type(el).__name__, refname(el), rnd(el.origin), el.rotation, el.magnification,
                bool(el.x_reflection), getattr(el, "columns", None), getattr(el, "rows", None),
                rnd(el.spacing) if hasattr(el, "spacing") else None, props)
    pol = el.get_polygons(True)
    return (type(el).__name__, tuple(sorted((k, tuple(map(rnd, v))) for k, v in pol.items())),
            tuple(el.layers), tuple(el.datatypes), repr(el.ends), props, el.gdsii_path)


def fingerprint(c):
    return (c.name, tuple(fp_element(e) for e in c.polygons + c.paths + c.labels + c.references))
