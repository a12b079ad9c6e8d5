"""C25: write_svg against an interpreter of the SVG it writes."""
import io
import itertools
import os
import pathlib
import re
import warnings
import xml.etree.ElementTree as ET

import numpy as np

from checks import c06, c23
from mc import alpha, geo, hier, spec
from mc.engine import Group

NS = "{http://www.w3.org/2000/svg}"
HREF = "{http://www.w3.org/1999/xlink}href"
FLIP = geo.Aff(1, 0, True)


def num(s):
    if not re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)", s):
        raise ValueError("not a plain number: %r" % s)
    return float(s)


def transform(s):
    """First operation of the list is the outermost."""
    T = geo.ID
    left = s.strip()
    while left:
        m = re.match(r"(translate|rotate|scale)\(([^()]*)\)\s*", left)
        if not m:
            raise ValueError("transform %r" % s)
        a = [num(x) for x in m.group(2).replace(",", " ").split()]
        if m.group(1) == "translate":
            q = geo.Aff(1, complex(a[0], a[1] if len(a) > 1 else 0))
        elif m.group(1) == "rotate":
            if len(a) != 1:
                raise ValueError(s)
            q = geo.Aff(geo.rot(a[0]))
        else:
            sx, sy = a[0], a[1] if len(a) > 1 else a[0]
            if abs(sx) != abs(sy):
                raise ValueError(s)
            q = geo.Aff(sx) if sx == sy else geo.Aff(sx, 0, True)
        T = q.then(T)
        left = left[m.end():]
    return T


class Svg:
    """What the document draws."""

    def __init__(self, text):
        root = ET.fromstring(text)
        if root.tag != NS + "svg":
            raise ValueError(root.tag)
        self.size = num(root.get("width")), num(root.get("height"))
        self.box = [num(x) for x in root.get("viewBox").split()]
        self.css, self.ids, self.rect = {}, {}, None
        self.polygons, self.texts = [], []
        for n in root.iter():
            i = n.get("id")
            if i is not None:
                if i in self.ids:
                    raise ValueError("id %r is repeated" % i)
                self.ids[i] = n
            if n.tag == NS + "style":
                for sel, body in re.findall(r"\.([^\s{]+)\s*\{([^}]*)\}", n.text):
                    if sel in self.css:
                        raise ValueError("style %r is repeated" % sel)
                    self.css[sel] = dict((a.strip(), b.strip()) for a, b in (x.split(":", 1) for x in body.split(";") if x.strip()))
        for n in root:
            self.draw(n, geo.ID, 0)

    def draw(self, n, T, level):
        if n.tag in (NS + "defs", NS + "style"):
            return
        if level > 20:
            raise ValueError("recursive references")
        if n.get("transform"):
            T = transform(n.get("transform")).then(T)
        if n.tag in (NS + "g", NS + "svg"):
            for k in n:
                self.draw(k, T, level + 1)
        elif n.tag == NS + "use":
            h = n.get(HREF)
            if not h.startswith("#"):
                raise ValueError(h)
            if h[1:] in self.ids:
                self.draw(self.ids[h[1:]], T, level + 1)
        elif n.tag == NS + "polygon":
            pts = [[num(x) for x in p.split(",")] for p in n.get("points").split()]
            self.polygons.append((n.get("class"), T.pts(pts)))
        elif n.tag == NS + "text":
            self.texts.append((n.get("class"), n.text or "", n.get("text-anchor"), n.get("dominant-baseline"), T))
        elif n.tag == NS + "rect":
            if self.rect is not None or level != 0:
                raise ValueError("more than one background")
            self.rect = [num(n.get(k)) for k in ("x", "y", "width", "height")] + [n.get("fill")]
        else:
            raise ValueError(n.tag)


TA = ("start", "middle", "end")
BASE = ("text-before-edge", "central", "text-after-edge")


def labels(desc, name, T=geo.ID):
    out = []
    for s in desc.get(name, []):
        if s["t"] == "label":
            own = geo.placement(s["pos"], s.get("rot"), s.get("mag"), s.get("xr"))
            a = spec.ANCHORS[s.get("anchor", "o")]
            out.append(("l%dt%d" % (s.get("l", 0), s.get("tt", 0)), s["text"], TA[a % 4], BASE[a // 4], FLIP.then(own).then(T)))
        elif s["t"] in ("ref", "arr"):
            for q in hier.placements(s):
                out += labels(desc, s["cell"], q.then(T))
    return out


def levels(desc, name):
    """Depth of the hierarchy and the largest magnification."""
    d, m = 0, 1.0
    for s in desc.get(name, []):
        if s["t"] in ("ref", "arr"):
            dd, mm = levels(desc, s["cell"])
            d, m = max(d, dd + 1 + (s["t"] == "arr")), max(m, mm * max(1.0, s.get("mag") or 1))
    return d, m


def run(case, rec):
    desc = case["desc"]
    opt = dict(case["opt"])
    scaling, prec = opt.get("scaling", 10), opt.get("precision")
    style = {(1, 2): {"fill": "#CC00FF", "stroke": "black"}, (5, 6): {"fill": "url(a) none", "stroke-width": "2.5"}}
    font = {(3, 4): {"fill": "red", "font-family": "'a b', serif"}}
    which = opt.pop("style", False)
    if which == "empty":
        style, font = {(1, 2): {}, (3, 0): {"fill": "none"}}, {(3, 4): {}}
    elif which == "other":
        style, font = {(77, 2): {"fill": "red"}}, {(77, 4): {"fill": "red"}}
    if which:
        opt["style"], opt["fontstyle"] = style, font
    else:
        style = font = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cells = hier.build(desc)
        top = cells["TOP"]
        bb = top.get_bounding_box()
        with c23.Scratch() as s:
            to = case.get("to", "stream")
            f = {"str": s.f, "path": pathlib.Path(s.f), "like": c23.Like(s.f), "stream": io.StringIO()}[to]
            top.write_svg(f, **opt)
            if to == "stream":
                rec.expect(not f.closed, "write_svg closes the stream of the user")
                text = f.getvalue()
            else:
                text = open(s.f, encoding="utf8").read() if os.path.exists(s.f) else ""
        again = io.StringIO()
        top.write_svg(again, **opt)
    rec.step(2)
    polys = hier.polygons(desc, "TOP")
    box = geo.bbox([p for _, p in polys])
    if box is None:
        rec.expect(text == "", "SVG of a cell without polygons: %r" % text[:80])
        rec.state((str(desc), ""))
        return
    rec.expect(again.getvalue() == text, "the second SVG of the same cell is different")
    rec.expect(np.abs(top.get_bounding_box() - bb).max() == 0, "write_svg changes the bounding box")
    try:
        svg = Svg(text.encode("utf8"))
    except (ET.ParseError, ValueError) as e:
        return rec.fail("not the SVG of a layout: %s" % e)
    if prec is not None:
        long = [x for a in re.findall(r'(?:points|viewBox|width|height|x|y)="([^"]*)"', text) + re.findall(r"translate\(([^)]*)\)", text)
                for x in re.findall(r"\.(\d+)", a) if len(x.rstrip("0")) > prec]
        rec.expect(not long, lambda: "coordinates with more than %d digits after the point: %s" % (prec, long[:5]))
    d, m = levels(desc, "TOP")
    e0 = 1e-9 * (1 + max(abs(v) for b in box for v in b) * scaling)
    e = e0 if prec is None else e0 + 0.75 * 10.0 ** -prec * (d + 1) * m
    G = geo.Aff(scaling, 0, True)
    got, exp = {}, {}
    for c, p in svg.polygons:
        got.setdefault(c, []).append(p)
    for (l, t), p in polys:
        exp.setdefault("l%dd%d" % (l, t), []).append(G.pts(p))
    if not rec.expect(set(got) == set(exp), lambda: "polygon classes %s, expected %s" % (sorted(got), sorted(exp))):
        return
    for k in exp:
        why = geo.match_polygons(got[k], exp[k], e)
        if not rec.expect(not why, lambda: "polygons of class %s: %s" % (k, why)):
            return
    left = labels(desc, "TOP")
    if not rec.expect(len(left) == len(svg.texts), lambda: "%d texts, expected %d" % (len(svg.texts), len(left))):
        return
    left = [x[:4] + (x[4].then(FLIP),) for x in left]
    want = {x[0] for x in left}
    for t in svg.texts:
        for i, x in enumerate(left):
            if t[:4] == x[:4] and t[4].conj == x[4].conj and abs(t[4].a - x[4].a) < 1e-6 and abs(t[4].b - scaling * x[4].b) < 2 * e:
                del left[i]
                break
        else:
            return rec.fail("text %r at %s of %s is not one of the labels %s" % (t[:4], t[4].b, t[4].a, [(x[:4], scaling * x[4].b, x[4].a) for x in left]))
    # styles of everything drawn
    for k in set(exp) | want:
        if not rec.expect(k in svg.css and (svg.css[k].get("fill") or which == "empty"), lambda: "class %s has no style" % k):
            return
    for tab, c in ((style, "d"), (font, "t")):
        for (l, t), v in tab.items():
            k = "l%d%s%d" % (l, c, t)
            rec.expect((l == 77 and k not in svg.css) or (l != 77 and (k not in set(exp) | want or svg.css[k] == v)), lambda: "style of %s is %s, requested %s" % (k, svg.css[k], v))
    # the frame
    (x0, y0), (x1, y1) = box
    w, h = (x1 - x0) * scaling, (y1 - y0) * scaling
    pad = opt.get("pad", "5%")
    back = opt.get("background", "#222")
    if isinstance(pad, str):
        pad = float(pad[:-1]) / 100 * max(w, h) if pad.endswith("%") else float(pad)
    if back is None:
        pad = 0
    frame = [x0 * scaling - pad, -y1 * scaling - pad, w + 2 * pad, h + 2 * pad]
    rec.expect(max(abs(a - b) for a, b in zip(svg.box, frame)) < e, lambda: "view box %s, expected %s" % (svg.box, frame))
    rec.expect(max(abs(a - b) for a, b in zip(svg.size, frame[2:])) < e, lambda: "size %s, expected %s" % (svg.size, frame[2:]))
    if back is None:
        rec.expect(svg.rect is None, "a background was not requested")
    else:
        rec.expect(svg.rect is not None and svg.rect[4] == back and max(abs(a - b) for a, b in zip(svg.rect, frame)) < e,
                   lambda: "background %s, expected %s %s" % (svg.rect, frame, back))
    rec.state((text[-3000:], str(opt)))


LEAF = [
    dict(t="poly", polys=[alpha.TRI, alpha.ELL], ld=[(1, 2), (3, 0)]),
    dict(t="label", text="a<&>\"b'", pos=(1.5, -2), anchor="nw", rot=30, mag=2, xr=True, l=3, tt=4),
    dict(t="label", text="µ", pos=(0, 3), anchor="se", l=-3, tt=7),
    dict(t="flex", pts=[(0, 0), (6, 0), (6, 5)], w=[0.5, 1], off=2, l=[5, 1], d=[6, 2], ends="round"),
    dict(t="rob", pts=[(-3, 0), (-3, 9)], w=[2, 1], off=[0, 4], l=[3, 9], d=6),
    dict(t="poly", polys=[alpha.SQ], ld=[(1, 1)], dtype="int64"),
]


def place(kind, cell, tr):
    r, m, x, o = tr
    d = dict(t=kind, cell=cell, rot=r, mag=m, xr=x, o=o)
    if kind == "arr":
        d.update(cols=2, rows=3, sp=(7, -5))
    return d


TR = [(r, m, x, o) for r in (None, 90, -45.5) for m in (None, 2, 0.25) for x in (False, True) for o in ((0, 0), (3.5, -2.25))]
OPTS = [dict(scaling=s, precision=p, pad=d, background=b, style=y) for s in (10, 1, 0.037) for p in (None, 0, 3, 7, 12)
        for d in ("5%", 0, 3.5, "12", "0.5%") for b in ("#222", None, "white") for y in (False, True, "empty", "other")]


def gen(tier):
    deep = tier == "thorough"
    for o in OPTS:
        for to in ("stream", "str", "path", "like"):
            yield dict(desc={"TOP": LEAF}, opt=o, to=to)
    for k in range(len(LEAF) + 1):
        for els in itertools.combinations(LEAF, k):
            yield dict(desc={"TOP": list(els)}, opt={})
    for a in spec.ANCHORS:
        for r, m, x in itertools.product(alpha.ROT, alpha.MAG, alpha.XR):
            yield dict(desc={"TOP": [LEAF[0], dict(t="label", text="t", pos=(1, 2), anchor=a, rot=r, mag=m, xr=x)]}, opt={})
    for t in TR:
        for kind in ("ref", "arr"):
            for p in (None, 0, 1, 2, 4):
                for s in (10, 0.5):
                    yield dict(desc={"TOP": LEAF[:1] + [place(kind, "L#1", t)], "L#1": LEAF}, opt=dict(precision=p, scaling=s))
    few = TR if deep else TR[1::5]
    for t1, t2 in itertools.product(TR, few):
        for k1, k2 in itertools.product(("ref", "arr"), repeat=2):
            yield dict(desc={"TOP": [place(k2, "MID", t2), place("ref", "LEAF", t1)],
                             "MID": LEAF[1:2] + [place(k1, "LEAF", t1), place("ref", "NONE", t1)], "LEAF": LEAF}, opt=dict(precision=(None, 2)[k1 == k2]))
    if deep:
        for t in itertools.product(TR[1::3], repeat=3):
            yield dict(desc={"TOP": [place("ref", "A", t[0])], "A": [place("arr", "B", t[1])], "B": LEAF[:1] + [place("ref", "C", t[2])], "C": LEAF}, opt={})


def gen_graphs(tier):
    """All acyclic hierarchies: every cell is defined once however often it is used."""
    names = ["TOP", "A", "B#2", "C"]
    pairs = list(itertools.combinations(range(4), 2))
    for mask in itertools.product((0, 1, 2), repeat=len(pairs)):
        desc = {n: [dict(t="poly", polys=[[(i, 0), (i + 2, 1), (i, 3)]], ld=[(i, 1)])] if i or mask[0] else [] for i, n in enumerate(names)}
        for i, n in enumerate(names):
            desc[n] = desc[n] + [dict(t="label", text=n, pos=(i, 1), l=20 + i, tt=i)]
        for (i, j), m in zip(pairs, mask):
            desc[names[i]] = desc[names[i]] + [place("ref", names[j], (90 * k or None, None, bool(i), (i + j, k))) for k in range(m)]
        yield dict(desc=desc, opt={})


def groups(tier):
    return [
        Group("cells", lambda: gen(tier), run,
              "%d option sets x 4 kinds of files, all labels, %d placements x reference and array x precision, pairs of placements%s" % (
                  len(OPTS), len(TR), ", triples" if tier == "thorough" else "")),
        Group("graphs", lambda: gen_graphs(tier), run, "all hierarchies of 4 cells with up to 2 references per pair"),
    ]
