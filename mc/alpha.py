"""Alphabets: small, deliberately colliding domains for every kind of element."""
import itertools

TRI = [(0, 0), (3, 0), (1, 2)]
SQ = [(-1, -2), (2, -2), (2, 1), (-1, 1)]
ELL = [(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (0, 3)]
FRAC = [(0.1234, -0.5678), (7.0005, 0.0015), (2.49951, 3.50049), (-1.0004999, 2)]
BIG = [(0, 0), (2147483.647, 0), (2147483.647, -2147483.648)]

ROT = [None, 0, 90, 180, 270, -90, 30, 45.5, 360]
MAG = [None, 1, 2, 0.5, 1.5]
XR = [False, True]
PROPSETS = [
    [],
    [(1, "a")],
    [(126, "ab"), (1, "odd")],
    [(2, ""), (127, "x" * 126)],
    [(3, "p" * 127), (4, "q" * 60), (5, "r" * 33)],
]
LD = [(0, 0), (1, 2), (255, 254), (32767, 32766), (12, -1), (-32768, 3)]


def ring(n, r=50.0):
    """A simple polygon with n vertices (comb-shaped: not convex)."""
    h = n // 2
    pts = [(i * 0.01, 0.0) for i in range(h)]
    pts += [((h - 1) * 0.01 - i * 0.005, 1.0 + (i % 2) * 0.5) for i in range(n - h)]
    return pts


def polys():
    for pts in (TRI, SQ, ELL, FRAC, BIG):
        for ld in LD:
            yield dict(t="poly", polys=[pts], ld=[ld])
    for dt in ("int64", "int32", "float32", "float64"):
        yield dict(t="poly", polys=[SQ], ld=[(1, 1)], dtype=dt)
    for props in PROPSETS[1:]:
        yield dict(t="poly", polys=[TRI], ld=[(1, 1)], props=props)
        yield dict(t="poly", polys=[TRI, SQ], ld=[(1, 1), (2, 1)], props=props)
    for k in range(1, 4):
        for lds in itertools.product(LD[:3], repeat=k):
            yield dict(t="poly", polys=[TRI, SQ, ELL][:k], ld=list(lds))


LONG = [100, 199, 200, 201, 8188, 8189, 8190, 8191, 8192, 16379, 16380, 16381, 24571]


def long_polys():
    for n in LONG:
        yield dict(t="poly", polys=[ring(n)], ld=[(5, 6)])
        yield dict(t="poly", polys=[ring(n), TRI], ld=[(5, 6), (7, 8)],
                   props=[(1, "abc")])


def labels():
    from mc.spec import ANCHORS

    for a in ANCHORS:
        yield dict(t="label", text="t", pos=(1.5, -2.25), anchor=a, l=3, tt=4)
    for r, m, x in itertools.product(ROT, MAG, XR):
        yield dict(t="label", text="ab", pos=(1, 2), rot=r, mag=m, xr=x, l=1, tt=2)
    for txt in ("", "a", "ab", "abc", "<&>", "x" * 511, "x" * 512, " lead and trail "):
        for ld in LD:
            yield dict(t="label", text=txt, pos=(0.1234, -7.0005), l=ld[0], tt=ld[1])
    for p in PROPSETS[1:]:
        yield dict(t="label", text="p", pos=(0, 0), props=p)


def refs(cell="X"):
    for r, m, x in itertools.product(ROT, MAG, XR):
        for o in ((0, 0), (1.5, -2.25), (-3, 7)):
            yield dict(t="ref", cell=cell, o=o, rot=r, mag=m, xr=x)
    for p in PROPSETS[1:]:
        yield dict(t="ref", cell=cell, o=(1, 1), props=p)


def arrs(cell="X"):
    for r, m, x in itertools.product(ROT, MAG, XR):
        for c, rw, sp, o in (
            (3, 2, (4, 5), (1.5, -2.25)),
            (1, 4, (10, 2.5), (0, 0)),
            (2, 3, (-4, 6), (7, 8)),
            (2, 2, (4, -6), (7, -8)),
        ):
            yield dict(t="arr", cell=cell, cols=c, rows=rw, sp=sp, o=o, rot=r, mag=m,
                       xr=x)
    for p in PROPSETS[1:]:
        yield dict(t="arr", cell=cell, cols=2, rows=2, sp=(3, 3), props=p)
    yield dict(t="arr", cell=cell, cols=32767, rows=1, sp=(1, 1))
    yield dict(t="arr", cell=cell, cols=1, rows=32767, sp=(1, 1))


PLINES = [
    [(0, 0), (10, 0)],
    [(0, 0), (10, 0), (10, 8)],
    [(0, 0), (10, 0), (16, -5), (16, -20)],
    [(0.1234, -0.5678), (7.0005, 0.0015), (2.4995, 9.5)],
    [(5, 5), (5, 15), (-5, 15), (-5, 25), (12, 25)],
]
ENDS = ["flush", "round", "extended", ("ext", 0.5, 1.25), ("ext", 0, 2), ("ext", -0.5, 0)]


def gds_paths(kind):
    for pts in PLINES:
        for e in ENDS:
            for wt in (True, False):
                yield dict(t=kind, pts=pts, w=0.5, ends=e, gds=True, wt=wt, l=3, d=4)
        for w, off in ((1, 0.4), (1, [-0.75]), ([0.5, 1], 2), ([0.5, 1, 0.25], [0, -2, 1.5]),
                       (0.5, [1, -1])):
            if kind == "rob" and len(pts) > 2:
                # a RobustPath joins offset sections with tolerance; see C20
                off = 0
                w = w if not isinstance(w, list) else w[:1]
            yield dict(t=kind, pts=pts, w=w, off=off, gds=True, l=[1, 2, 3], d=[4, 5])
            yield dict(t=kind, pts=pts, w=w, off=off, gds=True, l=1, d=0,
                       ends=["flush", "round", ("ext", 0.25, 0.75)])
        for p in PROPSETS[1:]:
            yield dict(t=kind, pts=pts, w=0.5, gds=True, props=p)
    for w in (0, 0.0005, 0.0015, 2.0004999, 1000):
        yield dict(t=kind, pts=PLINES[0], w=w, gds=True)
    if kind == "flex":
        for n in (100, 200, 8189, 8190, 8191, 8192, 8193, 16382, 16383, 24574):
            pts = [(i * 0.01, (i % 3) * 0.02) for i in range(n)]
            yield dict(t=kind, pts=pts, w=0.005, gds=True)
            yield dict(t=kind, pts=pts, w=0.005, gds=True, props=[(1, "abc")])
        yield dict(t=kind, pts=[(0, 0), (0, 0), (5, 0), (5, 0), (5, 5)], w=1, gds=True)


UNITS = [(1e-6, 1e-9), (1e-6, 5e-9), (1e-6, 1e-10), (1e-3, 1e-6), (1e-9, 1e-9),
         (1, 1e-3)]
