"""C05: the library as a map, breadth-first over operation histories."""
import copy
import itertools

from mc.bfs import bfs
from mc.engine import Group

# cell objects: id -> name
OBJ = {"A0": "A", "A1": "A", "B0": "B", "C0": "C"}


class M:
    """name of every object, references (target, kind) of every object, library map."""

    def __init__(self):
        self.name = dict(OBJ)
        self.refs = {k: [] for k in OBJ}
        self.lib = {}
        self.n = 0

    def clone(self):
        m = M.__new__(M)
        m.name = dict(self.name)
        m.refs = {k: list(v) for k, v in self.refs.items()}
        m.lib = dict(self.lib)
        m.n = self.n
        return m

    def tname(self, t):
        return t[1:] if t[0] == "'" else self.name[t]

    def deps(self, o, seen=None):
        seen = set() if seen is None else seen
        for t, _ in self.refs[o]:
            if t[0] != "'" and t not in seen:
                seen.add(t)
                self.deps(t, seen)
        return seen

    def cyclic(self):
        return any(o in self.deps(o) for o in self.refs)

    def replace(self, old, new):
        """References named old, in the cells of the library, now point to new."""
        n = 0
        for o in set(self.lib.values()):
            for i, (t, k) in enumerate(self.refs[o]):
                if self.tname(t) == old:
                    self.refs[o][i] = (new, k)
                    n += 1
        return n


def canon(m):
    return (tuple(sorted(m.name.items())), tuple((k, tuple(v)) for k, v in sorted(m.refs.items())),
            tuple(sorted(m.lib.items())))


def add(m, objs, deps, over, upd):
    s = set(objs)
    if deps:
        for o in objs:
            s |= m.deps(o)
    if not over:
        names = dict(m.lib)
        for o in s:
            if names.setdefault(m.name[o], o) != o:
                return m, "ValueError"
    m = m.clone()
    changed = [o for o in s if m.lib.get(m.name[o], o) != o]
    for o in s:
        m.lib[m.name[o]] = o
    if upd and over:
        for o in changed:
            m.replace(m.name[o], o)
    return m, "lib"


def step(m, op):
    k = op[0]
    if k == "add":
        return add(m, op[2], *op[3:])
    if k == "new":
        m2 = m.clone()
        o = "N%d" % m2.n
        m2.n += 1
        m2.name[o] = op[1]
        m2.refs[o] = []
        m3, r = add(m2, [o], False, op[2], op[3])
        return (m, r) if r == "ValueError" else (m3, o)
    if k == "remove":
        m = m.clone()
        name = m.tname(op[1])
        m.lib.pop(name, None)
        n = 0
        if op[2]:
            for o in set(m.lib.values()):
                a = len(m.refs[o])
                m.refs[o] = [(t, kk) for t, kk in m.refs[o] if m.tname(t) != name]
                n += a - len(m.refs[o])
        return m, n
    if k == "rename":
        old = m.tname(op[1])
        if old not in m.lib or (op[1][0] != "'" and m.lib[old] != op[1]) or op[2] in m.lib:
            return m, "ValueError"
        m = m.clone()
        o = m.lib.pop(old)
        m.lib[op[2]] = o
        m.name[o] = op[2]
        return m, (m.replace(old, o) if op[3] else 0)
    if k == "replace":
        m = m.clone()
        new = op[2]
        if new[0] == "'" and new[1:] in m.lib:
            new = m.lib[new[1:]]
        return m, m.replace(m.tname(op[1]), new)
    if k == "ref":
        m = m.clone()
        m.refs[op[1]].append((op[2], op[3]))
        return m, None
    if k == "unref":
        m = m.clone()
        m.refs[op[1]].pop()
        return m, None
    raise ValueError(op)


def ops_for(tier):
    tf = (False, True)
    lists = [("one", ("A0",)), ("one", ("A1",)), ("one", ("B0",)), ("one", ("C0",)),
             ("list", ()), ("list", ("A0", "B0")), ("list", ("A0", "A1")), ("list", ("A1", "C0")),
             ("set", ("A0", "C0")), ("gen", ("B0", "C0")), ("gen", ("A1", "B0"))]
    out = []
    for how, objs in lists:
        for d, o, u in itertools.product(tf, tf, tf):
            if not o and not u:
                continue
            out.append(("add", how, objs, d, o, u))
    for n in ("A", "B", "D"):
        for o, u in ((False, True), (True, True), (True, False)):
            out.append(("new", n, o, u))
    for c in ("A0", "A1", "B0", "'A", "'B", "'C", "'Z"):
        for r in tf:
            out.append(("remove", c, r))
    for c in ("A0", "A1", "B0", "'A", "'C", "'Z"):
        for n in ("A", "B", "D"):
            for u in tf:
                out.append(("rename", c, n, u))
    for a in ("A0", "'A", "B0", "'B", "'Z"):
        for b in ("A1", "'A", "C0", "'C", "'Z", "'Y"):
            out.append(("replace", a, b))
    return out


class R:
    def __init__(self, init):
        import gdspy

        self.g = gdspy
        self.lib = gdspy.GdsLibrary("L")
        self.obj = {k: gdspy.Cell(n) for k, n in OBJ.items()}
        self.n = 0
        for o, t, k in init:
            self.act(("ref", o, t, k))

    def get(self, t):
        return t[1:] if t[0] == "'" else self.obj[t]

    def act(self, op):
        k = op[0]
        try:
            if k == "add":
                objs = [self.obj[o] for o in op[2]]
                arg = {"one": lambda: objs[0], "list": lambda: objs, "set": lambda: set(objs),
                       "gen": lambda: (o for o in objs)}[op[1]]()
                r = self.lib.add(arg, op[3], op[4], op[5])
                return "lib" if r is self.lib else r
            if k == "new":
                c = self.lib.new_cell(op[1], op[2], op[3])
                o = "N%d" % self.n
                self.n += 1
                self.obj[o] = c
                return o
            if k == "remove":
                return self.lib.remove(self.get(op[1]), op[2])
            if k == "rename":
                return self.lib.rename_cell(self.get(op[1]), op[2], op[3])
            if k == "replace":
                return self.lib.replace_references(self.get(op[1]), self.get(op[2]))
            if k == "ref":
                t = self.get(op[2])
                g = self.g
                self.obj[op[1]].add(
                    g.CellReference(t, ignore_missing=True) if op[3] == "r" else
                    g.CellArray(t, 2, 3, (1, 1), ignore_missing=True))
                return None
        except ValueError:
            return "ValueError"
        raise AssertionError(op)


def check(r, m, got, want):
    if got != want or type(got) != type(want) and not isinstance(got, int):
        return "returned %r, expected %r" % (got, want)
    ids = {id(c): o for o, c in r.obj.items()}
    lib = {n: ids.get(id(c), "?") for n, c in r.lib.cells.items()}
    if lib != m.lib:
        return "library %r, expected %r" % (lib, m.lib)
    if sorted(ids.get(id(c), "?") for c in r.lib) != sorted(lib.values()):
        return "iteration over the library differs from its map"
    for o, c in r.obj.items():
        if c.name != m.name[o]:
            return "%s is named %r, expected %r" % (o, c.name, m.name[o])
        refs = [("'" + x.ref_cell if isinstance(x.ref_cell, str) else ids.get(id(x.ref_cell), "?"),
                 "r" if isinstance(x, r.g.CellReference) else "a") for x in c.references]
        if refs != m.refs[o]:
            return "references of %s: %r, expected %r" % (o, refs, m.refs[o])
    return None


def inits(tier):
    """Reference structures of the cells before any library operation."""
    base = [
        [],
        [("B0", "A0", "r")],
        [("B0", "A0", "r"), ("C0", "B0", "a")],
        [("B0", "A0", "a"), ("C0", "A1", "r")],
        [("C0", "A0", "r"), ("C0", "A1", "a")],
        [("C0", "A0", "r"), ("C0", "B0", "r"), ("B0", "A0", "r")],
        [("A1", "B0", "r"), ("C0", "A0", "r")],
        [("A0", "B0", "r"), ("C0", "'A", "r"), ("C0", "'B", "a")],
        [("B0", "'A", "r"), ("B0", "A0", "a"), ("B0", "A1", "r"), ("B0", "'Z", "a")],
        [("A0", "C0", "a"), ("A1", "C0", "r"), ("B0", "A1", "r")],
        [("A0", "B0", "r"), ("A1", "C0", "r"), ("B0", "'C", "a")],
        [("A1", "B0", "a"), ("B0", "C0", "r"), ("C0", "'A", "r")],
    ]
    return base


def gen(tier):
    ops = ops_for(tier)
    depth = 4 if tier == "thorough" else 3
    # the first operations that fill the library; deeper search starts there too
    starts = [(), (("add", "one", ("A0",), False, False, True),),
              (("add", "list", ("A0", "B0"), False, False, True),
               ("add", "one", ("C0",), False, False, True)),
              (("add", "one", ("A1",), False, False, True),
               ("add", "gen", ("B0", "C0"), False, False, True))]
    for i, init in enumerate(inits(tier)):
        for st in starts:
            for lo in range(0, len(ops), 32):
                yield dict(init=init, start=st, depth=depth, first=(lo, lo + 32))


def run(case, rec):
    init = [tuple(x) for x in case["init"]]
    ops = ops_for(None)
    m = M()
    for o, t, k in init:
        m.refs[o].append((t, k))
    start = [tuple(tuple(y) if isinstance(y, list) else y for y in x) for x in case["start"]]
    for op in start:
        m, _ = step(m, op)
    lo, hi = case["first"]

    def real():
        r = R(init)
        for op in start:
            r.act(op)
        return r

    first = [True]

    def enabled(s):
        cand = ops[lo:hi] if first[0] else ops
        first[0] = False
        out = []
        if s.cyclic():  # dependencies of a cycle are not defined
            cand = [o for o in cand if o[0] != "add" or not o[3]]
        for o in cand:
            if o[0] == "add" and o[4]:
                full = set(o[2])
                if o[3]:
                    for x in o[2]:
                        full |= s.deps(x)
                if len({s.name[x] for x in full}) < len(full):
                    continue  # two cells of one name overwriting each other: unspecified
            out.append(o)
        return out

    bfs(rec, m, enabled, step, real, lambda r, o: r.act(o), check, canon, case["depth"],
        "init %r start %r" % (init, start))


def groups(tier):
    return [
        Group("histories", lambda: gen(tier), run,
              "12 reference structures x 4 starting libraries x all histories of depth %d over "
              "~190 operations" % (4 if tier == "thorough" else 3)),
    ]
