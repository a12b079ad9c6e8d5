"""Independent GDSII stream codec (strict grammar), written from the format
specification; shares no code with gdspy."""
import struct
from fractions import Fraction

(HEADER, BGNLIB, LIBNAME, UNITS, ENDLIB, BGNSTR, STRNAME, ENDSTR, BOUNDARY, PATH, SREF,
 AREF, TEXT, LAYER, DATATYPE, WIDTH, XY, ENDEL, SNAME, COLROW) = range(0x14)
NODE = 0x15
TEXTTYPE = 0x16
PRESENTATION = 0x17
STRING = 0x19
STRANS = 0x1A
MAG = 0x1B
ANGLE = 0x1C
REFLIBS = 0x1F
FONTS = 0x20
PATHTYPE = 0x21
GENERATIONS = 0x22
ATTRTABLE = 0x23
ELFLAGS = 0x26
NODETYPE = 0x2A
PROPATTR = 0x2B
PROPVALUE = 0x2C
BOX = 0x2D
BOXTYPE = 0x2E
PLEX = 0x2F
BGNEXTN = 0x30
ENDEXTN = 0x31
STRCLASS = 0x34
FORMAT = 0x36

# record type -> data type mandated by the format
DTYPE = {
    HEADER: 2, BGNLIB: 2, LIBNAME: 6, UNITS: 5, ENDLIB: 0, BGNSTR: 2, STRNAME: 6,
    ENDSTR: 0, BOUNDARY: 0, PATH: 0, SREF: 0, AREF: 0, TEXT: 0, LAYER: 2, DATATYPE: 2,
    WIDTH: 3, XY: 3, ENDEL: 0, SNAME: 6, COLROW: 2, NODE: 0, TEXTTYPE: 2,
    PRESENTATION: 1, STRING: 6, STRANS: 1, MAG: 5, ANGLE: 5, REFLIBS: 6, FONTS: 6,
    PATHTYPE: 2, GENERATIONS: 2, ATTRTABLE: 6, ELFLAGS: 1, NODETYPE: 2, PROPATTR: 2,
    PROPVALUE: 6, BOX: 0, BOXTYPE: 2, PLEX: 3, BGNEXTN: 3, ENDEXTN: 3, STRCLASS: 1,
    FORMAT: 2,
}


class Bad(Exception):
    pass


def real_decode(b):
    """Exact value of a GDSII 8-byte real."""
    sign = -1 if b[0] & 0x80 else 1
    exp = (b[0] & 0x7F) - 64
    man = int.from_bytes(b[1:8], "big")
    return sign * Fraction(man, 1 << 56) * (Fraction(16) ** exp)


def real_encode(v):
    """Correctly rounded, normalised encoding of a rational."""
    v = Fraction(v)
    if v == 0:
        return bytes(8)
    s = 0x80 if v < 0 else 0
    v = abs(v)
    e = 0
    while v >= 1:
        v /= 16
        e += 1
    while v < Fraction(1, 16):
        v *= 16
        e -= 1
    m = round(v * (1 << 56))
    if m == 1 << 56:
        m >>= 4
        e += 1
    return bytes([s | (e + 64)]) + m.to_bytes(7, "big")


def records(data, padded=False):
    """Strict tokenizer: [(rectype, datatype, payload, offset)]."""
    out = []
    pos = 0
    while pos < len(data):
        if padded and not any(data[pos:]):
            break
        if len(data) - pos < 4:
            raise Bad("trailing %d bytes" % (len(data) - pos))
        size, rt, dt = struct.unpack(">HBB", data[pos : pos + 4])
        if size < 4 or size % 2:
            raise Bad("record length %d at %d" % (size, pos))
        if pos + size > len(data):
            raise Bad("record at %d runs past the end" % pos)
        if rt not in DTYPE:
            raise Bad("record type %02x at %d" % (rt, pos))
        if DTYPE[rt] != dt:
            raise Bad("record %02x has data type %d at %d" % (rt, dt, pos))
        out.append((rt, dt, data[pos + 4 : pos + size], pos))
        pos += size
        if rt == ENDLIB and not padded and pos != len(data):
            raise Bad("data after ENDLIB")
    return out


def value(rt, dt, p):
    if dt == 0:
        if p:
            raise Bad("payload in no-data record %02x" % rt)
        return None
    if dt == 1:
        if len(p) != 2:
            raise Bad("bit array length")
        return struct.unpack(">H", p)[0]
    if dt == 2:
        return list(struct.unpack(">%dh" % (len(p) // 2), p))
    if dt == 3:
        if len(p) % 4:
            raise Bad("int4 length")
        return list(struct.unpack(">%dl" % (len(p) // 4), p))
    if dt == 5:
        if len(p) % 8:
            raise Bad("real8 length")
        return [real_decode(p[i : i + 8]) for i in range(0, len(p), 8)]
    if dt == 6:
        if p[-1:] == b"\0":
            p = p[:-1]
        if b"\0" in p:
            raise Bad("embedded NUL in string %r" % p)
        return p.decode("ascii")
    raise Bad("data type %d" % dt)


class _P:
    def __init__(self, recs):
        self.r, self.i = recs, 0

    def peek(self):
        return self.r[self.i][0] if self.i < len(self.r) else None

    def take(self, rt, n=None):
        if self.peek() != rt:
            raise Bad("expected record %02x, found %r (record #%d)" % (
                rt, self.peek(), self.i))
        t, dt, p, _ = self.r[self.i]
        self.i += 1
        v = value(t, dt, p)
        if n is not None and len(v) != n:
            raise Bad("record %02x has %d values, expected %d" % (rt, len(v), n))
        return v

    def opt(self, rt, n=None):
        return self.take(rt, n) if self.peek() == rt else None


def parse(data, padded=False):
    """Parse a stream with the format's own grammar into plain dictionaries."""
    p = _P(records(data, padded))
    lib = {"version": p.take(HEADER, 1)[0], "date": p.take(BGNLIB, 12)}
    lib["name"] = p.take(LIBNAME)
    for rt in (REFLIBS, FONTS, ATTRTABLE, GENERATIONS, FORMAT):
        p.opt(rt)
    lib["units"] = p.take(UNITS, 2)
    lib["cells"] = []
    while p.peek() == BGNSTR:
        lib["cells"].append(_structure(p))
    p.take(ENDLIB)
    if p.i != len(p.r):
        raise Bad("records after ENDLIB")
    return lib


def parse_cell(data):
    p = _P(records(data))
    c = _structure(p)
    if p.i != len(p.r):
        raise Bad("records after ENDSTR")
    return c


def _structure(p):
    c = {"date": p.take(BGNSTR, 12), "name": p.take(STRNAME), "elements": []}
    if p.peek() == STRCLASS:
        p.take(STRCLASS)
    while p.peek() in (BOUNDARY, PATH, SREF, AREF, TEXT, NODE, BOX):
        c["elements"].append(_element(p))
    p.take(ENDSTR)
    return c


def _strans(p, e):
    e["strans"] = p.opt(STRANS)
    e["mag"] = e["angle"] = None
    if e["strans"] is not None:
        m = p.opt(MAG, 1)
        a = p.opt(ANGLE, 1)
        e["mag"] = m[0] if m else None
        e["angle"] = a[0] if a else None


def _xy(p, lo=None, exact=None):
    xy = list(p.take(XY))
    while p.peek() == XY:
        xy += p.take(XY)
    if len(xy) % 2 or not xy:
        raise Bad("XY length %d" % len(xy))
    pts = [(xy[i], xy[i + 1]) for i in range(0, len(xy), 2)]
    if exact is not None and len(pts) != exact:
        raise Bad("XY has %d points, expected %d" % (len(pts), exact))
    if lo is not None and len(pts) < lo:
        raise Bad("XY has %d points, expected at least %d" % (len(pts), lo))
    return pts


def _element(p):
    k = p.peek()
    p.take(k)
    e = {"kind": k}
    e["elflags"] = p.opt(ELFLAGS)
    e["plex"] = p.opt(PLEX)
    if k == BOUNDARY:
        e["layer"] = p.take(LAYER, 1)[0]
        e["type"] = p.take(DATATYPE, 1)[0]
        e["xy"] = _xy(p, 4)
        if e["xy"][0] != e["xy"][-1]:
            raise Bad("boundary is not closed")
    elif k == PATH:
        e["layer"] = p.take(LAYER, 1)[0]
        e["type"] = p.take(DATATYPE, 1)[0]
        v = p.opt(PATHTYPE, 1)
        e["pathtype"] = v[0] if v else None
        for n, rt in (("width", WIDTH), ("bgnextn", BGNEXTN), ("endextn", ENDEXTN)):
            v = p.opt(rt, 1)
            e[n] = v[0] if v else None
        e["xy"] = _xy(p, 2)
    elif k in (SREF, AREF):
        e["sname"] = p.take(SNAME)
        _strans(p, e)
        if k == AREF:
            e["colrow"] = tuple(p.take(COLROW, 2))
        e["xy"] = _xy(p, exact=1 if k == SREF else 3)
    elif k == TEXT:
        e["layer"] = p.take(LAYER, 1)[0]
        e["type"] = p.take(TEXTTYPE, 1)[0]
        e["presentation"] = p.opt(PRESENTATION)
        v = p.opt(PATHTYPE, 1)
        e["pathtype"] = v[0] if v else None
        v = p.opt(WIDTH, 1)
        e["width"] = v[0] if v else None
        _strans(p, e)
        e["xy"] = _xy(p, exact=1)
        e["string"] = p.take(STRING)
    elif k == NODE:
        e["layer"] = p.take(LAYER, 1)[0]
        e["type"] = p.take(NODETYPE, 1)[0]
        e["xy"] = _xy(p)
    elif k == BOX:
        e["layer"] = p.take(LAYER, 1)[0]
        e["type"] = p.take(BOXTYPE, 1)[0]
        e["xy"] = _xy(p, exact=5)
    props = []
    while p.peek() == PROPATTR:
        a = p.take(PROPATTR, 1)[0]
        props.append((a, p.take(PROPVALUE)))
    e["props"] = props
    p.take(ENDEL)
    return e


# ------------------------------------------------------------------ encoding
def rec(rt, v=None):
    dt = DTYPE[rt]
    if dt == 0:
        b = b""
    elif dt == 1:
        b = struct.pack(">H", v)
    elif dt == 2:
        b = struct.pack(">%dh" % len(v), *v)
    elif dt == 3:
        b = struct.pack(">%dl" % len(v), *v)
    elif dt == 5:
        b = b"".join(real_encode(x) for x in v)
    else:
        b = v.encode("ascii")
        if len(b) % 2:
            b += b"\0"
    return struct.pack(">HBB", 4 + len(b), rt, dt) + b


DATE = [2001, 2, 3, 4, 5, 6, 2001, 2, 3, 4, 5, 6]


def enc_lib(name, units, cells, extra=b"", date=DATE):
    """units = (db in user units, db in metres); cells = encoded structures."""
    return (
        rec(HEADER, [600]) + rec(BGNLIB, date) + rec(LIBNAME, name) + extra
        + rec(UNITS, units) + b"".join(cells) + rec(ENDLIB)
    )


def enc_cell(name, elements, date=DATE, strclass=None):
    return (
        rec(BGNSTR, date) + rec(STRNAME, name)
        + (rec(STRCLASS, strclass) if strclass is not None else b"")
        + b"".join(enc_el(e) if isinstance(e, dict) else e for e in elements)
        + rec(ENDSTR)
    )


def enc_el(e):
    k = e["kind"]
    b = rec(k)
    if e.get("elflags") is not None:
        b += rec(ELFLAGS, e["elflags"])
    if e.get("plex") is not None:
        b += rec(PLEX, [e["plex"]])
    if k in (SREF, AREF):
        b += rec(SNAME, e["sname"])
        b += _enc_strans(e)
        if k == AREF:
            b += rec(COLROW, list(e["colrow"]))
    else:
        b += rec(LAYER, [e["layer"]])
        b += rec({BOUNDARY: DATATYPE, PATH: DATATYPE, TEXT: TEXTTYPE, NODE: NODETYPE,
                  BOX: BOXTYPE}[k], [e["type"]])
        if e.get("presentation") is not None:
            b += rec(PRESENTATION, e["presentation"])
        for n, rt in (("pathtype", PATHTYPE), ("width", WIDTH), ("bgnextn", BGNEXTN),
                      ("endextn", ENDEXTN)):
            if e.get(n) is not None:
                b += rec(rt, [e[n]])
        if k == TEXT:
            b += _enc_strans(e)
    xy = [c for pt in e["xy"] for c in pt]
    step = e.get("xychunk", len(xy))
    for i in range(0, len(xy), step):
        b += rec(XY, xy[i : i + step])
    if k == TEXT:
        b += rec(STRING, e["string"])
    for a, v in e.get("props", ()):
        b += rec(PROPATTR, [a]) + rec(PROPVALUE, v)
    return b + rec(ENDEL)


def _enc_strans(e):
    b = b""
    if e.get("strans") is not None:
        b += rec(STRANS, e["strans"])
        if e.get("mag") is not None:
            b += rec(MAG, [e["mag"]])
        if e.get("angle") is not None:
            b += rec(ANGLE, [e["angle"]])
    return b
