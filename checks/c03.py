"""C03: 8-byte reals, observed where they appear in streams (MAG and ANGLE of labels,
UNITS of libraries)."""
import io
import math
from datetime import datetime
from fractions import Fraction

from mc import gds, spec
from mc.engine import Group

TS = datetime(2000, 1, 1)
LO, HI = Fraction(16) ** -65, Fraction(16) ** 63


def mantissas():
    m = {0, (1 << 52) - 1}
    for i in range(52):
        m.add(1 << i)
        m.add((1 << 52) - (1 << i))
        m.add((1 << i) - 1)
    m |= {0x5555555555555, 0xAAAAAAAAAAAAA, 0x123456789ABCD, 0xEDCBA98765432}
    return sorted(m)


def chunks(seq, n=200):
    seq = list(seq)
    for i in range(0, len(seq), n):
        yield seq[i : i + n]


def gen_encode(tier):
    ms = mantissas()
    near = [m for m in ms if m < 64 or (1 << 52) - m < 64 or tier == "thorough"]
    out = []
    for e in range(-260, 252):
        core = e in range(-12, 13) or tier == "thorough"
        for m in ms if core else near:
            v = math.ldexp(1 + m / (1 << 52), e)
            out.append(v)
    for d in range(-75, 75):
        for k in (1, 2, 3, 5, 7, 9.999999999999998, 1.0000000000000002):
            v = k * 10.0 ** d
            if LO <= v < HI:
                out.append(v)
    for c in chunks(out):
        for sign in (1, -1):
            yield dict(v=[(sign * x).hex() for x in c])
    yield dict(v=[(0.0).hex(), (-0.0).hex()] * 2 + [float(i).hex() for i in range(-360, 361)])


def stream(values):
    import gdspy

    lib = gdspy.GdsLibrary("L")
    c = lib.new_cell("C")
    for v in values:
        c.add(gdspy.Label("t", (0, 0), rotation=v, magnification=v))
    f = io.BytesIO()
    lib.write_gds(f, timestamp=TS)
    return f.getvalue()


def run_encode(case, rec):
    import gdspy

    vals = [float.fromhex(x) for x in case["v"]]
    try:
        data = stream(vals)
    except Exception as e:
        return rec.fail("writing reals failed: %r" % e)
    raw = [(rt, p) for rt, dt, p, _ in gds.records(data) if rt in (gds.MAG, gds.ANGLE)]
    if not rec.expect(len(raw) == 2 * len(vals), "reals missing in the stream"):
        return
    rec.step(2 * len(vals))
    lib = gdspy.GdsLibrary("M")
    lib.read_gds(io.BytesIO(data))
    back = lib.cells["C"].labels
    for i, v in enumerate(vals):
        for rt, p in raw[2 * i : 2 * i + 2]:
            x = gds.real_decode(p)
            ulp = Fraction(16) ** ((p[0] & 0x7F) - 64) / (1 << 56)
            if v == 0:
                rec.expect(p == bytes(8), lambda: "zero written as %s" % p.hex())
                continue
            rec.expect(abs(x - Fraction(v)) <= 2 * ulp,
                       lambda: "%s written as %s" % (v.hex(), p.hex()))
            rec.expect(p[1] >= 16, lambda: "%s is not normalised: %s" % (v.hex(), p.hex()))
        rec.expect(back[i].rotation == v and back[i].magnification == v,
                   lambda: "%s is read back as %s, %s" % (
                       v.hex(), back[i].rotation, back[i].magnification))
    rec.state(raw)


def pats():
    p = {0, 1, (1 << 56) - 1, 0x10000000000000, 0x0FFFFFFFFFFFFF}
    for i in range(56):
        p.add(1 << i)
        p.add((1 << 56) - (1 << i))
        p.add((1 << i) - 1)
        p.add((1 << 55) | (1 << i))
        p.add((1 << 52) | (1 << i))
        p.add(0xFF << i & ((1 << 56) - 1))
    p |= {0x55555555555555, 0xAAAAAAAAAAAAAA, 0x41890374BC6A7F, 0x3E4189374BC6A8}
    return sorted(p)


def gen_decode(tier):
    for b in range(256):
        for c in chunks(pats(), 200):
            yield dict(b=b, m=c)


def run_decode(case, rec):
    import gdspy

    b = case["b"]
    els = []
    raws = [bytes([b]) + m.to_bytes(7, "big") for m in case["m"]]
    for r in raws:
        els.append(
            gds.rec(gds.TEXT) + gds.rec(gds.LAYER, [0]) + gds.rec(gds.TEXTTYPE, [0])
            + gds.rec(gds.PRESENTATION, 5) + gds.rec(gds.STRANS, 0)
            + b"\x00\x0c\x1b\x05" + r + b"\x00\x0c\x1c\x05" + r
            + gds.rec(gds.XY, [0, 0]) + gds.rec(gds.STRING, "t") + gds.rec(gds.ENDEL))
    data = gds.enc_lib("L", [Fraction(1, 1000), Fraction(1, 10**9)],
                       [gds.enc_cell("C", els)])
    lib = gdspy.GdsLibrary("M")
    lib.read_gds(io.BytesIO(data))
    rec.step(2 * len(els))
    labels = lib.cells["C"].labels
    if not rec.expect(len(labels) == len(raws), "labels missing"):
        return
    for r, l in zip(raws, labels):
        x = gds.real_decode(r)
        for got in (l.rotation, l.magnification):
            rec.expect(got == float(x), lambda: "%s read as %r, is %r" % (r.hex(), got, float(x)))
    # numbers that a double holds exactly are written with the same, normalised bytes
    same = [r for r in raws if Fraction(float(gds.real_decode(r))) == gds.real_decode(r)
            and r[1] >= 16]
    if same:
        data = stream([float(gds.real_decode(r)) for r in same])
        rec.step(len(same))
        raw = [p for rt, dt, p, _ in gds.records(data) if rt in (gds.MAG, gds.ANGLE)]
        for r, p, q in zip(same, raw[::2], raw[1::2]):
            rec.expect(p == r and q == r, lambda: "%s is rewritten as %s" % (r.hex(), p.hex()))
    rec.state((b, case["m"][0], [l.rotation for l in labels]))


def gen_units(tier):
    for e in range(-18, 3):
        for m in (1, 1.25, 2, 2.54, 5, 9.99):
            for r in (1e-3, 1e-4, 0.5e-3, 1, 1e-6, 1 / 3):
                yield dict(unit=m * 10.0 ** e, precision=m * 10.0 ** e * r)


def run_units(case, rec):
    import gdspy

    lib = gdspy.GdsLibrary("L", unit=case["unit"], precision=case["precision"])
    lib.new_cell("C")
    f = io.BytesIO()
    lib.write_gds(f, timestamp=TS)
    u = gds.parse(f.getvalue())["units"]
    rec.step(2)
    rec.expect(spec.close_real(u[1], case["precision"]), lambda: "precision %r" % float(u[1]))
    rec.expect(spec.close_real(u[0], case["precision"] / case["unit"]),
               lambda: "database unit in user units %r" % float(u[0]))
    lib2 = gdspy.GdsLibrary("M")
    lib2.read_gds(io.BytesIO(f.getvalue()), units="import")
    rec.expect(spec.close_real(lib2.precision, case["precision"]), "precision read")
    rec.expect(spec.close_real(lib2.unit, case["unit"], Fraction(1, 1 << 50)), "unit read")
    got = gdspy.get_gds_units(io.BytesIO(f.getvalue()))
    rec.expect(spec.close_real(got[0], case["unit"], Fraction(1, 1 << 50))
               and spec.close_real(got[1], case["precision"]), lambda: "get_gds_units %r" % (got,))
    rec.state((lib2.unit, lib2.precision))


def groups(tier):
    return [
        Group("encode", lambda: gen_encode(tier), run_encode,
              "binary exponents -260..251 x mantissa patterns x signs; decimals"),
        Group("decode", lambda: gen_decode(tier), run_decode,
              "all 256 sign/exponent bytes x ~300 mantissa patterns"),
        Group("units", lambda: gen_units(tier), run_units,
              "126 units x 6 precision ratios"),
    ]
