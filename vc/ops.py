"""Bounded differential runs for the parts of the library that are not `parse one structure' calls: the bit reader and writer,
framing, streams, checksum, classification tables.  Each task compares the real code (sanitizer build) with an oracle written
from the property; labelled bounded, never counted as proved."""
import os, random, time, re, json
import bounded, driver, conc
from conc import *

M64 = (1 << 64) - 1


def run(cases, timeout=200, B=None, per_case=10):
    """cases: [(line, judge(out) -> None | str)]"""
    B = B or bounded.Bounded(); exe = B.build()
    lines = [c[0] for c in cases]
    res = driver.run_cases(exe, lines, timeout=timeout, per_case=per_case)
    viol = []; n = 0; seen = set()
    for (l, j), r in zip(cases, res):
        if r.out is None and not r.crash: continue
        n += 1
        if r.crash: d = "the call does not return: " + r.crash
        elif "unknown" in r.out or "bad" in r.out: continue
        else:
            d = j(r.out)
            if not d and r.ub: d = "undefined behaviour: " + r.ub
        if d:
            k = re.sub(r"\d+", "#", d)
            if k in seen: continue
            seen.add(k); viol.append(dict(what=d, driver_line=l))
    return dict(violations=viol, undecided=[] if n >= len(lines) * 0.9 else ["only %d of %d cases ran" % (n, len(lines))], obligations=0, discharged=0, cases=n, distinct=len(set(lines)),
                tq=0, modelled=[], called=[], samples=lines[:2])


def hx(b): return b.hex() or "-"


# ------------------------------------------------------------------ bit reader and writer
class Bits:
    def __init__(self, data, pos): self.d = bytearray(data); self.pos = pos; self.tot = len(data) * 8
    def get(self, n, pos=None):
        v = int.from_bytes(self.d, "big"); pos = self.pos if pos is None else pos
        return (v >> (self.tot - pos - n)) & ((1 << n) - 1) if n else 0
    def put(self, v, n):
        if n > self.tot - self.pos: return False
        x = int.from_bytes(self.d, "big"); sh = self.tot - self.pos - n; m = ((1 << n) - 1) << sh
        x = (x & ~m) | ((v & ((1 << n) - 1)) << sh)
        self.d[:] = x.to_bytes(len(self.d), "big"); self.pos += n; return True
    def rd(self, n, w):
        if n > self.tot - self.pos or n > w: return 0, None
        v = self.get(n); self.pos += n; return 1, v
    def ue(self):
        p = self.pos; z = 0
        while p < self.tot and self.get(1, p) == 0: p += 1; z += 1
        if z > 31 or p + z + 1 > self.tot: return 0, None
        v = self.get(z + 1, p) - 1; self.pos = p + z + 1; return 1, v
    def ns(self, n):
        w = n.bit_length(); m = (1 << w) - n
        save = self.pos
        ok, v = self.rd(w - 1, 32)
        if not ok: return 0, None
        if v < m: return 1, v
        ok, x = self.rd(1, 32)
        if not ok: self.pos = None; return 0, None        # position after a half-read code is not specified
        return 1, 2 * v + x - m
    def more(self):
        r = self.tot - self.pos
        if r == 0: return 0
        if r > 8: return 1
        return int(self.get(r) != 1 << (r - 1))
    def trail(self):
        n = 8 - self.pos % 8
        if self.tot - self.pos < n: return None
        return int(self.get(n) == 1 << (n - 1)), n

    def step(self, op):
        """(ok, value or None, stop): expected answer"""
        a = op.split(":"); n = a[0]; x = int(a[1]) if len(a) > 1 else 0; y = int(a[2]) if len(a) > 2 else 0
        if n == "r": return self.rd(x, 32)
        if n == "R": return self.rd(x, 64)
        if n in "pP":
            s = self.pos; r = self.rd(x, 32 if n == "p" else 64); self.pos = s; return r
        if n in ("u8", "u16", "u32"): return self.rd(int(n[1:]), 32)
        if n == "ue": return self.ue()
        if n == "se":
            ok, v = self.ue(); return (ok, v if v is None else ((v + 1) // 2 if v & 1 else -(v // 2)))
        if n == "ns": return self.ns(x)
        if n == "c":
            if x > self.tot - self.pos: return 0, None
            self.pos += x; return 1, None
        if n == "C":
            if 8 * x > self.tot - self.pos: return 0, None
            self.pos += 8 * x; return 1, None
        if n == "s":
            if y > 7 or 8 * x + y > self.tot: return 0, None
            self.pos = 8 * x + y; return 1, None
        if n == "rem": return 1, self.tot - self.pos
        if n == "b":
            if 8 * x > self.tot - self.pos: self.pos = None; return 0, None
            o = bytes(self.get(8, self.pos + 8 * i) for i in range(x)); self.pos += 8 * x; return 1, o.hex()
        if n == "more": return 1, self.more()
        if n == "trail":
            t = self.trail()
            if t is None or not t[0]: self.pos = None; return 0, None
            self.pos += t[1]; return 1, None
        if n == "ali": return 1, int(self.pos % 8 == 0)
        if n == "off": return 1, (self.pos + 7) // 8
        if n == "sum":
            d = bytes(self.d[self.pos // 8:]); d += b"\0" * (-len(d) % 4)
            s = sum(int.from_bytes(d[i:i + 4], "big") for i in range(0, len(d), 4))
            while s >> 32: s = (s >> 32) + (s & 0xffffffff)
            h = (~s & 0xffffffff).to_bytes(4, "big").hex(); return 1, h + "|" + h + "|" + h
        if n == "w": return int(self.put(x, y)), None
        if n in ("w8", "w16", "w32"): return int(self.put(x, int(n[1:]))), None
        if n in ("wue", "wse"):
            if n == "wse":
                if x == -(1 << 31): return 0, None
                x = 2 * x - 1 if x > 0 else -2 * x
            if x == 0xffffffff: return 0, None
            return int(self.put(x + 1, 2 * (x + 1).bit_length() - 1)), None
        if n in ("wns", "nsz"):
            w = y.bit_length(); m = (1 << w) - y
            v, k = (x, w - 1) if x < m else (x + m, w)
            return (1, k) if n == "nsz" else (int(self.put(v, k)), None)
        raise ValueError(op)


def ops_case(kind, data, start, ops):
    """expected answers; cut where the position becomes unspecified"""
    b = Bits(data, start); exp = []
    for i, o in enumerate(ops):
        ok, v = b.step(o); exp.append((ok, v, b.pos))
        if b.pos is None: ops = ops[:i + 1]; break
    line = "%s %s %d %s" % (kind, hx(data), start, " ".join(ops))
    fin = bytes(b.d).hex()
    def judge(out):
        if "noseek" in out: return "seeking to bit %d of %d failed" % (start, len(data) * 8)
        for o, (ok, v, p), g in zip(ops, exp, out["r"]):
            if g[0] != ok: return "%s at bit %s: expected %s, got %s" % (o, p if not ok else "", "success" if ok else "failure", "success" if g[0] else "failure")
            if ok and v is not None and str(g[1]) != str(v): return "%s: expected value %s, got %s" % (o, v, g[1])
            if p is not None and g[2] != p: return "%s: expected position %d, got %d" % (o, p, g[2])
        if len(out["r"]) != len(ops): return "missing answers"
        if out["buf"] != fin: return "buffer contents: expected %s, got %s" % (fin, out["buf"])
        return None
    return line, judge


def rdata(r, n, x=None):
    x = r.random() if x is None else x
    if x < 0.4: return bytes(r.getrandbits(8) for _ in range(n))
    if x < 0.6: return bytes(r.choice((0, 0, 0, 1, 0x80, 0xff)) for _ in range(n))
    if x < 0.8: return bytes(r.getrandbits(8) & r.getrandbits(8) & r.getrandbits(8) for _ in range(n))
    return bytes([r.choice((0, 0xff))] * n)


BIG = [2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 61, 2 ** 61 - 1, 2 ** 61 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 8]


def n_(tier, q): return q if tier == "quick" else 30 * q


def bit_reads(tier="quick", seed=1):
    r = random.Random(seed); cases = []
    for _ in range(n_(tier, 3000)):
        data = rdata(r, r.choice((0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 20))); tot = len(data) * 8
        start = r.randrange(tot + 1); ops = []; 
        for _ in range(r.randrange(1, 12)):
            x = r.random()
            if x < 0.5: ops.append("%s:%d" % (r.choice("rRpP"), r.choice((1, 2, 3, 7, 8, 9, 16, 24, 31, 32, 33, 40, 56, 57, 63, 64, 65, r.randrange(1, 70), r.choice(BIG)))))
            elif x < 0.6: ops.append(r.choice(("u8", "u16", "u32")))
            elif x < 0.7: ops.append("c:%d" % r.choice((0, 1, 7, 8, 9, 17, 64, r.randrange(70), r.choice(BIG))))
            elif x < 0.77: ops.append("C:%d" % r.choice((0, 1, 2, 3, 8, r.choice(BIG))))
            elif x < 0.85: ops.append("s:%d:%d" % (r.choice((r.randrange(len(data) + 2), r.choice(BIG))), r.choice((0, 0, 1, 7, 8, r.randrange(9)))))
            elif x < 0.9: ops.append("b:%d" % r.choice((0, 1, 2, 3, 5, len(data), len(data) + 1)))
            else: ops.append("rem")
        ops.append("rem"); cases.append(ops_case("ops", data, start, ops))
    return run(cases)


def golomb(tier="quick", seed=1):
    r = random.Random(seed); cases = []
    for _ in range(n_(tier, 4000)):
        v = 0; nb = 0
        start = r.randrange(9); v = r.getrandbits(9) >> (9 - start) if start else 0; nb = start; ops = []
        for _ in range(r.randrange(1, 6)):
            z = r.choice((0, 0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 29, 30, 31, 31, 32, 33, 40, 63, 64, 70)); t = r.choice((r.getrandbits(z) if z else 0, 0, (1 << z) - 1))
            v = (v << (2 * z + 1)) | (1 << z) | t; nb += 2 * z + 1; ops.append(r.choice(("ue", "se")))
            if z > 31 and r.random() < 0.5: ops.append("rem")
        if r.random() < 0.35: k = r.randrange(1, 40); v >>= min(k, max(nb - start, 0)); nb -= min(k, max(nb - start, 0))
        if r.random() < 0.3: k = r.randrange(60); v <<= k; nb += k
        pad = -nb % 8; v = (v << pad) | (r.getrandbits(pad) if pad and r.random() < 0.5 else 0); nb += pad
        ops.append("rem"); cases.append(ops_case("ops", v.to_bytes(nb // 8, "big"), start, ops))
    for _ in range(n_(tier, 1500)):      # non-symmetric codes of every number of values
        data = rdata(r, r.choice((1, 2, 4, 5, 9, 12))); start = r.randrange(len(data) * 8 + 1)
        ops = ["ns:%d" % r.choice((r.choice(NSV), r.randrange(1, 40), r.randrange(1, 1 << r.randrange(1, 32)))) for _ in range(r.randrange(1, 5))]
        cases.append(ops_case("ops", data, start, ops + ["rem"]))
    return run(cases)


NSV = [1, 2, 3, 4, 5, 7, 8, 9, 255, 256, 257, 65535, 65536, 2 ** 30 - 1, 2 ** 30, 2 ** 30 + 1, 2 ** 31 - 1, 2 ** 31]


def bit_writes(tier="quick", seed=1):
    r = random.Random(seed); cases = []
    for _ in range(n_(tier, 4000)):
        data = rdata(r, r.choice((1, 2, 3, 5, 8, 9, 12, 20, 30))); tot = len(data) * 8; start = r.randrange(tot + 1)
        b = Bits(data, start); ops = []
        for _ in range(r.randrange(1, 8)):
            x = r.random(); k = None
            if x < 0.4:
                n = r.choice((0, 1, 2, 7, 8, 9, 16, 31, 32, 33, 56, 57, 63, 64, r.randrange(65))); val = r.choice((r.getrandbits(n), r.getrandbits(64), 0, M64)); ops.append("w:%d:%d" % (val, n)); k = n
                if 0 < n: rb = "R:%d" % n
                else: rb = None
            elif x < 0.5: n = r.choice((8, 16, 32)); ops.append("w%d:%d" % (n, r.getrandbits(n))); rb = "u%d" % n
            elif x < 0.7: ops.append("wue:%d" % r.choice((0, 1, 2, 3, 2 ** 32 - 1, 2 ** 32 - 2, 2 ** 31 - 1, 2 ** 31, 254, 255, 256, 65534, r.getrandbits(r.randrange(1, 33))))); rb = "ue"
            elif x < 0.85: ops.append("wse:%d" % r.choice((0, 1, -1, 2, -2, 2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1, r.getrandbits(r.randrange(1, 32)), -r.getrandbits(r.randrange(1, 32))))); rb = "se"
            else:
                n = r.choice(NSV + [r.randrange(1, 2 ** 31)]); val = r.choice((0, n - 1, n // 2, r.randrange(n))); ops.append("wns:%d:%d" % (val, n)); rb = "ns:%d" % n
                if r.random() < 0.3: ops.append("nsz:%d:%d" % (val, n)); continue
            p = b.pos; ok, _v = b.step(ops[-1])
            if ok and rb and r.random() < 0.8:
                ops += ["s:%d:%d" % (p // 8, p % 8), rb]; b.pos = p; b.step(rb)
        cases.append(ops_case("wops", data, start, ops))
    for _ in range(n_(tier, 500)):
        data = rdata(r, r.choice((1, 2, 4, 5, 9))); n = r.choice(NSV + [r.randrange(1, 2 ** 31)])
        cases.append(ops_case("ops", data, r.randrange(len(data) * 8 + 1), ["ns:%d" % n] * r.randrange(1, 4)))
    return run(cases)


def payload_end(tier="quick", seed=1):
    r = random.Random(seed); cases = []
    for L in (0, 1, 2, 3):
        for start in range(8 * L + 1):
            left = 8 * L - start
            vals = range(1 << left) if left <= 9 else [r.getrandbits(left) for _ in range(30)] + [1 << (left - 1), 1, 0, 1 << 7, 1 << 8]
            for v in vals:
                pre = r.getrandbits(start) if start else 0
                data = ((pre << left) | v).to_bytes(L, "big")
                cases.append(ops_case("ops", data, start, ["ali", "off", "more", "rem", "trail", "ali", "rem"]))
    return run(cases)


def checksum(tier="quick", seed=1):
    r = random.Random(seed); cases = []
    for _ in range(n_(tier, 2000)):
        data = rdata(r, r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 31, 32, 33, 64, 100, 200)))
        start = 8 * r.choice((0, 0, 0, 1, 2, len(data))) ; start = min(start, 8 * len(data))
        cases.append(ops_case("ops", data, start, ["sum", "rem"]))
    for _ in range(n_(tier, 400)):     # words whose folded sum carries once more, or just not
        ws = [r.choice((r.getrandbits(32), 0xffffffff, 0xfffffffe, 0x80000000)) for _ in range(r.choice((1, 2, 2, 3, 5, 9)))]
        hi = sum(ws) >> 32; lo = (1 << 32) - r.choice((0, 1, 1, 2, 3, hi, hi + 1, max(hi - 1, 0)))
        ws.insert(r.randrange(len(ws) + 1), (lo - sum(ws)) & 0xffffffff)
        cases.append(ops_case("ops", b"".join(w.to_bytes(4, "big") for w in ws) + (r.choice((b"", b"", b"\x00", b"\x01\xff"))), 0, ["sum", "rem"]))
    for k in (1 << 14, 1 << 16):       # carries out of the low word several times
        cases.append(ops_case("ops", b"\xff" * (4 * k + 3), 0, ["sum", "rem"])); cases.append(ops_case("ops", b"\xff\xff\xff\xfe" * k, 0, ["sum", "rem"]))
    return run(cases)


# ------------------------------------------------------------------ emulation prevention and framing
def unesc(d):
    out = bytearray(); z = 0
    for c in d:
        if z >= 2 and c == 3: z = 0; continue
        out.append(c); z = z + 1 if c == 0 else 0
    return bytes(out)


def esc(d):
    out = bytearray(); z = 0
    for c in d:
        if z >= 2 and c <= 3: out.append(3); z = 0
        out.append(c); z = z + 1 if c == 0 else 0
    return bytes(out)


def small(r, n, al=(0, 0, 0, 1, 2, 3, 3, 4, 0xff)): return bytes(r.choice(al) for _ in range(n))


def eq(key, exp, what):
    def judge(out):
        if out.get(key) != exp: return "%s: expected %s, got %s" % (what, str(exp)[:300], str(out.get(key))[:300])
    return judge


def unescape(tier="quick", seed=1):
    r = random.Random(seed); cases = []
    import itertools
    for n in range(0, 7):
        for t in itertools.product((0, 3, 1), repeat=n):
            d = bytes(t); cases.append(("unescape " + hx(d), eq("r", unesc(d).hex(), "unescaped bytes")))
    for _ in range(n_(tier, 3000)):
        d = small(r, r.randrange(60)) if r.random() < 0.7 else rdata(r, r.randrange(300)); cases.append(("unescape " + hx(d), eq("r", unesc(d).hex(), "unescaped bytes")))
        if r.random() < 0.3: cases.append(("unescape " + hx(esc(d)), eq("r", d.hex(), "unescaping an escaped payload")))
    return run(cases)


def annexb(d):
    ps = [i for i in range(len(d) - 2) if d[i] == 0 and d[i + 1] == 0 and d[i + 2] == 1]
    st = [p - 1 if p > 0 and d[p - 1] == 0 else p for p in ps] + [len(d)]
    return [[st[k], p + 3, st[k + 1] - p - 3] for k, p in enumerate(ps)]


def split_annexb(tier="quick", seed=1):
    r = random.Random(seed); cases = []
    import itertools
    for n in range(0, 9):
        for t in itertools.product((0, 1) if n > 6 else (0, 1, 2), repeat=n):
            d = bytes(t); cases.append(("find " + hx(d), eq("r", annexb(d), "entries")))
    for _ in range(n_(tier, 3000)):
        d = small(r, r.randrange(80), (0, 0, 0, 1, 1, 2, 3)) if r.random() < 0.8 else rdata(r, r.randrange(300)); cases.append(("find " + hx(d), eq("r", annexb(d), "entries")))
    return run(cases)


def framed(d, nb=4):
    i = 0; out = []
    while i < len(d):
        if i + nb > len(d): break
        n = int.from_bytes(d[i:i + nb], "big")
        if n > len(d) - i - nb: break
        out.append([i, i + nb, n]); i += nb + n
    return out


def length_framing(tier="quick", seed=1):
    r = random.Random(seed); cases = []; B = bounded.Bounded(seed=seed)
    for _ in range(n_(tier, 2500)):
        d = b""
        for _ in range(r.randrange(6)):
            p = rdata(r, r.choice((0, 1, 2, 5, 30))); k = len(p)
            if r.random() < 0.1: k = r.choice((0, k + 1, 2 ** 32 - 1, 2 ** 31, 2 ** 24))
            d += k.to_bytes(4, "big") + p
        if r.random() < 0.3: d = d[:r.randrange(len(d) + 1)]
        cases.append(("findx " + hx(d), eq("r", framed(d), "entries")))
    # whole parses: NAL units behind 1/2/4/8-byte lengths
    for _ in range(n_(tier, 500)):
        nb = r.choice((0, 1, 2, 2, 4, 4, 8)); op = r.randrange(32); d = b""; parts = []
        for _ in range(r.choice((1, 1, 2, 3, 4))):
            p = gen_unit(B); k = len(p)
            if nb and k >= 1 << (8 * nb): continue
            x = r.random()
            if x < 0.06: k = r.choice((0, k + 1, (1 << (8 * nb)) - 1 if nb else 0, max(k - 1, 0)))
            elif x < 0.16 and nb > 1: k += r.choice((1, 1, 2, 255)) << (8 * r.choice(range(1, nb)))        # low-order bytes that fit
            d += (k & ((1 << (8 * nb)) - 1)).to_bytes(nb, "big") + p if nb else p
            if not nb: break
        if r.random() < 0.2 and d: d = d[:r.randrange(len(d))]
        cases.append(stream_case(B, d, op, nb))
    return run([c for c in cases if c], B=B)


# ------------------------------------------------------------------ NAL units in streams
NUT = "h265nal::H265BitstreamParserState"


def empty_world(B): return Obj(NUT, {n: {} for n, t in B.T.fields[NUT]})


def gen_unit(B, world=None, hints=None):
    """an escaped NAL unit (sometimes damaged)"""
    r = B.rnd
    for _ in range(100):
        w = world if world is not None else empty_world(B)
        g, start, ok = B.gen_stream("nal_unit", dict(bps=w, options=0), hints, 0)
        if g is None: continue
        if not ok and r.random() < 0.7: continue
        d = g.bytes()
        x = r.random()
        if x < 0.1: d = d[:r.randrange(len(d) + 1)]
        elif x < 0.15 and d: k = r.randrange(len(d)); d = d[:k] + bytes([d[k] ^ (1 << r.randrange(8))]) + d[k + 1:]
        elif x < 0.4: d += bytes(r.getrandbits(8) for _ in range(r.choice((1, 3))))
        return esc(d) if r.random() < 0.95 else d
    return b"\x46\x01\x50"


def opts(op): return sum(((op >> k) & 1) << (8 * k) for k in range(5))


def parse_units(B, units, world, op):
    """units: [(offset, bytes)] -> expected unit states (rejected ones dropped); world updated"""
    out = []
    for off, d in units:
        try: o = B.I.run("nal_unit", conc.Stream(unesc(d)), dict(bps=world, options=opts(op)))
        except Reject: continue
        o.d["offset"] = off; o.d["length"] = len(d); out.append(o)
    return out


def qp_of(o, world):
    t = o.d["nal_unit_header"].d["nal_unit_type"]; p = o.d["nal_unit_payload"]
    return qp_of_payload(t, p, world)


def qp_of_payload(t, p, world):
    if not (t <= 9 or 16 <= t <= 21) or p is None or p.d.get("slice_segment_layer") is None: return None
    h = p.d["slice_segment_layer"].d["slice_segment_header"]
    if h is None: return None
    pps = world.d["pps"].get(h.d["slice_pic_parameter_set_id"])
    if pps is None: return None
    v = (26 + pps.d["init_qp_minus26"] + h.d["slice_qp_delta"]) & 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def stream_case(B, d, op, nb=None):
    w = empty_world(B); exp = []; qp = []
    if nb is None: units = [(p, d[p:p + n]) for s, p, n in annexb(d)]
    elif nb == 0: units = [(0, d)] if d else []
    else:
        units = []
        for s, p, n in framed(d, nb):
            if n == 0: break
            units.append((p, d[p:p + n]))
    try:
        for u in units:
            o = parse_units(B, [u], w, op); exp += o
            for x in o:
                q = qp_of(x, w)
                if q is not None: qp.append(q)
    except TooBig: return None
    line = "stream %s %d" % (hx(d), op) if nb is None else "lstream %s %d %d" % (hx(d), nb, op)
    def judge(out):
        got = out["r"]
        if len(got) != len(exp): return "number of units: expected %d, got %d" % (len(exp), len(got))
        for i, (e, g) in enumerate(zip(exp, got)):
            x = conc.diff(e, g)
            if x: return "unit %d: %s" % (i, x)
        if not out["same"]: return "the entry point without a parser state gives a different result"
        x = conc.diff(w, out["world"])
        if x: return "stored parameter sets: " + x
        if nb is None and out["qp"] != qp: return "slice QPs: expected %s, got %s" % (qp, out["qp"])
        return None
    return line, judge


def useful(res, w):
    """the unit reached what it is for: a parameter set that is stored, a slice that resolves its parameter sets"""
    if not res: return False
    o = res[0]; t = o.d["nal_unit_header"].d["nal_unit_type"]; p = o.d["nal_unit_payload"]
    if t in (32, 33, 34): return p is not None and p.d[{32: "vps", 33: "sps", 34: "pps"}[t]] is not None
    if t <= 9 or 16 <= t <= 21: return qp_of(o, w) is not None or not (w.d["sps"] and w.d["pps"])
    return True


def grow(B, n, hints=None, plan=None):
    """a sequence of units each generated against the parameter sets the earlier ones left"""
    w = empty_world(B); out = []; r = B.rnd
    plan = [{"nal_unit_type": [t]} for t in plan] if plan else [{"nal_unit_type": [t]} for t in r.choice(((32, 33, 34, 1), (33, 34, 19, 34, 1), (33, 34, 34, 1, 1), (32, 33, 34, 39, 35, 20), (34, 33, 34, 16), (33, 34, 1, 33, 34, 21, 5), (33, 34, 1, 34, 1, 19)))] if r.random() < 0.7 else []
    for i in range(n):
        h = dict(hints or {})
        if i < len(plan): h.update(plan[i])
        h.setdefault("slice_pic_parameter_set_id", list(w.d["pps"]) or [0]); h.setdefault("pps_seq_parameter_set_id", list(w.d["sps"]) or [0])
        ids = r.choice(([0], [0], [0, 1], [1, 2]))
        for k in ("pps_pic_parameter_set_id", "sps_seq_parameter_set_id", "vps_video_parameter_set_id"): h.setdefault(k, ids)
        good = r.random() < 0.85
        try:
            for k in range(8):
                u = gen_unit(B, bounded.copy_world(w), h); w2 = bounded.copy_world(w)
                res = parse_units(B, [(0, u)], w2, 0)
                if not good or useful(res, w2): break
        except TooBig: return out
        out.append(u); w = w2
    return out


def streams(tier="quick", seed=1, n=700):
    B = bounded.Bounded(seed=seed); r = B.rnd; cases = []
    t0 = time.time()
    for _ in range(n_(tier, n)):
        if time.time() - t0 > (100 if tier == "quick" else 1200): break
        d = bytes(r.choice(((), (), (0,), (0, 0), (5, 1))))
        for u in grow(B, r.choice((1, 2, 4, 5, 7))):
            d += r.choice((b"\0\0\1", b"\0\0\0\1")) + u
            if r.random() < 0.1: d += b"\0" * r.randrange(1, 4)
        if r.random() < 0.1: d = d[:r.randrange(len(d) + 1)]
        cases.append(stream_case(B, d, r.choice((31, 0, 8, r.randrange(32)))))
    return run([c for c in cases if c], B=B)


def rtp_qp(tier="quick", seed=1):
    """RTP packets sharing a state: the QP reported for each"""
    B = bounded.Bounded(seed=seed); r = B.rnd; cases = []; t0 = time.time()
    for _ in range(n_(tier, 400)):
        if time.time() - t0 > (60 if tier == "quick" else 900): break
        w = empty_world(B); pk = []; exp = []
        try:
            plan = [33, 34] + [r.choice((1, 1, 0, 19, 19, 20, 9, 16, 33, 34, 39)) for _ in range(5)] if r.random() < 0.7 else None
            for u in grow(B, r.choice((4, 5, 7)), plan=plan):
                p = unesc(u)
                if len(p) < 2: continue
                x = r.random()
                if (p[0] >> 1) & 63 in (32, 33, 34) and r.random() < 0.6: x = 1
                if r.random() < 0.5 and w.d["sps"] and w.d["pps"]:
                    if r.random() < 0.5:
                        for _ in range(8):
                            h = {"nal_unit_type": [r.choice((0, 1, 9, 16, 19, 21))], "slice_pic_parameter_set_id": list(w.d["pps"])}
                            g, _, ok = B.gen_stream("nal_unit", dict(bps=bounded.copy_world(w), options=0), h, 0)
                            if g is not None and ok and useful(parse_units(B, [(0, esc(g.bytes()))], bounded.copy_world(w), 0), w):
                                n = len(g.bytes()); p = esc(((48 << 9) | 1).to_bytes(2, "big") + r.choice((b"", b"\0\2\x4a\1", b"\0\2\x56\1" * 2)) + n.to_bytes(2, "big") + g.bytes()); x = 1; break
                    h = {"nal_unit_type": [48, 48, 49, 1, 19], "slice_pic_parameter_set_id": list(w.d["pps"]), "fu_type": [1, 19], "s_bit": [1, 1, 1, 0]}
                    for _ in range(0 if x == 1 else 8):
                        g, _, ok = B.gen_stream("rtp", dict(bps=bounded.copy_world(w)), h, 0)
                        if g is not None and ok and g.bytes(): p = esc(g.bytes()); x = 1; break
                if x < 0.25: p = ((48 << 9) | 1).to_bytes(2, "big") + len(p).to_bytes(2, "big") + p if len(p) < 65536 else p
                elif x < 0.5:
                    t = (p[0] >> 1) & 63; p = ((49 << 9) | 1).to_bytes(2, "big") + bytes([(0x80 if r.random() < 0.85 else 0) | (0x40 if r.random() < 0.3 else 0) | t]) + p[2:]
                elif x < 0.53: p = ((50 << 9) | 1).to_bytes(2, "big") + p
                pk.append(p)
                q = "none"
                try:
                    o = B.I.run("rtp", conc.Stream(unesc(p)), dict(bps=w)); t = o.d["nal_unit_header"].d["nal_unit_type"]; v = None
                    if t <= 47: s = o.d["rtp_single"]; v = qp_of_payload(s.d["nal_unit_header"].d["nal_unit_type"], s.d["nal_unit_payload"], w)
                    elif t == 48:
                        s = o.d["rtp_ap"]
                        if s.d["nal_unit_headers"]: v = qp_of_payload(s.d["nal_unit_headers"][-1].d["nal_unit_type"], s.d["nal_unit_payloads"][-1], w)
                    elif t == 49:
                        s = o.d["rtp_fu"]
                        if s.d["s_bit"]: v = qp_of_payload(s.d["fu_type"], s.d["nal_unit_payload"], w)
                    if v is not None: q = v
                except Reject: q = "rejected"
                exp.append(q)
        except TooBig: continue
        cases.append(("rtpqp %d %s" % (len(pk), " ".join(hx(p) for p in pk)), eq("r", exp, "QP per packet")))
    return run(cases, B=B)


# ------------------------------------------------------------------ Table 7-1
NAMES = ("trail_n trail_r tsa_n tsa_r stsa_n stsa_r radl_n radl_r rasl_n rasl_r rsv_vcl_n10 rsv_vcl_r11 rsv_vcl_n12 rsv_vcl_r13 rsv_vcl_n14 rsv_vcl_r15 "
         "bla_w_lp bla_w_radl bla_n_lp idr_w_radl idr_n_lp cra rsv_irap_vcl22 rsv_irap_vcl23 " + " ".join("rsv_vcl%d" % i for i in range(24, 32)) +
         " vps sps pps aud eos eob fd prefix_sei suffix_sei " + " ".join("rsv_nvcl%d" % i for i in range(41, 48)) + " ap fu " + " ".join("unspec%d" % i for i in range(50, 64))).split()


def classes(tier="quick", seed=1):
    r = random.Random(seed); cases = []
    for t in list(range(300)) + [2 ** 32 - 1, 2 ** 31, 65536, 65536 + 1, 256 + 19] + [r.getrandbits(32) for _ in range(200)]:
        e = dict(slice=int(t <= 9 or 16 <= t <= 21), vcl=int(t < 32), nonvcl=int(32 <= t < 64), unspec=int(48 <= t < 64), name=NAMES[t] if t < 64 else "unknown")
        def judge(out, e=e, t=t):
            for k in e:
                if out[k] != e[k]: return "nal_unit_type %d: %s: expected %s, got %s" % (t, k, e[k], out[k])
        cases.append(("cls %d" % t, judge))
    return run(cases)


def header_type(tier="quick", seed=1):
    """GetNalUnitType: the six type bits of the first byte, or false for fewer than two bytes"""
    r = random.Random(seed); cases = []
    for d in [b"", b"\0", b"\x42", b"\0\0\3", b"\0\0\3\1"] + [bytes([i]) + rdata(r, r.choice((1, 1, 2, 5, 40))) for i in range(256)]:
        def judge(out, d=d):
            ok = len(d) >= 2
            if bool(out["ok"]) != ok: return "GetNalUnitType of %d bytes %s: expected %s" % (len(d), d.hex(), ok)
            if ok and out["type"] != d[0] >> 1 & 63: return "GetNalUnitType of %s: expected %d, got %d" % (d.hex(), d[0] >> 1 & 63, out["type"])
        cases.append(("gnt %s" % (d.hex() or "-"), judge))
    return run(cases)


# ------------------------------------------------------------------ profile names (clause A.3)
PROFILE_NAMES = """
UNSPECIFIED Unspecified
MAIN Main
MAIN_10 Main 10
MAIN_STILL_PICTURE Main Still Picture
FREXT FRExt
HIGH_THROUGHPUT High Throughput
MULTIVIEW_MAIN Multiview Main
SCALABLE Scalable
_3D_MAIN 3D Main
SCREEN_EXTENDED Screen Extended
MULTILAYER Multilayer
SCREEN_EXTENDED_HIGH_THROUGHPUT Screen Extended High Throughput
MULTIVIEW_EXTENDED Multiview Extended
MULTIVIEW_EXTENDED_10 Multiview Extended 10
MAIN_10_STILL_PICTURE Main 10 Still Picture
MONOCHROME Monochrome
MONOCHROME_10 Monochrome 10
MONOCHROME_12 Monochrome 12
MONOCHROME_16 Monochrome 16
MONOCHROME_STILL_PICTURE Monochrome Still Picture
MONOCHROME_10_STILL_PICTURE Monochrome 10 Still Picture
MAIN_12 Main 12
MAIN_422_10 Main 422 10
MAIN_422_12 Main 422 12
MAIN_444 Main 444
MAIN_444_10 Main 444 10
MAIN_444_12 Main 444 12
MAIN_INTRA Main Intra
MAIN_10_INTRA Main 10 Intra
MAIN_12_INTRA Main 12 Intra
MAIN_422_10_INTRA Main 422 10 Intra
MAIN_422_12_INTRA Main 422 12 Intra
MAIN_444_INTRA Main 444 Intra
MAIN_444_10_INTRA Main 444 10 Intra
MAIN_444_12_INTRA Main 444 12 Intra
MAIN_444_16_INTRA Main 444 16 Intra
MAIN_444_STILL_PICTURE Main 444 Still Picture
MAIN_444_10_STILL_PICTURE Main 444 10 Still Picture
MAIN_444_16_STILL_PICTURE Main 444 16 Still Picture
HIGH_THROUGHPUT_444 High Throughput 444
HIGH_THROUGHPUT_444_10 High Throughput 444 10
HIGH_THROUGHPUT_444_14 High Throughput 444 14
HIGH_THROUGHPUT_444_16_INTRA High Throughput 444 16 Intra
SCALABLE_MAIN Scalable Main
SCALABLE_MAIN_10 Scalable Main 10
SCREEN_EXTENDED_MAIN Screen Extended Main
SCREEN_EXTENDED_MAIN_10 Screen Extended Main 10
SCREEN_EXTENDED_MAIN_444 Screen Extended Main 444
SCREEN_EXTENDED_MAIN_444_10 Screen Extended Main 444 10
SCREEN_EXTENDED_HIGH_THROUGHPUT_444 Screen Extended High Throughput 444
SCREEN_EXTENDED_HIGH_THROUGHPUT_444_10 Screen Extended High Throughput 444 10
SCREEN_EXTENDED_HIGH_THROUGHPUT_444_14 Screen Extended High Throughput 444 14"""


def profile_words(s):
    """the words of a profile name: case, punctuation and remarks in brackets (bit depth of 8, the annex) do not matter"""
    s = re.sub(r"\((\d+)-bit\)", lambda m: " " if m.group(1) == "8" else " " + m.group(1) + " ", s.lower())
    return re.sub(r"[^a-z0-9 ]", "", re.sub(r"\([^)]*\)", " ", s).replace("-", " ")).split()


def profile_names(tier="quick", seed=1):
    """every value of ProfileType: the printed name is the profile's, and no two profiles share one"""
    want = dict(l.split(" ", 1) for l in PROFILE_NAMES.strip().split("\n")); cases = []
    for t in range(256):
        def judge(out, t=t):
            w = ["unknown"] if out["type"] == "?" else profile_words(want.get(out["type"], out["type"]))
            if sorted(profile_words(out["name"])) != sorted(w): return "the printed name of ProfileType %d (%s) is %r" % (t, out["type"], out["name"])
        cases.append(("pname %d" % t, judge))
    return run(cases)


def lookup(tier="quick", seed=1):
    """GetVps/GetSps/GetPps: the stored set of that id, or nothing"""
    B = bounded.Bounded(seed=seed); r = B.rnd; cases = []; t0 = time.time()
    for _ in range(n_(tier, 300)):
        if time.time() - t0 > 60: break
        w = B.gen_world(); ids = [0, 1, 2, 15, 63, 2 ** 32 - 1] + list(w.d["pps"]) + list(w.d["sps"])
        if not any(w.d.values()): continue
        i = r.choice(ids); o = []; conc.ser(B.T, ("s", NUT), w, o)
        def judge(out, w=w, i=i):
            for k in ("vps", "sps", "pps"):
                e = w.d[k].get(i)
                if (e is None) != (out[k] is None): return "%s %d: expected %s" % (k, i, "nothing" if e is None else "the stored set")
                if e is not None:
                    x = conc.diff(e, out[k])
                    if x: return "%s %d: %s" % (k, i, x)
        cases.append(("getps %s %d" % (" ".join(o), i), judge))
    return run(cases, B=B)


# ------------------------------------------------------------------ configuration record (ISO/IEC 14496-15, 8.3.3.1)
CB = "h265nal::H265ConfigurationBoxParser::ConfigurationBoxState"


def parse_hvcc(B, d, w, op):
    """expected record (Obj), or Reject; the parameter sets in it are stored in w as they are read"""
    s = Bits(d, 0); o = Obj(CB, {})
    def u(n):
        ok, v = s.rd(n, 64)
        if not ok: raise Reject("truncated")
        return v
    def want(v, x):
        if v != x: raise Reject("fixed value")
    F = o.d
    F["configurationVersion"] = u(8); want(F["configurationVersion"], 1)
    F["general_profile_space"] = u(2); F["general_tier_flag"] = u(1); F["general_profile_idc"] = u(5)
    F["general_profile_compatibility_flags"] = [u(1) for _ in range(32)]
    F["general_constraint_indicator_flags"] = u(48); F["general_level_idc"] = u(8)
    F["reserved1"] = u(4); want(F["reserved1"], 15); F["min_spatial_segmentation_idc"] = u(12)
    F["reserved2"] = u(6); want(F["reserved2"], 63); F["parallelismType"] = u(2)
    F["reserved3"] = u(6); want(F["reserved3"], 63); F["chroma_format_idc"] = u(2)
    F["reserved4"] = u(5); want(F["reserved4"], 31); F["bit_depth_luma_minus8"] = u(3)
    F["reserved5"] = u(5); want(F["reserved5"], 31); F["bit_depth_chroma_minus8"] = u(3)
    F["avgFrameRate"] = u(16); F["constantFrameRate"] = u(2); F["numTemporalLayers"] = u(3); F["temporalIdNested"] = u(1)
    F["lengthSizeMinusOne"] = u(2); F["numOfArrays"] = u(8)
    for k in ("array_completeness", "reserved6", "NAL_unit_type", "numNalus", "nalUnitLength", "nalUnit"): F[k] = []
    for j in range(F["numOfArrays"]):
        F["array_completeness"].append(u(1)); F["reserved6"].append(u(1)); want(F["reserved6"][-1], 0)
        F["NAL_unit_type"].append(u(6)); n = u(16); F["numNalus"].append(n); F["nalUnitLength"].append([]); F["nalUnit"].append([])
        for i in range(n):
            l = u(16); F["nalUnitLength"][-1].append(l)
            if s.pos + 8 * l > s.tot: raise Reject("truncated unit")
            x = bytes(d[s.pos // 8:s.pos // 8 + l]); s.pos += 8 * l
            r = parse_units(B, [(0, x)], w, op)
            if r: r[0].d["length"] = 0; r[0].d["offset"] = 0
            F["nalUnit"][-1].append(r[0] if r else None)
    return o


def hvcc(tier="quick", seed=1, n=300):
    B = bounded.Bounded(seed=seed); r = B.rnd; cases = []; t0 = time.time()
    for _ in range(n_(tier, n)):
        if time.time() - t0 > (60 if tier == "quick" else 600): break
        b = lambda k: r.getrandbits(k) if r.random() < 0.8 else 0
        bits = "".join(format(v, "0%db" % k) for v, k in ((1, 8), (b(2), 2), (b(1), 1), (b(5), 5), (b(32), 32), (b(48), 48), (b(8), 8), (15, 4), (b(12), 12), (63, 6), (b(2), 2), (63, 6), (b(2), 2),
                       (31, 5), (b(3), 3), (31, 5), (b(3), 3), (b(16), 16), (b(2), 2), (b(3), 3), (b(1), 1), (b(2), 2)))
        units = grow(B, r.choice((0, 1, 2, 4, 5))); arrays = []
        while units:
            k = min(len(units), r.choice((0, 1, 1, 2, 3))); arrays.append(units[:k]); units = units[k:]
            if len(arrays) > 12: break
        d = int(bits, 2).to_bytes(len(bits) // 8, "big") + bytes([len(arrays) + (r.random() < 0.05)])
        for a in arrays:
            d += bytes([(r.getrandbits(1) << 7) | ((r.random() < 0.04) << 6) | ((a[0][0] >> 1 & 63) if a and a[0] and r.random() < 0.8 else r.getrandbits(6))]) + len(a).to_bytes(2, "big")
            for x in a:
                x = x[:65535]; d += (len(x) + (1 if r.random() < 0.02 else 0)).to_bytes(2, "big") + x
        x = r.random()
        if x < 0.12: d = d[:r.randrange(len(d) + 1)]
        elif x < 0.2: k = r.randrange(min(len(d), 24)); d = d[:k] + bytes([d[k] ^ (1 << r.randrange(8))]) + d[k + 1:]
        elif x < 0.3: d += bytes(r.getrandbits(8) for _ in range(r.choice((1, 5))))
        elif x < 0.45:                     # a wrong version or reserved bit
            k = r.choice(list(range(8)) + list(range(104, 108)) + list(range(120, 126)) + list(range(128, 134)) + list(range(136, 141)) + list(range(144, 149)))
            d = d[:k // 8] + bytes([d[k // 8] ^ (0x80 >> k % 8)]) + d[k // 8 + 1:]
        op = r.choice((31, 31, 0, r.randrange(32))); w = empty_world(B)
        try:
            try: e = parse_hvcc(B, d, w, op)
            except Reject: e = None
        except TooBig: continue
        def judge(out, e=e, w=w):
            g = out["r"]
            if e is None: 
                if g is not None: return "a truncated or malformed record was accepted"
            elif g is None: return "a valid record was rejected"
            else:
                x = conc.diff(e, g)
                if x: return x
                if not out.get("tsame", 1): return "the text depends on the indentation"
            x = conc.diff(w, out["world"])
            if x: return "stored parameter sets: " + x
        cases.append(("hvccrec %s %d" % (hx(d), op), judge)); cases.append(("prt:hvccrec %s %d" % (hx(d), op), judge))
    return run(cases, B=B)


def print_streams(tier="quick", seed=1):
    """whole streams, configuration records: printed at every indentation"""
    B = bounded.Bounded(seed=seed); r = B.rnd; cases = []; t0 = time.time()
    for _ in range(n_(tier, 250)):
        if time.time() - t0 > (40 if tier == "quick" else 300): break
        d = b""
        for u in grow(B, r.choice((1, 2, 4, 5))): d += r.choice((b"\0\0\1", b"\0\0\0\1")) + u
        if r.random() < 0.2: d = d[:r.randrange(len(d) + 1)]
        cases.append(("prt:stream %s %d" % (hx(d), r.choice((31, 0, 8, 23, r.randrange(32)))), lambda out: None if out.get("tsame", 1) else "the text depends on the indentation"))
    return run(cases, B=B)


def fuzz(tier="quick", seed=1):
    """raw and damaged bytes at every entry point: only crashes, hangs and undefined behaviour are judged"""
    B = bounded.Bounded(seed=seed); r = B.rnd; cases = []; t0 = time.time()
    ok = lambda out: None
    entry = [("stream %s 31", "s"), ("lstream %s %d 31", "l"), ("rtpqp 1 %s", "s"), ("hvccrec %s 31", "s"), ("unescape %s", "s"), ("find %s", "s"), ("findx %s", "s")]
    def blob():
        x = r.random()
        if x < 0.3: return bytes(r.choice((0, 0, 1, 3, 255, 0x42, 0x40, 0x44, 0x26, 0x4e, r.getrandbits(8))) for _ in range(r.randrange(0, 60)))
        if x < 0.5: return bytes(r.getrandbits(8) for _ in range(r.randrange(0, 200)))
        d = b"".join(r.choice((b"\0\0\1", b"\0\0\0\1", b"", b"\0\0\0\x20", b"\0\x30")) + u for u in grow(B, r.choice((1, 2, 3, 5))))
        if d:
            b = bytearray(d)
            for _ in range(r.choice((0, 1, 3, 10))): b[r.randrange(len(b))] = r.choice((0, 255, r.getrandbits(8)))
            d = bytes(b)
        if r.random() < 0.3: d = d[:r.randrange(len(d) + 1)]
        return d
    for _ in range(n_(tier, 1500)):
        if time.time() - t0 > (40 if tier == "quick" else 900): break
        d = blob(); e, k = r.choice(entry)
        cases.append((e % ((hx(d),) if k == "s" else (hx(d), r.choice((0, 1, 2, 3, 4, 8, 9)))), ok))
    return run(cases, B=B)


# ------------------------------------------------------------------ printing
from ops_names import PRINTED


def printed_values(text):
    """name -> values printed under it"""
    out = {}; stack = []; toks = text.replace("{", " { ").replace("}", " } ").split()
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == "{": stack.append(stack[-1] if stack and i and (toks[i - 1] in "{}" or re.fullmatch(r"-?\d+", toks[i - 1])) else (toks[i - 1].rstrip(":") if i else ""))
        elif t == "}":
            if stack: stack.pop()
        elif t.endswith(":") and i + 1 < len(toks) and toks[i + 1] != "{":
            out.setdefault(re.sub(r"\[.*?\]", "", t[:-1]), []).append(toks[i + 1]); i += 1
        elif re.fullmatch(r"-?\d+|0x[0-9a-fA-F]+", t) and stack: out.setdefault(re.sub(r"\[.*?\]", "", stack[-1]), []).append(t)
        i += 1
    return out


def as_int(x):
    try: return int(x, 0) & (2 ** 64 - 1)
    except ValueError:
        try: return int(x, 10) & (2 ** 64 - 1)
        except ValueError: return None


def stored_values(o, out):
    if isinstance(o, Obj):
        for n, v in o.d.items():
            if isinstance(v, (Obj,)): stored_values(v, out)
            elif isinstance(v, (list, dict)): flat(n, v, out)
            elif isinstance(v, int): out.setdefault(n, []).append(v)
    elif isinstance(o, (list, tuple)):
        for v in o: stored_values(v, out)


def flat(n, v, out):
    for x in (v.values() if isinstance(v, dict) else v):
        if isinstance(x, Obj): stored_values(x, out)
        elif isinstance(x, (list, dict)): flat(n, x, out)
        elif isinstance(x, int): out.setdefault(n, []).append(x)


def jstored(o, out):
    """the same for the real object as dumped by the driver"""
    if isinstance(o, dict):
        for n, v in o.items():
            if isinstance(v, dict): jstored(v, out)
            elif isinstance(v, list): jflat(n, v, out)
            elif isinstance(v, int): out.setdefault(n, []).append(v)
    elif isinstance(o, list):
        for v in o: jstored(v, out)


def jflat(n, v, out):
    for x in v:
        if isinstance(x, dict): jstored(x, out)
        elif isinstance(x, list): jflat(n, x, out)
        elif isinstance(x, int): out.setdefault(n, []).append(x)


M32 = 2 ** 32 - 1
HIDDEN = set()


def judge_print(out, trace):
    """everything printed under a stored name is stored; every value read from the stream into a named element is printed"""
    if out.get("r") is None: return None
    if not out.get("tsame", 1): return "the text depends on the indentation"
    pv = printed_values(out["text"]); st = {}; jstored(out["r"], st)
    for n, vs in pv.items():
        if n not in st or n in ("checksum", "payload_size"): continue
        c = set(x & M32 for x in st[n])
        for v in vs:
            i = as_int(v)
            if i is None: return "%s: printed %s, which is not a number" % (n, v)
            if i & M32 not in c: return "%s: printed %s, which is not stored" % (n, v)
    for fn, n, v in [x for x in trace if x]:
        if (fn, n) in HIDDEN or v & M32 not in [x & M32 for x in st.get(n, [])]: continue
        if v & M32 not in set((as_int(x) or 0) & M32 for x in pv.get(n, [])): return "%s: %s is stored but not printed" % (fn, n)
    return None


def prints(names=None, tier="quick", seed=1, n=150):
    """every accepted result of every parser can be printed at every indentation; the text agrees with the stored values"""
    B = bounded.Bounded(seed=seed); cases = []; t0 = time.time()
    for name in (names or PRINTED):
        try: cs = B.make(name, n_(tier, n), None, 20 if tier == "quick" else 120)
        except Exception as e: cs = []
        for c in cs:
            if c.exp is None: continue
            try: cases.append(("prt:" + B.line(c), lambda out, t=c.trace: judge_print(out, t)))
            except Exception: continue
    return run(cases, B=B)


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        t = time.time(); d = globals()[f](seed=int(os.environ.get("VERIF_SEED", "1")), tier=os.environ.get("VERIF_TIER", "quick"))
        print(f, "cases", d["cases"], "distinct", d["distinct"], "bad", len(d["violations"]), d["undecided"], "%.1fs" % (time.time() - t))
        for v in d["violations"][:int(os.environ.get("SHOW","6"))]: print("   ", v["what"][:300], "|", v["driver_line"][-200:])
