"""Byte-level contracts: the functions below the syntax layer (bit reader, bit writer, exp-Golomb codes, emulation prevention,
start code search, length framing, checksum ...) verified on their LLVM IR.

A bit buffer is its class's cells (found by member name in the debug information) plus a byte array of symbolic length; its
invariant is byte_offset <= byte_count, bit_offset <= 7, and bit_offset == 0 at the end.  Loops that do not decide on constants
are cut with an inductive invariant found by Houdini over a template pool (invloop.py); a loop whose invariant is not found makes
the function undecided, never an alarm."""
import z3, time, os, sys
import ir, stl, verify, invloop
from execu import Exec
from sym import *

BYTE = z3.BitVecSort(8)
ARR = z3.ArraySort(B64, BYTE)
RT = "rtc_common"
BUF = "h265nal::BitBuffer"
WR = "h265nal::BitBufferWriter"
BITS = uf("BITS", ARR, B64, B64, B64)      # BITS(A, p, n): the n bits of A starting at bit p, most significant first
K = z3.Const("K", B64)                     # an arbitrary index: statements about it hold for all


class Layout:
    def __init__(self, mod, cls):
        S = mod.structs()
        if cls not in S: raise Unsupported("class %s not found" % cls)
        m = {n: (o, s) for n, o, s, b in mod.members(S[cls])}
        self.size = int(mod.mget(S[cls], "size")) // 8
        try: self.bytes, self.count, self.off, self.bit = (m[n][0] for n in ("bytes_", "byte_count_", "byte_offset_", "bit_offset_"))
        except KeyError as e: raise Unsupported("no member %s in %s" % (e, cls))
        self.wbytes = m["writable_bytes_"][0] if "writable_bytes_" in m else None


class BB:
    """a bit buffer object in the initial state: region `rid`, its bytes in region `data`"""
    def __init__(self, ex, st, writer=False, bit=None, pre=True, joint=False):
        self.ex = ex; self.lay = L = Layout(ex.mod, WR if writer else BUF)
        self.A = z3.Const("A", ARR); self.C = z3.ZeroExt(32, z3.Const("count", B32)); self.O = z3.ZeroExt(32, z3.Const("off", B32))   # counts below 2^32
        self.B = bv(bit) if bit is not None else z3.ZeroExt(61, z3.Const("bit", z3.BitVecSort(3)))
        if joint: p = z3.ZeroExt(29, z3.Const("p0", z3.BitVecSort(35))); self.O, self.B = BYTEOF(p), BITOF(p)
        self.rid = ex.new_region(st, "bb", L.size); self.data = ex.new_region(st, "data")
        st.mem[(self.data, "arr")] = self.A; st.mem[(self.data, "alen")] = self.C
        p = Ptr.mk(("r", self.data))
        st.mem[(self.rid, L.bytes)] = p; st.mem[(self.rid, L.count)] = self.C
        st.mem[(self.rid, L.off)] = self.O; st.mem[(self.rid, L.bit)] = self.B
        if writer: st.mem[(self.rid, L.wbytes)] = p
        self.ptr = Ptr.mk(("r", self.rid))
        if pre:
            st.assume(z3.ULT(self.C, bv(1 << 32)))
            for c in self.inv(st): st.assume(simp(c))
        self.p0 = self.pos(st)
    def cell(self, st, o): return st.mem[(self.rid, o)]
    def pos(self, st):
        o, b = self.cell(st, self.lay.off), self.cell(st, self.lay.bit)
        return pos_of(o, b)
    def arr(self, st): return st.mem[(self.data, "arr")]
    def inv(self, st):
        c, o, b = (self.cell(st, x) for x in (self.lay.count, self.lay.off, self.lay.bit))
        if split_of(o, b) is not None: return [z3.ULE(split_of(o, b), bv(8) * c), T, T]
        return [z3.ULE(o, c), z3.ULE(b, bv(7)), mk_or(mk_not(o == c), b == 0)]
    def frame(self, st):
        """what no reader function may change"""
        L = self.lay; p = self.cell(st, L.bytes)
        return [("the buffer pointer is unchanged", T if isinstance(p, Ptr) and ptr_same(p, Ptr.mk(("r", self.data))) else F),
                ("the byte count is unchanged", self.cell(st, L.count) == self.C)]
    def remaining(self, st): return bv(8) * self.C - self.pos(st)


def split_of(o, b):
    """the bit position p when o, b are its quotient and remainder by 8 (then: class invariant iff p <= 8*count, lemma PositionSplit)"""
    if z3.is_expr(o) and z3.is_app(o) and o.decl().name() == "BYTEOF" and z3.is_app(b) and b.decl().name() == "BITOF" and o.arg(0).eq(b.arg(0)): return o.arg(0)
    return None


def pos_of(o, b):
    p = split_of(o, b)
    return p if p is not None else simp(o * 8 + b)


def inv_of(o, b, count):
    p = split_of(o, b)
    if p is not None: return z3.ULE(p, bv(8) * count)
    return mk_and(z3.ULE(o, count), z3.ULE(b, bv(7)), mk_or(mk_not(o == count), b == 0))


BYTEOF = uf("BYTEOF", B64, B64); BITOF = uf("BITOF", B64, B64)


def cells_at(ex, pos):
    """byte and bit offset of a bit position (quotient and remainder by 8)"""
    pos = simp(pos)
    o, b = BYTEOF(pos), BITOF(pos)
    if ex.thm.full: split_facts(ex, pos)
    return o, b


def split_facts(ex, pos):
    o, b = BYTEOF(pos), BITOF(pos)
    ex.pv.fact(o == z3.LShR(pos, bv(3))); ex.pv.fact(b == pos & bv(7)); ex.pv.fact(o * 8 + b == pos); ex.pv.fact(z3.ULE(b, bv(7)))


# ------------------------------------------------------------------ contracts used for callees (each verified below)
class Callee:
    """bit buffer of a callee: `this` points to a region with the class's cells"""
    def __init__(self, ex, st, this):
        this = ex.aptr(this)
        if not this.single or this.alts[0][1][0] != "r" or this.alts[0][2].term().as_long() != 0: raise Unsupported("bit buffer argument")
        self.rid = this.alts[0][1][1]; self.ex = ex
        self.L = Layout(ex.mod, BUF) if ex.region_info[self.rid]["size"] in (None, Layout(ex.mod, BUF).size) else Layout(ex.mod, WR)
        g = lambda o: st.mem[(self.rid, o)]
        try: self.count, self.o, self.b = g(self.L.count), g(self.L.off), g(self.L.bit)
        except KeyError: raise Unsupported("bit buffer cells")
        self.pos = pos_of(self.o, self.b); self.rem = simp(bv(8) * self.count - self.pos)
        self.data = g(self.L.bytes).alts[0][1][1]; self.A = st.mem[(self.data, "arr")]
    def move(self, st, pos):
        o, b = cells_at(self.ex, pos)
        st.mem[(self.rid, self.L.off)] = o; st.mem[(self.rid, self.L.bit)] = b
        st.assume(simp(z3.ULE(pos, bv(8) * self.count)))        # postcondition: the class invariant is kept


def need_inv(ex, st, c):
    ex.oblige(st, inv_of(c.o, c.b, c.count), "pre", "the bit buffer's class invariant holds at the call")


def fork(ex, st, ok, then, els=None):
    out = []; c = decide(st, simp(ok)); s2 = st.copy()
    if not is_f(c) and st.assume(c): then(st); out.append((st, T))
    if not is_t(c) and s2.assume(mk_not(c)):
        if els: els(s2)
        out.append((s2, F))
    return out


def k_bits(width, move):
    def f(ex, st, args, ins):
        this, n, dst = args; c = Callee(ex, st, this); need_inv(ex, st, c); n = simp(n)
        ex.oblige(st, n != 0, "pre", "the bit count is positive")
        ok = mk_and(z3.ULE(n, c.rem), z3.ULE(n, bv(width)))
        v = BITS(c.A, c.pos, n)
        if isc(n) and cval(n) < 64: ex.pv.fact(z3.ULT(v, bv(1 << cval(n))))
        else: ex.pv.fact(z3.Implies(z3.ULT(n, bv(64)), z3.ULT(v, bv(1) << n)))
        def then(s):
            ex.store(s, ex.aptr(dst), simp(z3.Extract(width - 1, 0, v)), width // 8)
            if move: c.move(s, c.pos + n)
        return fork(ex, st, ok, then)
    return f


def k_consume(mult):
    def f(ex, st, args, ins):
        this, n = args; c = Callee(ex, st, this); need_inv(ex, st, c)
        ok = T if mult == 1 else z3.ULE(n, bv((2 ** 64 - 1) // 8))
        n = simp(n * mult)
        return fork(ex, st, mk_and(ok, z3.ULE(n, c.rem)), lambda s: c.move(s, c.pos + n))
    return f


def k_seek(ex, st, args, ins):
    this, o, b = args; c = Callee(ex, st, this)
    ok = inv_of(o, b, c.count)
    def then(s): s.mem[(c.rid, c.L.off)] = simp(o); s.mem[(c.rid, c.L.bit)] = simp(b)
    return fork(ex, st, ok, then)


def k_rem(ex, st, args, ins):
    c = Callee(ex, st, args[0]); need_inv(ex, st, c); return [(st, c.rem)]


def k_offset(ex, st, args, ins):
    c = Callee(ex, st, args[0])
    ex.store(st, ex.aptr(args[1]), c.o, 8); ex.store(st, ex.aptr(args[2]), c.b, 8)
    return [(st, None)]


def zeros(ex, A, p, count):
    """number of leading zero bits from p on (up to the end): the definition of the ghost value L"""
    L = uf("LZ", ARR, B64, B64, B64)(A, p, count)
    end = bv(8) * count
    ex.pv.fact(z3.Implies(z3.ULE(p, end), z3.And(z3.ULE(L, end - p), z3.Implies(z3.ULT(L, end - p), BITS(A, p + L, bv(1)) == 1))))
    return L


def zeros_at(ex, A, p, count, k):
    """instance of the definition: the bits before the first one are zero"""
    L = zeros(ex, A, p, count)
    ex.pv.fact(z3.Implies(z3.ULT(k, L), BITS(A, p + k, bv(1)) == 0))


def ue_parts(ex, A, p, count):
    """-> (accepted, value, end position): ue(v) of 9.2, codes with more than 31 leading zeros rejected"""
    L = zeros(ex, A, p, count); end = bv(8) * count
    ok = z3.And(z3.ULE(L, bv(31)), z3.ULE(L + L + 1, end - p))
    return ok, simp(z3.Extract(31, 0, BITS(A, p + L, L + 1)) - 1), simp(p + L + L + 1)


def se_of(v): return simp(z3.If(z3.Extract(0, 0, v) == 0, -z3.LShR(v, 1), z3.LShR(v + 1, 1)))


def k_ue(signed):
    def f(ex, st, args, ins):
        this, dst = args; c = Callee(ex, st, this); need_inv(ex, st, c)
        ok, v, e = ue_parts(ex, c.A, c.pos, c.count)
        ex.pv.fact(z3.Implies(ok, v != bv(0xffffffff, 32)))      # postcondition of ReadExponentialGolomb
        def then(s): ex.store(s, ex.aptr(dst), se_of(v) if signed else v, 4); c.move(s, e)
        return fork(ex, st, ok, then, lambda s: ex.store(s, ex.aptr(dst), fresh("garbage", B32), 4))
    return f


def k_count(ex, st, args, ins):
    """CountBits: w is the length of the binary representation"""
    v = args[0]; w = uf("NBITS", B64, B64)(v)
    count_facts(ex, v, w); return [(st, w)]


def count_facts(ex, v, w):
    ex.pv.fact(z3.And(z3.ULE(w, bv(64)), z3.Implies(v == 0, w == 0), z3.Implies(v != 0, z3.And(w != 0, z3.LShR(v, w - 1) == 1))))


def k_write(ex, st, args, ins):
    """WriteBits seen by its callers: the request is recorded, the buffer moves on"""
    this, v, n = args; c = Callee(ex, st, this); need_inv(ex, st, c)
    ex.oblige(st, z3.ULE(n, bv(64)), "pre", "at most 64 bits are written at once")
    wr = uf("WRITTEN", ARR, B64, B64, B64, ARR)
    ok = z3.ULE(n, c.rem)
    def then(s):
        m = simp(z3.If(z3.ULT(n, bv(64)), v & ((bv(1) << n) - 1), v))
        s.mem[(c.data, "arr")] = wr(c.A, c.pos, m, n); c.move(s, c.pos + n)
    return fork(ex, st, ok, then)


def written(A, p, v, n):
    """the array after writing the n low bits of v at bit position p"""
    return uf("WRITTEN", ARR, B64, B64, B64, ARR)(A, p, simp(z3.If(z3.ULT(n, bv(64)), v & ((bv(1) << n) - 1), v)), n)


SIG = {
    "peek32": (BUF + "::PeekBits(unsigned long, unsigned int&)", k_bits(32, False)), "peek64": (BUF + "::PeekBits(unsigned long, unsigned long&)", k_bits(64, False)),
    "read32": (BUF + "::ReadBits(unsigned long, unsigned int&)", k_bits(32, True)), "read64": (BUF + "::ReadBits(unsigned long, unsigned long&)", k_bits(64, True)),
    "consume": (BUF + "::ConsumeBits(unsigned long)", k_consume(1)), "consumebytes": (BUF + "::ConsumeBytes(unsigned long)", k_consume(8)),
    "seek": (BUF + "::Seek(", k_seek), "rem": (BUF + "::RemainingBitCount() const", k_rem), "offset": (BUF + "::GetCurrentOffset(", k_offset),
    "ue": (BUF + "::ReadExponentialGolomb(unsigned int&)", k_ue(False)), "se": (BUF + "::ReadSignedExponentialGolomb(int&)", k_ue(True)),
    "countbits": ("h265nal::CountBits(unsigned long)", k_count), "write": (WR + "::WriteBits(unsigned long, unsigned long)", k_write),
}


def k_read_fixed(w):
    g = k_bits(32, True)
    def f(ex, st, args, ins):
        this, dst = args; rid = ex.new_region(st, "t", 4)
        out = []
        for s, ok in g(ex, st, [this, bv(w), Ptr.mk(("r", rid))], ins):
            if is_t(ok): ex.store(s, ex.aptr(dst), simp(z3.Extract(w - 1, 0, s.mem[(rid, 0)])), w // 8)
            out.append((s, ok))
        return out
    return f


for _w in (8, 16, 32): SIG["u%d" % _w] = (BUF + "::ReadUInt%d(" % _w, k_read_fixed(_w))


# ------------------------------------------------------------------ running one verification
class Run:
    """one function, possibly many cases; all obligations accumulate"""
    def __init__(self, V, name, sym, hint=RT, uses=(), timeout=10000, deadline=None):
        self.V, self.name, self.uses = V, name, uses
        self.mod, self.sym = V.symbol(sym, hint)
        self.obls = []; self.undecided = None; self.inlined = set(); self.modelled = set(); self.called = set(); self.tq = 0; self.nq = 0
        self.timeout = timeout; self.t_end = time.time() + deadline if deadline else None
        self.cases = 0; self.hints = []; self.full = V.__dict__.get("full", False)
    def exec(self, extra=None):
        pv = Prover(self.timeout); pv.deadline = self.t_end
        table = {}
        for u in self.uses:
            pre, con = SIG[u]
            try: _, s = self.V.symbol(pre, RT)
            except Unsupported: continue
            def wrap(con, u):
                def f(ex, st, args, ins): ex.called_contracts.add(u); return con(ex, st, args, ins)
                return f
            if s != self.sym: table[s] = wrap(con, u)
        if extra: table.update(extra)
        ex = Exec(self.V.prog, pv, self.mod.src, table, stl.models)
        ex.fn, ex.fr_mod = self.mod.funcs[self.sym], self.mod; ex.fn.parse()
        ex.thm = self; ex.loopctx = [None]
        return ex
    def go(self, ex, st, args, post, hint=None, bb=None):
        fn = ex.fn
        if len(args) != len(fn.params): raise Unsupported("signature of %s changed" % self.name)
        n0 = len(ex.obls)
        rets = ex.call_fn(fn, args, st)
        nret = 0
        for s, rv in rets:
            if not ex.pv.feasible(list(s.pc)): continue
            nret += 1; ex.cur_loc = "%s (return)" % self.name
            for desc, g in post(s, rv): ex.oblige(s, g, "post", desc)
        if not nret: raise Unsupported("no feasible return")
        self.cases += 1
        bad = [o for o in ex.obls if o.status == "failed"]
        if bad and hint is not None and len(self.hints) < 8:
            for o in bad[:2]:
                try: self.hints.append(hint(ex, o))
                except Exception as e: self.hints.append(None)
        self.collect(ex)
    def collect(self, ex):
        self.obls += ex.obls; self.inlined |= ex.inlined; self.modelled |= ex.modelled; self.called |= ex.called_contracts
        self.tq += ex.pv.tq; self.nq += ex.pv.nq
    def result(self):
        st = [o.status for o in self.obls]
        return dict(name=self.name, n=len(st), discharged=st.count("proved"), failed=[dict(kind=o.kind, desc=o.desc, loc=str(o.loc)) for o in self.obls if o.status == "failed"][:10],
                    unknown=[dict(kind=o.kind, desc=o.desc, loc=str(o.loc)) for o in self.obls if o.status == "unknown"][:10], undecided=self.undecided, cases=self.cases,
                    inlined=len(self.inlined), modelled=sorted(self.modelled), called=sorted(self.called), tq=self.tq, nq=self.nq, hints=[h for h in self.hints if h],
                    tainted=getattr(self, "tainted", 0))


GUARD = [False]


def verify_one(V, name, deadline=200):
    """runs theorem `name`; -> result dict"""
    r = verify_once(V, name, deadline)
    if any("do not wrap" in o["desc"] for o in r["unknown"]):
        GUARD[0] = True              # unfold the ghost sequences under the condition instead
        try: r = verify_once(V, name, deadline)
        finally: GUARD[0] = False
    return r


def verify_once(V, name, deadline):
    t0 = time.time(); R = None
    box = []
    try:
        THMS[name](V, deadline, box)
    except (Unsupported, Misaligned) as e: why = "unsupported: %s" % e
    except ir.IRError as e: why = "ir: %s" % e
    except z3.Z3Exception as e: why = "solver: %s" % str(e)[:200]
    except RecursionError: why = "recursion limit"
    except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        if os.environ.get("VC_DEBUG"): raise
        why = "internal: %s %s" % (type(e).__name__, str(e)[:200])
    else: why = None
    if box:
        r = box[0].result()
    else: r = dict(name=name, n=0, discharged=0, failed=[], unknown=[], undecided=None, cases=0, inlined=0, modelled=[], called=[], tq=0, nq=0, hints=[], tainted=0)
    if why: r["undecided"] = why
    r["name"] = name
    if r["n"] == 0 and not r["undecided"]: r["undecided"] = "no obligations"
    r["time"] = time.time() - t0
    r["status"] = "undecided" if r["undecided"] else "failed" if r["failed"] else "undecided" if r["unknown"] else "proved"
    return r


THMS = {}
def ndef(ex, t, g):
    """definition of a sequence at t + 1 from t; t + 1 must not wrap to the start: obliged by the loop rule at every instance (invloop.wraps)"""
    if isc(t):
        if cval(t) < (1 << 64) - 1: ex.pv.fact(g)
        return
    if getattr(ex, "wraps", None) is None: ex.wraps = {}
    if GUARD[0]: ex.pv.fact(z3.Implies(t != bv(-1), g)); return
    g = simp(g); ex.wraps[t.get_id()] = t; ex.pv.fact(g); ex.pv.seqfacts.add(g.get_id())


def thm(f): THMS[f.__name__] = f; return f


def small(ex, o, bb):
    """a counterexample with a short buffer, as driver input: (hex, start position)"""
    conds = list(o.pc) + [mk_not(o.goal), z3.ULE(bb.C, bv(24))]
    r, m = ex.pv.check(conds)
    if r != "sat": return None, None
    ev = lambda t: m.eval(t, model_completion=True).as_long()
    n = ev(bb.C)
    return m, (bytes(ev(z3.Select(bb.A, bv(i))) for i in range(n)).hex() or "-", ev(bb.p0))


def window(A, o, nbytes):
    bs = [z3.Select(A, simp(o + bv(i))) for i in range(nbytes)]
    return z3.Concat(*bs) if nbytes > 1 else bs[0]


def reader_post(bb, s): return [("the class invariant is kept", mk_and(*bb.inv(s)))] + bb.frame(s) + [("the bytes are unchanged", T if bb.arr(s).eq(bb.A) else bb.arr(s) == bb.A)]


def bits_thm(sym, width, moves, opname, bits=range(8)):
    """PeekBits / ReadBits: every start bit 0..7 and every count 1..width with symbolic bytes and position, plus counts above the width"""
    def f(V, deadline, box):
        R = Run(V, sym, sym, uses=("rem", "consume"), deadline=deadline); box.append(R)
        for b in bits:
            for n in list(range(1, width + 1)) + [None]:
                ex = R.exec(); st = State(); bb = BB(ex, st, bit=b)
                dst = ex.new_region(st, "val", width // 8); old = z3.Const("old", z3.BitVecSort(width)); st.mem[(dst, 0)] = old
                N = bv(n) if n is not None else z3.Const("n", B64)
                if n is None: st.assume(simp(z3.UGT(N, bv(width))))
                nb = (b + n + 7) // 8 if n else 1
                rem = bb.remaining(st)
                def post(s, rv, n=n, b=b, bb=bb, dst=dst, rem=rem, N=N):
                    if not z3.is_bool(rv): raise Unsupported("return type")
                    out = reader_post(bb, s)
                    fits = F if n is None else z3.ULE(N, rem)
                    out.append(("succeeds exactly when the bits are there", rv == fits))
                    if n is not None:
                        w = window(bb.A, bb.O, nb); hi = 8 * nb - 1 - b
                        val = z3.Extract(hi, hi - n + 1, w)
                        val = z3.ZeroExt(width - n, val) if n < width else val
                        out.append(("the value is the %d bits at the position, most significant first" % n, z3.Implies(rv, s.mem[(dst, 0)] == val)))
                    out.append(("the position moves by the bits read" if moves else "the position does not move",
                                bb.pos(s) == z3.If(rv, bb.p0 + (N if moves else bv(0)), bb.p0)))
                    return out
                def hint(ex, o, n=n, bb=bb):
                    m, h = small(ex, o, bb)
                    if h is None: return None
                    k = n if n is not None else m.eval(z3.Const("n", B64), model_completion=True).as_long()
                    return (h[0], h[1], ["%s:%d" % (opname, k), "rem"])
                R.go(ex, st, [bb.ptr, N, Ptr.mk(("r", dst))], post, hint, bb)
    return f


for _b in range(8):          # one start bit each, so that they run in parallel
    THMS["PeekBits32@%d" % _b] = bits_thm(SIG["peek32"][0], 32, False, "p", [_b])
    THMS["PeekBits64@%d" % _b] = bits_thm(SIG["peek64"][0], 64, False, "P", [_b])


def simple(sym, uses=(), writer=False, joint=None):
    """decorator: f(R, ex, st, bb) -> (args, post, hint); one symbolic case"""
    def deco(g):
        def f(V, deadline, box):
            R = Run(V, g.__name__, sym, uses=uses, deadline=deadline); box.append(R)
            ex = R.exec(); st = State(); bb = BB(ex, st, writer, joint=joint if joint is not None else any(u not in ("rem",) for u in uses))
            if R.full and split_of(bb.O, bb.B) is not None: split_facts(ex, bb.p0)
            args, post, hint = g(R, ex, st, bb)
            R.go(ex, st, args, post, hint, bb)
        THMS[g.__name__] = f
        return g
    return deco


def ophint(bb, mk):
    """replays a counterexample: mk(eval) -> list of driver operations"""
    def h(ex, o):
        m, x = small(ex, o, bb)
        if x is None: return None
        ev = lambda t: m.eval(t, model_completion=True).as_long()
        return (x[0], x[1], mk(ev))
    return h


def read_thm(name, sym, width):
    @simple(sym, uses=("peek32", "peek64", "consume", "rem", "seek"))
    def g(R, ex, st, bb):
        n = z3.Const("n", B64); st.assume(n != 0)
        dst = ex.new_region(st, "val", width // 8); st.mem[(dst, 0)] = z3.Const("old", z3.BitVecSort(width))
        ok = z3.And(z3.ULE(n, bb.remaining(st)), z3.ULE(n, bv(width)))
        def post(s, rv):
            v = BITS(bb.A, bb.p0, n)
            return reader_post(bb, s) + [("succeeds exactly when the bits are there", rv == ok), ("the value read is the value at the position", z3.Implies(rv, s.mem[(dst, 0)] == simp(z3.Extract(width - 1, 0, v)))),
                                         ("the position moves past the bits read, and not at all on failure", bb.pos(s) == z3.If(ok, bb.p0 + n, bb.p0))]
        return [bb.ptr, n, Ptr.mk(("r", dst))], post, ophint(bb, lambda ev: ["%s:%d" % ("r" if width == 32 else "R", ev(n)), "rem"])
    THMS[name] = THMS.pop("g")


read_thm("ReadBits32", SIG["read32"][0], 32)
read_thm("ReadBits64", SIG["read64"][0], 64)


def fixed_thm(w):
    @simple(SIG["u%d" % w][0], uses=("read32", "read64", "peek32", "peek64", "consume", "rem"))
    def g(R, ex, st, bb):
        dst = ex.new_region(st, "val", w // 8); old = z3.Const("old", z3.BitVecSort(w)); st.mem[(dst, 0)] = old
        ok = z3.ULE(bv(w), bb.remaining(st))
        def post(s, rv):
            return reader_post(bb, s) + [("succeeds exactly when %d bits are there" % w, rv == ok), ("the value is the next %d bits" % w, z3.Implies(rv, s.mem[(dst, 0)] == simp(z3.Extract(w - 1, 0, BITS(bb.A, bb.p0, bv(w)))))),
                                         ("the position moves by %d, not at all on failure" % w, bb.pos(s) == z3.If(ok, bb.p0 + bv(w), bb.p0))]
        return [bb.ptr, Ptr.mk(("r", dst))], post, ophint(bb, lambda ev: ["u%d" % w, "rem"])
    THMS["ReadUInt%d" % w] = THMS.pop("g")


for _w in (8, 16, 32): fixed_thm(_w)


@simple(SIG["rem"][0])
def RemainingBitCount(R, ex, st, bb):
    def post(s, rv): return reader_post(bb, s) + [("the result is the number of bits left", rv == bb.remaining(st)), ("the position does not move", bb.pos(s) == bb.p0)]
    return [bb.ptr], post, ophint(bb, lambda ev: ["rem"])


@simple(SIG["consume"][0], uses=("rem",))
def ConsumeBits(R, ex, st, bb):
    n = z3.Const("n", B64); ok = z3.ULE(n, bb.remaining(st))
    def post(s, rv): return reader_post(bb, s) + [("succeeds exactly when the bits are there", rv == ok), ("the position moves by the count, not at all on failure", bb.pos(s) == z3.If(ok, bb.p0 + n, bb.p0))]
    return [bb.ptr, n], post, ophint(bb, lambda ev: ["c:%d" % ev(n), "rem"])


@simple(SIG["consumebytes"][0], uses=("rem", "consume"))
def ConsumeBytes(R, ex, st, bb):
    n = z3.Const("n", B64); ok = z3.And(z3.ULE(n, bv((2 ** 64 - 1) // 8)), z3.ULE(n * 8, bb.remaining(st)))
    def post(s, rv): return reader_post(bb, s) + [("succeeds exactly when the bytes are there", rv == ok), ("the position moves by 8 times the count, not at all on failure", bb.pos(s) == z3.If(ok, bb.p0 + n * 8, bb.p0))]
    return [bb.ptr, n], post, ophint(bb, lambda ev: ["C:%d" % ev(n), "rem"])


@simple(SIG["seek"][0])
def Seek(R, ex, st, bb):
    by, bi = z3.Const("by", B64), z3.Const("bi", B64)
    ok = z3.And(z3.ULE(bi, bv(7)), z3.ULE(by, bb.C), z3.ULE(by * 8 + bi, bb.C * 8))
    def post(s, rv): return reader_post(bb, s) + [("succeeds exactly for positions inside the buffer or at its end", rv == ok), ("the position is the requested one, unchanged on failure", bb.pos(s) == z3.If(ok, by * 8 + bi, bb.p0))]
    return [bb.ptr, by, bi], post, ophint(bb, lambda ev: ["s:%d:%d" % (ev(by), ev(bi)), "rem"])


@simple(SIG["offset"][0])
def GetCurrentOffset(R, ex, st, bb):
    a, b = ex.new_region(st, "ob", 8), ex.new_region(st, "oi", 8)
    def post(s, rv): return reader_post(bb, s) + [("the byte offset is reported", s.mem.get((a, 0), bv(0)) == z3.LShR(bb.p0, 3)), ("the bit offset is reported", s.mem.get((b, 0), bv(0)) == bb.p0 & 7), ("the position does not move", bb.pos(s) == bb.p0)]
    return [bb.ptr, Ptr.mk(("r", a)), Ptr.mk(("r", b))], post, None


@thm
def BitBufferCtor(V, deadline, box):
    for w, sym in ((False, BUF + "::BitBuffer(unsigned char const*, unsigned long)"), (True, WR + "::BitBufferWriter(unsigned char*, unsigned long)")):
        R = Run(V, "ctor", sym, deadline=deadline)
        if box: R.obls = box[0].obls; box[0] = R
        else: box.append(R)
        ex = R.exec(); st = State(); bb = BB(ex, st, w, pre=False); L = bb.lay
        for o in (L.bytes, L.count, L.off, L.bit) + ((L.wbytes,) if w else ()): del st.mem[(bb.rid, o)]
        st.assume(z3.ULT(bb.C, bv(1 << 32)))
        def post(s, rv):
            out = bb.frame(s) + [("the position is 0", bb.pos(s) == 0), ("the class invariant is established", mk_and(*bb.inv(s)))]
            if w: out.append(("the writable bytes are the buffer", T if ptr_same(s.mem[(bb.rid, L.wbytes)], Ptr.mk(("r", bb.data))) else F))
            return out
        R.go(ex, st, [bb.ptr, Ptr.mk(("r", bb.data)), bb.C], post)


@thm
def CountBits(V, deadline, box):
    R = Run(V, "CountBits", SIG["countbits"][0], deadline=deadline); box.append(R)
    ex = R.exec(); st = State(); v = z3.Const("v", B64)
    ex.unroll_limit[R.sym] = 70
    def post(s, w):
        return [("the result is at most 64", z3.ULE(w, bv(64))), ("no bit above the result is set", z3.Or(w == 64, z3.LShR(v, w) == 0)), ("the result is 0 only for 0", (w == 0) == (v == 0)),
                ("the highest counted bit is set", z3.Implies(v != 0, z3.LShR(v, w - 1) == 1))]
    R.go(ex, st, [v], post)


@simple(SIG["ue"][0], uses=("peek32", "peek64", "consume", "consumebytes", "read32", "read64", "seek", "rem", "offset"))
def ReadExponentialGolomb(R, ex, st, bb):
    dst = ex.new_region(st, "val", 4); st.mem[(dst, 0)] = z3.Const("old", B32)
    ok, v, e = ue_parts(ex, bb.A, bb.p0, bb.C)
    L = zeros(ex, bb.A, bb.p0, bb.C)
    def inst(ex, t): zeros_at(ex, bb.A, bb.p0, bb.C, simp(t - bb.p0)); zeros_at(ex, bb.A, bb.p0, bb.C, t)
    ex.loop_invariants = lambda fn, h, s: invloop.Inv(ghosts={"pos": bb.pos}, consts={"p0": bb.p0, "first one": simp(bb.p0 + L), "zeros": L},
        bufs=[bb], inst=inst)
    # no code is accepted whose value would be 2^32-1: 31 leading zeros at most
    def post(s, rv):
        w = L + 1
        if_ok = BITS(bb.A, bb.p0 + L, w)
        return reader_post(bb, s) + [("accepts exactly the complete codes with at most 31 leading zeros", rv == ok), ("the value is 2^z-1 plus the z bits after the first one", z3.Implies(rv, s.mem[(dst, 0)] == v)),
                                     ("the position moves past the code", z3.Implies(rv, bb.pos(s) == e)), ("a rejected code leaves the position where it was", z3.Implies(z3.Not(rv), bb.pos(s) == bb.p0))]
    return [bb.ptr, Ptr.mk(("r", dst))], post, ophint(bb, lambda ev: ["ue", "rem"])


@simple(SIG["se"][0], uses=("ue",))
def ReadSignedExponentialGolomb(R, ex, st, bb):
    dst = ex.new_region(st, "val", 4); st.mem[(dst, 0)] = z3.Const("old", B32)
    ok, v, e = ue_parts(ex, bb.A, bb.p0, bb.C)
    def post(s, rv):
        return reader_post(bb, s) + [("accepts exactly when the unsigned code is accepted", rv == ok), ("code k stands for (-1)^(k+1) ceil(k/2)", z3.Implies(rv, s.mem[(dst, 0)] == se_of(v))),
                                     ("the position moves past the code, not at all on failure", bb.pos(s) == z3.If(ok, e, bb.p0))]
    return [bb.ptr, Ptr.mk(("r", dst))], post, ophint(bb, lambda ev: ["se", "rem"])


@simple(BUF + "::ReadNonSymmetric(", uses=("read32", "read64", "peek32", "consume", "rem", "countbits"))
def ReadNonSymmetric(R, ex, st, bb):
    n = z3.Const("n", B32); st.assume(n != 0); st.assume(z3.ULE(n, bv(1 << 31, 32)))
    dst = ex.new_region(st, "val", 4); st.mem[(dst, 0)] = z3.Const("old", B32)
    N = zx(n, 64); w = uf("NBITS", B64, B64)(N); count_facts(ex, N, w)
    m = (bv(1) << w) - N
    pre = z3.If(w == 1, bv(0), BITS(bb.A, bb.p0, w - 1)); x = BITS(bb.A, bb.p0 + w - 1, bv(1))
    short = z3.ULT(pre, m)
    used = z3.If(short, w - 1, w)
    ok = z3.And(z3.ULE(w - 1, bb.remaining(st)), z3.ULE(used, bb.remaining(st)))
    def post(s, rv):
        return reader_post(bb, s) + [("accepts exactly the complete codes", rv == ok), ("the value is the ns(n) value", z3.Implies(rv, s.mem[(dst, 0)] == simp(z3.Extract(31, 0, z3.If(short, pre, pre * 2 + x - m))))),
                                     ("the position moves past the code", z3.Implies(rv, bb.pos(s) == bb.p0 + used))]
    return [bb.ptr, n, Ptr.mk(("r", dst))], post, ophint(bb, lambda ev: ["ns:%d" % ev(n), "rem"])


@simple(BUF + "::ReadBytes(", uses=("u8", "read32", "peek32", "consume", "rem"))
def ReadBytes(R, ex, st, bb):
    n = z3.Const("n", B64)
    out = ex.new_region(st, "out"); A1 = z3.Const("outbuf", ARR)
    st.mem[(out, "arr")] = A1; st.mem[(out, "alen")] = n
    arr = lambda s: s.mem[(out, "arr")]
    byte = lambda k: simp(z3.Extract(7, 0, BITS(bb.A, simp(bb.p0 + k * 8), bv(8))))
    st.assume(z3.ULT(n, bv(1 << 60)))                # a byte count that exists in memory
    fold = [("out[0..@) is read", lambda s, x: z3.Implies(z3.ULT(K, x), z3.Select(arr(s), K) == byte(K))), ("out[@..] is kept", lambda s, x: z3.Implies(z3.UGE(K, x), z3.Select(arr(s), K) == z3.Select(A1, K)))]
    ex.loop_invariants = lambda fn, h, s: invloop.Inv(ghosts={"pos": bb.pos}, consts={"n": n, "count": bb.C}, scale=(1, 8), fold=fold,
        bufs=[bb], facts=[("pos >= p0", lambda s: z3.UGE(bb.pos(s), bb.p0))])
    ok = z3.ULE(n * 8, bb.remaining(st))
    def post(s, rv):
        return reader_post(bb, s) + [("succeeds exactly when the bytes are there", rv == ok), ("every byte is the next 8 bits", z3.Implies(z3.And(rv, z3.ULT(K, n)), z3.Select(arr(s), K) == byte(K))),
                                     ("nothing after the requested bytes is touched", z3.Implies(z3.UGE(K, n), z3.Select(arr(s), K) == z3.Select(A1, K))),
                                     ("the position moves by 8 times the count", z3.Implies(rv, bb.pos(s) == bb.p0 + n * 8))]
    return [bb.ptr, n, Ptr.mk(("r", out))], post, ophint(bb, lambda ev: ["b:%d" % ev(n), "rem"])


# ------------------------------------------------------------------ bit writer
def write_bits(b):
  def f(V, deadline, box):
    """every start bit 0..7 and every count 0..64, symbolic value, bytes and position"""
    R = Run(V, "WriteBits", SIG["write"][0], uses=("rem", "consume"), deadline=deadline); box.append(R)
    if True:
        for n in range(65):
            ex = R.exec(); st = State(); bb = BB(ex, st, True, bit=b); v = z3.Const("v", B64)
            rem = bb.remaining(st); nb = (b + n + 7) // 8
            def post(s, rv, n=n, b=b, bb=bb, rem=rem, nb=nb, v=v):
                A2 = bb.arr(s); ok = z3.ULE(bv(n), rem)
                out = [("the class invariant is kept", mk_and(*bb.inv(s)))] + bb.frame(s)
                out.append(("succeeds exactly when the space is there", rv == ok))
                out.append(("the position moves by the count, not at all on failure", bb.pos(s) == z3.If(ok, bb.p0 + bv(n), bb.p0)))
                if n:
                    W = 8 * nb; sh = W - b - n; mask = ((1 << n) - 1) << sh
                    old, new = window(bb.A, bb.O, nb), window(A2, bb.O, nb)
                    val = z3.Extract(n - 1, 0, v)
                    val = z3.Concat(val, z3.BitVecVal(0, sh)) if sh else val
                    val = z3.ZeroExt(b, val) if b else val
                    want = (old & z3.BitVecVal(~mask & ((1 << W) - 1), W)) | val
                    out.append(("the bits at the position become the low bits of the value, their neighbours stay", z3.Implies(ok, new == want)))
                out.append(("no other byte changes", z3.Implies(z3.Or(z3.Not(ok), z3.UGE(K - bb.O, bv(nb))), z3.Select(A2, K) == z3.Select(bb.A, K))))
                return out
            R.go(ex, st, [bb.ptr, v, bv(n)], post, ophint(bb, lambda ev, v=v, n=n: ["w:%d:%d" % (ev(v), n), "rem"]), bb)
  return f


for _b in range(8): THMS["WriteBits@%d" % _b] = write_bits(_b)


def wr_post(bb, s, rv, ok, v, n):
    return [("the class invariant is kept", mk_and(*bb.inv(s)))] + bb.frame(s) + [
        ("succeeds exactly when the code is representable and fits", rv == ok),
        ("the code word is written", z3.Implies(ok, bb.arr(s) == written(bb.A, bb.p0, v, n))),
        ("nothing is written on failure", z3.Implies(z3.Not(ok), bb.arr(s) == bb.A)),
        ("the position moves past the code, not at all on failure", bb.pos(s) == z3.If(ok, bb.p0 + n, bb.p0))]


def wfixed(w):
    @simple(WR + "::WriteUInt%d(" % w, uses=("write", "rem", "consume"), writer=True)
    def g(R, ex, st, bb):
        v = z3.Const("v", z3.BitVecSort(w)); ok = z3.ULE(bv(w), bb.remaining(st))
        return [bb.ptr, v], (lambda s, rv: wr_post(bb, s, rv, ok, zx(v, 64), bv(w))), ophint(bb, lambda ev: ["w%d:%d" % (w, ev(v)), "rem"])
    THMS["WriteUInt%d" % w] = THMS.pop("g")


for _w in (8, 16, 32): wfixed(_w)


def ue_code(ex, x):
    """code word of value x (64 bit, below 2^32-1): x+1 in 2w-1 bits, w its length"""
    e = simp(x + 1); w = uf("NBITS", B64, B64)(e); count_facts(ex, e, w)
    return e, simp(w * 2 - 1)


@simple(WR + "::WriteExponentialGolomb(unsigned int)", uses=("write", "countbits"), writer=True)
def WriteExponentialGolomb(R, ex, st, bb):
    v = z3.Const("v", B32); e, n = ue_code(ex, zx(v, 64))
    ok = z3.And(v != bv(0xffffffff, 32), z3.ULE(n, bb.remaining(st)))
    return [bb.ptr, v], (lambda s, rv: wr_post(bb, s, rv, ok, e, n)), ophint(bb, lambda ev: ["wue:%d" % ev(v), "rem"])


@simple(WR + "::WriteSignedExponentialGolomb(int)", uses=("write", "countbits"), writer=True)
def WriteSignedExponentialGolomb(R, ex, st, bb):
    v = z3.Const("v", B32); s64 = sx(v, 64)
    k = z3.If(s64 > 0, s64 * 2 - 1, s64 * -2); e, n = ue_code(ex, k)
    ok = z3.And(v != bv(0x80000000, 32), z3.ULE(n, bb.remaining(st)))
    def h(ev):
        x = ev(v); x -= (1 << 32) if x >> 31 else 0
        return ["wse:%d" % x, "rem"]
    return [bb.ptr, v], (lambda s, rv: wr_post(bb, s, rv, ok, e, n)), ophint(bb, h)


def ns_code(ex, v, n):
    w = uf("NBITS", B64, B64)(n); count_facts(ex, n, w); m = (bv(1) << w) - n
    short = z3.ULT(v, m)
    return z3.If(short, v, v + m), z3.If(short, w - 1, w)


@simple(WR + "::WriteNonSymmetric(", uses=("write", "countbits"), writer=True)
def WriteNonSymmetric(R, ex, st, bb):
    v, n = z3.Const("v", B32), z3.Const("n", B32); st.assume(z3.ULT(v, n)); st.assume(z3.ULE(n, bv(1 << 31, 32)))
    c, w = ns_code(ex, zx(v, 64), zx(n, 64)); ok = z3.ULE(w, bb.remaining(st))
    return [bb.ptr, v, n], (lambda s, rv: wr_post(bb, s, rv, ok, c, w)), ophint(bb, lambda ev: ["wns:%d:%d" % (ev(v), ev(n)), "rem"])


@thm
def SizeNonSymmetricBits(V, deadline, box):
    R = Run(V, "SizeNonSymmetricBits", WR + "::SizeNonSymmetricBits(", uses=("countbits",), deadline=deadline); box.append(R)
    ex = R.exec(); st = State(); v, n = z3.Const("v", B32), z3.Const("n", B32); st.assume(z3.ULT(v, n)); st.assume(z3.ULE(n, bv(1 << 31, 32)))
    c, w = ns_code(ex, zx(v, 64), zx(n, 64))
    R.go(ex, st, [v, n], lambda s, rv: [("the result is the length of the code", rv == w)])


@thm
def RoundTrip(V, deadline, box):
    """lemmas over the contracts: reading a written code word gives the value back (ue, ns), and no accepted ue value is 2^32-1"""
    R = Run(V, "RoundTrip", SIG["countbits"][0], deadline=deadline); box.append(R)
    ex = R.exec(); ex.cur_loc = "lemma"
    for w in range(1, 33):
        st = State(); x = z3.Const("x", B64)                       # x = value + 1, w bits long
        st.assume(z3.LShR(x, w - 1) == 1)
        n = 2 * w - 1
        word = z3.Extract(n - 1, 0, x)
        if w > 1: ex.oblige(st, z3.Extract(n - 1, w, word) == 0, "lemma", "the code of a %d bit number starts with %d zeros" % (w, w - 1))
        ex.oblige(st, z3.Extract(w - 1, w - 1, word) == 1, "lemma", "then a one")
        ex.oblige(st, zx(z3.Extract(w - 1, 0, word), 64) - 1 == x - 1, "lemma", "and reads back as the value")
        ex.oblige(st, z3.Implies(x != (1 << 32), x - 1 != 0xffffffff), "lemma", "below 2^32-1")
    for w in range(1, 33):
        st = State(); v, n = z3.Const("v", B64), z3.Const("n", B64); m = bv(1 << w) - n
        st.assume(z3.LShR(n, w - 1) == 1); st.assume(z3.ULT(v, n)); st.assume(z3.ULE(n, bv(1 << 31)))
        long = v + m; pre = z3.LShR(long, 1); x = long & 1
        ex.oblige(st, z3.Implies(z3.ULT(v, m), z3.ULT(v, bv(1 << (w - 1)))), "lemma", "a short ns code fits %d bits" % (w - 1))
        ex.oblige(st, z3.Implies(z3.UGE(v, m), z3.And(z3.UGE(pre, m), z3.ULT(long, bv(1 << w)), pre * 2 + x - m == v)), "lemma", "a long ns code reads back as the value")
    st = State(); k = z3.Const("k", B32)
    s = se_of(k); s64 = sx(s, 64); st.assume(k != bv(0xffffffff, 32))
    ex.oblige(st, z3.If(s64 > 0, s64 * 2 - 1, s64 * -2) == zx(k, 64), "lemma", "the signed mapping and its inverse agree")
    R.cases = 1; R.collect(ex)


# ------------------------------------------------------------------ byte strings
class Data:
    """const uint8_t* data, size_t length"""
    def __init__(self, ex, st, limit=None):
        self.A = z3.Const("A", ARR); self.n = z3.Const("length", B64); self.rid = ex.new_region(st, "data")
        st.mem[(self.rid, "arr")] = self.A; st.mem[(self.rid, "alen")] = self.n
        self.ptr = Ptr.mk(("r", self.rid))
        if limit: st.assume(simp(z3.ULE(self.n, bv(limit))))
    def at(self, i): return z3.Select(self.A, simp(i))
    def unchanged(self, s): return s.mem[(self.rid, "arr")] == self.A


MAXLEN = 1 << 62         # no object is larger


@thm
def UnescapeRbsp(V, deadline, box):
    """output == the input without its emulation prevention bytes, as a fold over the input"""
    R = Run(V, "UnescapeRbsp", "h265nal::UnescapeRbsp(", hint="h265_common", deadline=deadline); box.append(R)
    ex = R.exec(); st = State(); d = Data(ex, st, MAXLEN)
    sret = ex.new_region(st, "sret", 24)
    OLEN, OARR = uf("OUTLEN", B64, B64), uf("OUTARR", B64, ARR)
    drop = lambda i: z3.And(z3.UGE(i, bv(2)), d.at(i) == 3, d.at(i - 1) == 0, d.at(i - 2) == 0)
    E = z3.Const("E", ARR)
    def define(ex, i):          # the fold's definition at i and at the following indices
        for k in range(4):
            t = simp(i + k)
            if not isc(t) or cval(t) < 2 ** 62:
                ndef(ex, t, OLEN(simp(t + 1)) == OLEN(t) + z3.If(drop(t), bv(0), bv(1)))
                ndef(ex, t, OARR(simp(t + 1)) == z3.If(drop(t), OARR(t), z3.Store(OARR(t), OLEN(t), d.at(t))))
    def vec(s):
        v = s.mem.get((sret, 0))
        if not isinstance(v, Vec): raise Unsupported("result vector")
        return v
    ex.pv.fact(OLEN(bv(0)) == 0); ex.pv.fact(OARR(bv(0)) == Vec.empty(EScal(1)).arrs[0]); define(ex, bv(0))
    ok = lambda s, x: z3.And(z3.Not(drop(x)), z3.Not(drop(x + 1)))
    fold = [("output length at @", lambda s, x: vec(s).len == OLEN(x)), ("output bytes at @", lambda s, x: vec(s).arrs[0] == OARR(x)),
            ("@ is not dropped", lambda s, x: z3.Or(x == d.n, z3.Not(drop(x)))), ("@+1 is not dropped", lambda s, x: z3.Or(z3.UGE(x + 1, d.n), z3.Not(drop(x + 1)))),
            ("@ <= length", lambda s, x: z3.ULE(x, d.n))]
    ex.loop_invariants = lambda fn, h, s: invloop.Inv(consts={"length": d.n}, fold=fold, inst=define)
    def post(s, rv):
        v = vec(s)
        return [("the output has the kept bytes only", v.len == OLEN(d.n)), ("the output is the kept bytes in order", v.arrs[0] == OARR(d.n)), ("the input is unchanged", d.unchanged(s))]
    R.go(ex, st, [Ptr.mk(("r", sret)), d.ptr, d.n], post)


def result_vec(ex, sret):
    def vec(s):
        v = s.mem.get((sret, 0))
        if not isinstance(v, Vec): raise Unsupported("result vector")
        return v
    return vec


BITSTREAM = "h265nal::H265BitstreamParser"


def nalu_index(mod):
    """member offsets of NaluIndex -> order of the vector's component arrays"""
    S = mod.structs(); q = BITSTREAM + "::NaluIndex"
    if q not in S: raise Unsupported("NaluIndex not found")
    m = {n: o for n, o, sz, b in mod.members(S[q]) if sz == 8}
    try: offs = [m["start_offset"], m["payload_start_offset"], m["payload_size"]]
    except KeyError as e: raise Unsupported("NaluIndex member %s" % e)
    order = sorted(m.values())
    return [order.index(o) for o in offs], len(order)


@thm
def FindNaluIndices(V, deadline, box):
    """the units are those of a scan for 00 00 01: each starts at its start code (a zero byte before it belongs to it), its payload
       begins after the code and ends where the next unit starts, the last one at the end of the data"""
    R = Run(V, "FindNaluIndices", BITSTREAM + "::FindNaluIndices(", hint="h265_bitstream_parser", deadline=deadline); box.append(R)
    ex = R.exec(); st = State(); d = Data(ex, st, MAXLEN); sret = ex.new_region(st, "sret", 24)
    ix, nf = nalu_index(ex.mod)
    if nf != 3: raise Unsupported("NaluIndex has other members")
    vec = result_vec(ex, sret)
    AI = z3.ArraySort(B64, B64)
    N = uf("UNITS", B64, B64); F_ = [uf("UNIT_" + x, B64, AI) for x in ("start", "payload", "size")]
    sc = lambda t: z3.And(z3.ULE(t + 3, d.n), d.at(t) == 0, d.at(t + 1) == 0, d.at(t + 2) == 1)
    start = lambda t: z3.If(z3.And(z3.UGT(t, bv(0)), d.at(t - 1) == 0), t - 1, t)
    def define(ex, i):
        for k in range(4):
            t = simp(i + k); u = simp(t + 1); n = N(t)
            if isc(t) and cval(t) > 2 ** 62: continue
            ndef(ex, t, N(u) == z3.If(sc(t), n + 1, n))
            ST, PS, SZ = (f(t) for f in F_)
            ndef(ex, t, F_[0](u) == z3.If(sc(t), z3.Store(ST, n, start(t)), ST))
            ndef(ex, t, F_[1](u) == z3.If(sc(t), z3.Store(PS, n, t + 3), PS))
            ndef(ex, t, F_[2](u) == z3.If(sc(t), z3.Store(z3.If(n != 0, z3.Store(SZ, n - 1, start(t) - z3.Select(PS, n - 1)), SZ), n, bv(0)), SZ))
    ex.pv.fact(N(bv(0)) == 0)
    e0 = Vec.empty(EStruct(24, [(0, EScal(8)), (8, EScal(8)), (16, EScal(8))])).arrs[0]
    for f in F_: ex.pv.fact(f(bv(0)) == e0)
    define(ex, bv(0))
    if True:                      # after the last possible start code nothing changes
        for k in range(3): define(ex, simp(d.n - k))
    fold = [("units before @", lambda s, x: vec(s).len == N(x))] + [("%s of the units before @" % nm, lambda s, x, i=i, f=f: vec(s).arrs[ix[i]] == f(x)) for i, (nm, f) in enumerate(zip(("start", "payload", "size"), F_))]
    fold += [("@ <= length", lambda s, x: z3.ULE(x, d.n)), ("as many units as bytes at most", lambda s, x: z3.ULE(vec(s).len, x))]
    ex.loop_invariants = lambda fn, h, s: invloop.Inv(consts={"length": d.n}, fold=fold, inst=define)
    def post(s, rv):
        v = vec(s); n = N(d.n)
        last = z3.If(n != 0, z3.Store(F_[2](d.n), n - 1, d.n - z3.Select(F_[1](d.n), n - 1)), F_[2](d.n))
        return [("one unit per start code", v.len == n), ("start offsets", v.arrs[ix[0]] == F_[0](d.n)), ("payload offsets", v.arrs[ix[1]] == F_[1](d.n)),
                ("payload sizes: up to the next unit, the last one to the end", v.arrs[ix[2]] == last), ("the input is unchanged", d.unchanged(s))]
    R.go(ex, st, [Ptr.mk(("r", sret)), d.ptr, d.n], post)


@thm
def FindNaluIndicesExplicitFraming(V, deadline, box):
    """the units are the chain of 4-byte big-endian lengths from offset 0, up to the first that is incomplete or does not fit"""
    R = Run(V, "FindNaluIndicesExplicitFraming", BITSTREAM + "::FindNaluIndicesExplicitFraming(", hint="h265_bitstream_parser", deadline=deadline); box.append(R)
    ex = R.exec(); st = State(); d = Data(ex, st, MAXLEN); sret = ex.new_region(st, "sret", 24)
    ix, nf = nalu_index(ex.mod)
    if nf != 3: raise Unsupported("NaluIndex has other members")
    vec = result_vec(ex, sret)
    U = uf("FRAME", B64, B64)                                        # offset of frame number u
    be = lambda p: zx(z3.Concat(*[d.at(p + i) for i in range(4)]), 64)
    fits = lambda p: z3.And(z3.ULE(p, d.n), z3.UGE(d.n - p, bv(4)), z3.ULE(be(p), d.n - p - 4))
    def define(ex, u):
        for k in range(2): t = simp(u + k); ndef(ex, t, U(simp(t + 1)) == U(t) + 4 + be(U(t)))
    ex.pv.fact(U(bv(0)) == 0)
    def at_k(s):
        v = vec(s)
        return z3.Implies(z3.ULT(K, v.len), z3.And(fits(U(K)), *[z3.Select(v.arrs[ix[i]], K) == (U(K), U(K) + 4, be(U(K)))[i] for i in range(3)]))
    fold = [("@ is the offset of the next frame", lambda s, x: x == U(vec(s).len)), ("@ <= length", lambda s, x: z3.ULE(x, d.n))]
    I = lambda fn, h, s: invloop.Inv(ghosts={"frames": lambda s: vec(s).len}, consts={"length": d.n}, fold=fold, inst=define, facts=[("every frame so far", at_k), ("frame count is bounded", lambda s: z3.ULE(vec(s).len, U(vec(s).len)))])
    ex.loop_invariants = I
    def post(s, rv):
        v = vec(s)
        return [("every unit is a frame that fits: offset, offset+4, length", at_k(s)), ("the chain stops only where no complete frame follows", z3.Not(fits(U(v.len)))), ("the input is unchanged", d.unchanged(s))]
    R.go(ex, st, [Ptr.mk(("r", sret)), d.ptr, d.n], post)


def at(*names): return [n + "@%d" % b for n in names for b in range(8)]


STREAM_A = ["ParseBitstream", "ParseBitstream (empty state)"]; STREAM_L = ["read_nalu_length", "ParseBitstreamNALULength", "ParseBitstreamNALULength (empty state)"]
GROUPS = {
    "P08": [["GetNalUnitType"]],
    "P10": [["GetVps", "GetSps", "GetPps"], STREAM_A],
    "P25": [["byte_aligned", "get_current_offset", "more_rbsp_data", "rbsp_trailing_bits"]], "P32": [["GetNaluChecksum"], ["ChecksumFold"]],
    "P01": [["PositionSplit"]] + [[n] for n in at("PeekBits64")] + [[n] for n in at("PeekBits32")] + [["BitBufferCtor", "RemainingBitCount", "ReadBits32", "ReadBits64", "ReadUInt8", "ReadUInt16", "ReadUInt32", "ReadBytes", "ConsumeBits", "ConsumeBytes", "Seek", "GetCurrentOffset"]],
    "P02": [["CountBits", "ReadSignedExponentialGolomb", "ReadNonSymmetric"], ["ReadExponentialGolomb"]],
    "P03": [[n] for n in at("WriteBits")] + [["WriteUInt8", "WriteUInt16", "WriteUInt32", "WriteExponentialGolomb", "WriteSignedExponentialGolomb", "WriteNonSymmetric", "SizeNonSymmetricBits", "CountBits", "RoundTrip"]],
    "P04": [["UnescapeRbsp"]], "P05": [["FindNaluIndices"], ["UnitsDisjoint"], STREAM_A], "P06": [["FindNaluIndicesExplicitFraming"], STREAM_L],
    "P11": [STREAM_A], "P33": [["GetSliceQpYStream", "GetSliceQpYRtp"]],
}


def task(names, kind=None, tier="quick", seed=1):
    """verifies the named functions; failed obligations are replayed on the real code"""
    import bytesmore
    V = verify.Verifier()
    out = dict(violations=[], undecided=[], obligations=0, discharged=0, cases=0, distinct=0, tq=0, modelled=set(), called=set(), functions=[])
    cand = []
    for n in names:
        r = verify_one(V, n, 300 if tier == "quick" else 900)
        out["obligations"] += r["n"]; out["discharged"] += r["discharged"]; out["tq"] += r["tq"]
        out["modelled"] |= set(r["modelled"]); out["called"] |= set(r["called"])
        out["functions"].append(dict(name=n, status=r["status"], obligations=r["n"], discharged=r["discharged"], symbolic_cases=r["cases"], queries=r["nq"], seconds=round(r["time"], 1), undecided=r["undecided"]))
        if r["status"] == "undecided":
            out["undecided"].append("%s: %s" % (n, r["undecided"] or "%d obligations undecided, first: %s" % (len(r["unknown"]), r["unknown"][0]["desc"])))
        if r["failed"]:
            got = replay(n, r["hints"])
            for w in got: w["obligation"] = r["failed"][0]["desc"]
            if got: out["violations"] += got
            elif r["tainted"] or r["undecided"]: out["undecided"].append("%s: obligation not discharged after a loop abstraction: %s" % (n, r["failed"][0]["desc"]))
            else: out["violations"].append(dict(what="%s: %s" % (n, r["failed"][0]["desc"]), loc=r["failed"][0]["loc"], failed=r["failed"], soft=0))
    out["modelled"] = sorted(out["modelled"]); out["called"] = sorted(out["called"])
    return out


def replay(name, hints):
    """counterexamples on the real code, judged by the reference bit reader of ops.py"""
    import ops
    hs = [h for h in hints if h]
    if not hs: return []
    cases = []
    for hexs, p, l in hs:
        data = bytes.fromhex(hexs) if hexs != "-" else b""
        cases.append(ops.ops_case("wops" if l[0][0] == "w" else "ops", data, p, l))
    try: return ops.run(cases, timeout=100)["violations"]
    except Exception as e: return []


def main():
    V = verify.Verifier()
    for n in sys.argv[1:] or list(THMS):
        r = verify_one(V, n)
        print("%-30s %-9s n=%d proved=%d cases=%d %.1fs q=%d %s" % (n, r["status"], r["n"], r["discharged"], r["cases"], r["time"], r["nq"], r["undecided"] or ""), flush=True)
        for o in (r["failed"] + r["unknown"])[:6]: print("    ", o["kind"], o["desc"], o["loc"])
        for h in r["hints"][:3]: print("     input:", h)


if __name__ == "__main__": main()
