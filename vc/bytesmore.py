"""Contract proofs of further byte-level functions: end of payload, checksum, and lemmas over the unit scan."""
import z3
from bytesvc import *
import bytesvc as BT
from sym import *

CM = "h265_common"


# ------------------------------------------------------------------ lemmas
@thm
def PositionSplit(V, deadline, box):
    """the bit position p = 8*byte + bit determines the two offsets, and the class invariant is p <= 8*count"""
    R = Run(V, "PositionSplit", SIG["rem"][0], deadline=deadline); box.append(R)
    ex = R.exec(); ex.cur_loc = "lemma"; st = State()
    o, b, c, p = (z3.Const(x, B64) for x in ("o", "b", "c", "p"))
    st.assume(z3.ULT(c, bv(1 << 32))); s2 = st.copy()
    inv = mk_and(z3.ULE(o, c), z3.ULE(b, bv(7)), mk_or(mk_not(o == c), b == 0))
    s2.assume(inv); q = o * 8 + b
    ex.oblige(s2, z3.And(z3.LShR(q, 3) == o, q & 7 == b, z3.ULE(q, c * 8)), "lemma", "offsets under the invariant are quotient and remainder of a position inside the buffer")
    st.assume(z3.ULE(p, c * 8)); o2, b2 = z3.LShR(p, 3), p & 7
    ex.oblige(st, z3.And(o2 * 8 + b2 == p, z3.ULE(o2, c), z3.ULE(b2, bv(7)), z3.Or(o2 != c, b2 == 0)), "lemma", "quotient and remainder of a position inside the buffer satisfy the invariant")
    R.cases = 1; R.collect(ex)


@thm
def UnitsDisjoint(V, deadline, box):
    """induction over the scan of FindNaluIndices: units lie inside the data, in order, each payload ends where the next unit begins"""
    R = Run(V, "UnitsDisjoint", BITSTREAM + "::FindNaluIndices(", hint="h265_bitstream_parser", deadline=deadline); box.append(R)
    ex = R.exec(); ex.cur_loc = "lemma"; st = State(); d = Data(ex, st, MAXLEN)
    AI = z3.ArraySort(B64, B64)
    sc = lambda t: z3.And(z3.ULE(t + 3, d.n), d.at(t) == 0, d.at(t + 1) == 0, d.at(t + 2) == 1)
    start = lambda t: z3.If(z3.And(z3.UGT(t, bv(0)), d.at(t - 1) == 0), t - 1, t)
    n, i = z3.Const("n", B64), z3.Const("i", B64)
    ST, PS, SZ = (z3.Const(x, AI) for x in ("ST", "PS", "SZ")); k = z3.Const("k", B64)
    S = lambda a, j: z3.Select(a, j)
    def P(n, ST, PS, SZ, i, k):
        return z3.And(z3.ULE(n, i), z3.Implies(n != 0, z3.And(z3.UGE(S(PS, n - 1), bv(3)), z3.ULE(S(PS, n - 1), i + 2), z3.ULE(S(PS, n - 1), d.n), d.at(S(PS, n - 1) - 1) == 1, z3.ULT(S(ST, n - 1), S(PS, n - 1)))),
                      z3.Implies(z3.And(z3.ULT(k + 1, n), z3.ULT(k, n)), z3.And(z3.ULT(S(ST, k), S(PS, k)), S(PS, k) + S(SZ, k) == S(ST, k + 1), z3.ULE(S(PS, k), S(ST, k + 1)), z3.ULE(S(ST, k + 1), d.n))))
    e0 = Vec.empty(EStruct(24, [(0, EScal(8)), (8, EScal(8)), (16, EScal(8))])).arrs[0]
    ex.oblige(st, P(bv(0), e0, e0, e0, bv(0), k), "lemma", "before the first byte nothing is recorded")
    s = st.copy(); s.assume(z3.ULT(i, d.n)); s.assume(P(n, ST, PS, SZ, i, k))
    c = sc(i)
    n2 = z3.If(c, n + 1, n); ST2 = z3.If(c, z3.Store(ST, n, start(i)), ST); PS2 = z3.If(c, z3.Store(PS, n, i + 3), PS)
    SZ2 = z3.If(c, z3.Store(z3.If(n != 0, z3.Store(SZ, n - 1, start(i) - S(PS, n - 1)), SZ), n, bv(0)), SZ)
    for nm, lit in (("a start code", c), ("no start code", z3.Not(c))):
        t = s.copy(); t.assume(lit)
        ex.oblige(t, P(n2, ST2, PS2, SZ2, i + 1, k), "lemma", "the step keeps order and bounds (%s)" % nm)
    t = st.copy(); t.assume(P(n, ST, PS, SZ, d.n, k)); t.assume(n != 0)
    ex.oblige(t, z3.And(z3.ULE(S(PS, n - 1), d.n), S(PS, n - 1) + (d.n - S(PS, n - 1)) == d.n), "lemma", "the last payload ends at the end of the data")
    R.cases = 1; R.collect(ex)


# ------------------------------------------------------------------ end of payload (7.2)
def cm_thm(name, sym, uses, full=False):
    def deco(g):
        def f(V, deadline, box):
            R = Run(V, name, sym, hint=CM, uses=uses, deadline=deadline); box.append(R)
            g(R)
        THMS[name] = f; return g
    return deco


@cm_thm("byte_aligned", "h265nal::byte_aligned(", ("offset",))
def _(R):
    ex = R.exec(); st = State(); bb = BB(ex, st)
    R.go(ex, st, [bb.ptr], lambda s, rv: reader_post(bb, s) + [("true exactly on a byte boundary", rv == (bb.p0 & 7 == 0)), ("the position does not move", bb.pos(s) == bb.p0)])


@cm_thm("get_current_offset", "h265nal::get_current_offset(", ("offset",))
def _(R):
    ex = R.exec(); st = State(); bb = BB(ex, st)
    R.go(ex, st, [bb.ptr], lambda s, rv: reader_post(bb, s) + [("the number of bytes begun before the position", rv == z3.LShR(bb.p0 + 7, 3)), ("the position does not move", bb.pos(s) == bb.p0)])


@cm_thm("more_rbsp_data", "h265nal::more_rbsp_data(", ("rem", "peek32", "peek64"))
def _(R):
    ex = R.exec(); st = State(); bb = BB(ex, st, joint=True); rem = bb.remaining(st)
    v = BITS(bb.A, bb.p0, rem)
    want = z3.If(rem == 0, F, z3.If(z3.UGT(rem, bv(8)), T, v != (bv(1) << (rem - 1))))
    ex.pv.fact(z3.Implies(z3.And(rem != 0, z3.ULE(rem, bv(8))), z3.ULT(v, bv(1) << rem)))     # definition of BITS
    R.go(ex, st, [bb.ptr], lambda s, rv: reader_post(bb, s) + [("more data exactly when the remaining bits are not a 1 followed by zeros", rv == want), ("the position does not move", bb.pos(s) == bb.p0)])


@cm_thm("rbsp_trailing_bits", "h265nal::rbsp_trailing_bits(", ())
def _(R):
    for b in range(8):
        ex = R.exec(); st = State(); bb = BB(ex, st, bit=b); ex.unroll_limit[R.sym] = 10
        low = z3.Extract(7 - b, 0, z3.Select(bb.A, bb.O))
        ok = z3.And(z3.ULT(bb.O, bb.C), low == (1 << (7 - b)))
        R.go(ex, st, [bb.ptr], lambda s, rv: reader_post(bb, s) + [("accepted exactly when a 1 and zeros up to the byte boundary follow", rv == ok),
             ("accepted trailing bits are consumed up to the byte boundary", z3.Implies(ok, bb.pos(s) == bb.O * 8 + 8))])


# ------------------------------------------------------------------ checksum
def fold32(s):
    a = simp(z3.LShR(s, 32) + (s & 0xffffffff)); return simp((z3.LShR(a, 32) + a) & 0xffffffff)


@thm
def ChecksumFold(V, deadline, box):
    """the fold is the ones' complement sum: congruent modulo 2^32-1, in 1..2^32-1, 0 only for 0"""
    R = Run(V, "ChecksumFold", SIG["rem"][0], deadline=deadline); box.append(R)
    ex = R.exec(); ex.cur_loc = "lemma"; st = State(); s = z3.Const("s", B64); st.assume(z3.ULT(s, bv(1 << 62)))
    f = fold32(s); h = z3.LShR(s, 32); a = h + (s & 0xffffffff); q = h + z3.LShR(a, 32)
    ex.oblige(st, s == f + (q << 32) - q, "lemma", "congruent to the sum modulo 2^32-1")
    ex.oblige(st, (f == 0) == (s == 0), "lemma", "zero only for the empty sum")
    ex.oblige(st, z3.ULE(f, bv(0xffffffff)), "lemma", "32 bits")
    R.cases = 1; R.collect(ex)


@thm
def GetNaluChecksum(V, deadline, box):
    R = Run(V, "GetNaluChecksum", "h265nal::NaluChecksum::GetNaluChecksum(", hint=CM, uses=("rem", "u8", "u16", "u32", "read32", "seek", "offset", "consume", "peek32"), deadline=deadline); box.append(R)
    def bswap(ex, st, args, ins):
        v = args[0]; return [(st, simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(4)])))]
    for k in range(4):           # bytes in the tail
      ex = R.exec({"htonl": bswap, "ntohl": bswap}); st = State(); bb = BB(ex, st, joint=True)
      ex.unroll_limit[R.sym] = 8
      sret = ex.new_region(st, "sret", 16)
      p0 = bb.p0; r5 = z3.Concat(z3.BitVecVal(k, 2), z3.Const("tail_bits", z3.BitVecSort(3))); w59 = z3.Const("words", z3.BitVecSort(59))
      ex.pv.fact(bb.remaining(st) == z3.Concat(w59, r5))            # names for quotient and remainder by 32
      W = z3.Concat(w59, z3.BitVecVal(0, 5)); end = simp(p0 + W)
      SUM = uf("WORDSUM", B64, B64)                 # sum of the words between the start and a position
      E8 = simp(bv(8) * bb.C)
      def at_end(t): return z3.Implies(z3.And((t - p0) & 31 == 0, z3.UGE(t, p0), z3.ULE(t, E8), z3.ULT(E8 - t, bv(32))), t == end)
      ex.cur_loc = "lemma"; ex.oblige(st, at_end(z3.Const("t", B64)), "lemma", "the last whole word ends at the quotient")
      def define(ex, i):
          ex.pv.fact(at_end(i))
          for t in (simp(i - 32), i): ex.pv.fact(z3.Implies(z3.And(z3.UGE(t, p0), z3.ULE(t, E8)), SUM(simp(t + 32)) == SUM(t) + zx(z3.Extract(31, 0, BITS(bb.A, simp(t), bv(32))), 64)))
      ex.pv.fact(SUM(p0) == 0)
      fold = [("@ is the sum of the words so far", lambda s, x: x == SUM(bb.pos(s)))]
      ex.loop_invariants = lambda fn, h, s: invloop.Inv(ghosts={"pos": bb.pos}, consts={"p0": p0}, bufs=[bb], fold=fold, inst=define,
          facts=[("whole words", lambda s: (bb.pos(s) - p0) & 31 == 0), ("pos >= p0", lambda s: z3.UGE(bb.pos(s), p0))])
      tail = bv(0)
      for i in range(k): tail = tail + ((z3.Extract(63, 0, zx(z3.Extract(7, 0, BITS(bb.A, simp(end + 8 * i), bv(8))), 64)) << (8 * (3 - i))))
      total = SUM(end) + tail
      want = simp(z3.Extract(31, 0, ~fold32(total)))
      cls = "h265nal::NaluChecksum"; S = ex.mod.structs(); m = {n: (o, sz) for n, o, sz, b_ in ex.mod.members(S[cls])}
      oc, ol = m["checksum"][0], m["length"][0]
      def post(s, rv):
          p = s.mem.get((sret, 0))
          if not isinstance(p, Ptr) or not p.single or p.alts[0][1][0] != "r": raise Unsupported("result pointer")
          rid = p.alts[0][1][1]; base = p.alts[0][2].term().as_long()
          g = lambda o, n: ex.load(s, Ptr.mk(("r", rid), Off(base + o)), n) if False else s.mem.get((rid, base + o))
          w = g(oc, 4); ln = g(ol, 4)
          if w is None or ln is None: raise Unsupported("checksum cells %s" % [k for k in s.mem if k[0] == rid])
          if z3.is_bv(w) and w.size() == 8: w = z3.Concat(*[g(oc + i, 1) for i in (3, 2, 1, 0)])
          by = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, w) for i in range(4)])      # memory order
          return reader_post(bb, s) + [("the four bytes are the complement of the ones' complement sum, high byte first", by == want), ("its length is four", zx(ln, 64) == 4), ("the read position is restored", bb.pos(s) == p0)]
      R.go(ex, st, [Ptr.mk(("r", sret)), bb.ptr], post)


# ------------------------------------------------------------------ parameter set lookups
STATE = "h265nal::H265BitstreamParserState"


def lookup_thm(kind):
    name = "Get%s" % kind.capitalize()
    @thm
    def f(V, deadline, box):
        """the stored set under the id, null when there is none; the store is not changed"""
        R = Run(V, name, STATE + "::%s(unsigned int) const" % name, hint="h265_bitstream_parser_state", deadline=deadline); box.append(R)
        ex = R.exec(); st = State(); rid = ex.new_region(st, "world", 1 << 20); this = Ptr.mk(("r", rid)); sret = ex.new_region(st, "sret", 16)
        from specrun import WVal
        from dit import struct_info
        import contracts
        si = struct_info(ex.mod, STATE)
        w = WVal(STATE, {f: MapV(si.fields[f][1].to, z3.Const("w_%s_has" % f, z3.ArraySort(B32, BOOL)), z3.Const("w_%s_val" % f, z3.ArraySort(B32, B64))) for f in si.order})
        contracts.write_world(ex, st, this, w)
        k = z3.Const("id", B32); m = w.d[kind]
        def post(s, rv):
            p = s.mem.get((sret, 0))
            if p is None: raise Unsupported("no result")
            h = ex.handle(s, p) if isinstance(p, Ptr) else p
            w2 = contracts.read_world(ex, s, this, STATE)
            m2, m0 = w2.d, w.d
            same = mk_and(*[mk_and(m2[f].has == m0[f].has, m2[f].val == m0[f].val) for f in si.order])
            return [("the set stored under the id, or null", h == z3.If(z3.Select(m.has, k), z3.Select(m.val, k), bv(0))), ("the store is unchanged", same)]
        R.go(ex, st, [Ptr.mk(("r", sret)), this, k], post)
    THMS[name] = f; THMS.pop("f", None)


for _k in ("vps", "sps", "pps"): lookup_thm(_k)


# ------------------------------------------------------------------ entry points taking bytes
STREAM = uf("STREAM", ARR, B64, B64)             # bit stream over the bytes of an array
def UNESC(A, n): return uf("UNESC_ARR", ARR, B64, ARR)(A, n), uf("UNESC_LEN", ARR, B64, B64)(A, n)
RAW = {"nal_unit_unescaped", "hvcc"}             # entries whose bytes are already unescaped


def bytes_at(ex, st, p):
    """array and length behind a byte pointer that points to the start of a buffer"""
    p = ex.aptr(p)
    if not p.single: raise Unsupported("byte pointer with several targets")
    b, o = p.alts[0][1], p.alts[0][2]
    if b[0] == "r" and (b[1], "arr") in st.mem: return st.mem[(b[1], "arr")], st.mem[(b[1], "alen")], simp(o.term())
    if b[0] == "d":
        v = ex.get_vec(st, b[1], EScal(1)); return v.arrs[0], v.len, simp(o.term())
    raise Unsupported("byte pointer %s" % (b[0],))


def k_unescape(ex, st, args, ins):
    """UnescapeRbsp(data, length): the bytes without emulation prevention (proved as UnescapeRbsp)"""
    sret, p, n = args; A, ln, o = bytes_at(ex, st, p)
    ex.oblige(st, z3.And(o == 0, z3.ULE(n, ln)), "pre", "the bytes to unescape are inside the buffer")
    B, m = UNESC(A, simp(n)); ex.pv.fact(z3.ULE(m, n))
    ex.put_abs(st, ex.aptr(sret), Vec(EScal(1), m, [B])); return [(st, None)]


def k_bbctor(ex, st, args, ins):
    """BitBuffer(bytes, count)"""
    this, p, n = args; A, ln, o = bytes_at(ex, st, p)
    ex.oblige(st, z3.And(o == 0, z3.ULE(n, ln)), "pre", "the bit buffer lies inside the bytes")
    import contracts, specrun
    S = STREAM(A, simp(n)); ex.pv.fact(specrun.tot(S) == simp(n * 8))
    ex.put_abs(st, ex.aptr(this), BitBuf(S, bv(0))); return [(st, None)]


def entry_thm(name, cls_fn, hint, raw=False, inner=None):
    """F(data, length, args...) is F(bit buffer over the unescaped bytes, args...), called once"""
    def f(V, deadline, box):
        R = Run(V, name, cls_fn + "(unsigned char const*, unsigned long", hint=hint, deadline=deadline); box.append(R)
        mod2, isym = V.symbol((inner or cls_fn) + "(h265nal::BitBuffer*", hint)
        _, us = V.symbol("h265nal::UnescapeRbsp(", CM); _, ctor = V.symbol(BUF + "::BitBuffer(unsigned char const*, unsigned long)", RT)
        H, OK = z3.Const("result", B64), z3.Const("accepted", BOOL)
        rec = {}
        def callee(ex, st, args, ins):
            import contracts
            bb = contracts.get_bb(ex, st, args[1])
            A, n = d.A, d.n
            want = STREAM(A, n) if raw else STREAM(*UNESC(A, n))
            ex.oblige(st, z3.And(bb.s == want, bb.pos == 0), "pre", "the parser gets the start of the %s bytes" % ("given" if raw else "unescaped"))
            rest = args[2:]
            if len(rest) != len(extra): raise Unsupported("arguments of the inner parser")
            for i, (x, y) in enumerate(zip(rest, extra)):
                same = val_same(x, y) if not (z3.is_expr(x) and z3.is_expr(y)) else None
                ex.oblige(st, (T if same else F) if same is not None else (F if x.sort() != y.sort() else x == y), "pre", "argument %d is passed on" % (i + 1))
            c = st.mem.get(("calls",), bv(0)); st.mem[("calls",)] = simp(c + 1)
            s2 = st.copy(); out = []
            if st.assume(OK): ex.store(st, ex.aptr(args[0]), Ptr.mk(("h", H)), 8); out.append((st, None))
            if s2.assume(mk_not(OK)): ex.store(s2, ex.aptr(args[0]), NULL, 8); out.append((s2, None))
            return out
        ex = R.exec({isym: callee, us: k_unescape, ctor: k_bbctor, ctor.replace('C2E', 'C1E'): k_bbctor, ctor.replace('C1E', 'C2E'): k_bbctor}); st = State(); d = Data(ex, st, 1 << 29)
        ex.pv.fact(H != 0)
        sret = ex.new_region(st, "sret", 16)
        fn = ex.fn; extra = []
        for i, (pn, pty, at) in enumerate(fn.params[3:]):
            if isinstance(pty, ir.PtrTy) if hasattr(ir, "PtrTy") else pty is ir.PTR: extra.append(Ptr.mk(("r", ex.new_region(st, "arg%d" % i, 1 << 20))))
            elif pty.w == 1: extra.append(z3.Const("arg%d" % i, BOOL))
            else: extra.append(z3.Const("arg%d" % i, z3.BitVecSort(pty.w)))
        def post(s, rv):
            p = s.mem.get((sret, 0))
            if p is None: raise Unsupported("no result")
            h = ex.handle(s, p) if isinstance(p, Ptr) else p
            return [("the result is the parser's", h == z3.If(OK, H, bv(0))), ("the parser runs once", s.mem.get(("calls",), bv(0)) == 1), ("the bytes are unchanged", d.unchanged(s))]
        R.go(ex, st, [Ptr.mk(("r", sret)), d.ptr, d.n] + extra, post)
    THMS[name] = f


def entries():
    """one theorem per specified parser that has a byte entry point; -> {spec name: theorem name}"""
    import dsl
    V = verify.Verifier(); out = {}
    for n, sp in V.specs.items():
        if sp.kind != "syntax" or "(h265nal::BitBuffer*" not in (sp.cpp or ""): continue
        base = sp.cpp[:sp.cpp.index("(")]; hint = sp.attrs.get("file") or None
        try: V.symbol(base + "(unsigned char const*, unsigned long", hint)
        except Exception: continue
        entry_thm("bytes>" + n, base, hint); out[n] = "bytes>" + n
    return out


def entry_task(names, tier="quick", seed=1):
    """the byte entry points of the given specified parsers"""
    e = entries()
    todo = [e[n] for n in names if n in e]
    if "nal_unit" in names:
        entry_thm("bytes>nal_unit (unescaped)", "h265nal::H265NalUnitParser::ParseNalUnitUnescaped", "h265_nal_unit_parser", raw=True, inner="h265nal::H265NalUnitParser::ParseNalUnit"); todo.append("bytes>nal_unit (unescaped)")
    if "hvcc" in names:
        entry_thm("bytes>hvcc", "h265nal::H265ConfigurationBoxParser::ParseConfigurationBox", "h265_configuration_box_parser", raw=True); todo.append("bytes>hvcc")
    return BT.task(todo, tier=tier, seed=seed)


@thm
def GetNalUnitType(V, deadline, box):
    """true and the type of the header at the start of the data, or false when there is no header"""
    C = "h265nal::H265NalUnitHeaderParser"; hint = "h265_nal_unit_header_parser"
    R = Run(V, "GetNalUnitType", C + "::GetNalUnitType(", hint=hint, deadline=deadline); box.append(R)
    _, isym = V.symbol(C + "::ParseNalUnitHeader(h265nal::BitBuffer*", hint); _, bsym = V.symbol(C + "::ParseNalUnitHeader(unsigned char const*", hint)
    _, ctor = V.symbol(BUF + "::BitBuffer(unsigned char const*, unsigned long", RT)
    H, OK = z3.Const("result", B64), z3.Const("accepted", BOOL)
    def answer(ex, st, args):
        s2 = st.copy(); out = []
        if st.assume(OK): ex.store(st, ex.aptr(args[0]), Ptr.mk(("h", H)), 8); out.append((st, None))
        if s2.assume(mk_not(OK)): ex.store(s2, ex.aptr(args[0]), NULL, 8); out.append((s2, None))
        return out
    def over_bits(ex, st, args, ins):
        import contracts
        bb = contracts.get_bb(ex, st, args[1])
        ex.oblige(st, z3.And(z3.Or(bb.s == STREAM(d.A, d.n), bb.s == STREAM(*UNESC(d.A, d.n))), bb.pos == 0), "pre", "the header is parsed from the start of the data")
        return answer(ex, st, args)
    def over_bytes(ex, st, args, ins):
        A, ln, o = bytes_at(ex, st, args[1])
        ex.oblige(st, z3.And(o == 0, A == d.A, args[2] == d.n), "pre", "the header is parsed from the start of the data")
        return answer(ex, st, args)
    ex = R.exec({isym: over_bits, bsym: over_bytes, ctor.replace("C1E", "C2E"): k_bbctor, ctor.replace("C2E", "C1E"): k_bbctor}); st = State(); d = Data(ex, st, 1 << 29)
    ex.pv.fact(H != 0); out = ex.new_region(st, "type", 4)
    o, n = state_layout(ex, C + "::NalUnitHeaderState", ["nal_unit_type"])["nal_unit_type"]
    t = hf(ex, H, o, n)
    def post(s, rv):
        ok = rv if z3.is_bool(rv) else rv != 0
        v = s.mem.get((out, 0))
        if v is None: return [("false only when there is no header", mk_not(OK)), ("false is returned when there is no header", mk_not(ok))]
        return [("true exactly when there is a header", ok == OK), ("the type is the header's", z3.Implies(OK, v == z3.Extract(v.size() - 1, 0, t)))]
    R.go(ex, st, [d.ptr, d.n, Ptr.mk(("r", out))], post)


# ------------------------------------------------------------------ streams of NAL units
BSP = "h265nal::H265BitstreamParser"; NUP = "h265nal::H265NalUnitParser"


class World:
    """the parser state passed by pointer: three maps, as a tuple of six arrays"""
    def __init__(self, ex, st, tag="w", empty=False):
        from specrun import WVal
        from dit import struct_info
        import contracts
        self.ex = ex; si = struct_info(ex.mod, STATE); self.order = si.order; self.to = {f: si.fields[f][1].to for f in si.order}
        self.sorts = [x for _ in si.order for x in (z3.ArraySort(B32, BOOL), z3.ArraySort(B32, B64))]
        self.ts0 = [z3.Const("%s_%d" % (tag, i), s) for i, s in enumerate(self.sorts)]
        if empty: self.ts0 = [z3.K(B32, F), z3.K(B32, bv(0))] * len(si.order)
        if st is not None:
            rid = ex.new_region(st, "world", 1 << 20); self.ptr = Ptr.mk(("r", rid)); self.write(st, self.ptr, self.ts0)
    def write(self, st, p, ts):
        from specrun import WVal
        import contracts
        contracts.write_world(self.ex, st, p, WVal(STATE, {f: MapV(self.to[f], ts[2 * i], ts[2 * i + 1]) for i, f in enumerate(self.order)}))
    def read(self, st, p=None):
        import contracts
        d = contracts.read_world(self.ex, st, p if p is not None else self.ptr, STATE).d
        return [x for f in self.order for x in (d[f].has, d[f].val)]


class NalUnits:
    """ParseNalUnit(data, size, state, options) as a function of the bytes, the place, the state and the options (proved: byte entry point,
       nal_unit).  Distinct calls return distinct objects."""
    def __init__(self, ex, d, w, optw):
        self.ex, self.d = ex, d
        S = [ARR, B64, B64] + w.sorts + [z3.BitVecSort(optw)]
        self.h, self.ok = z3.Function("NALU", *S, B64), z3.Function("NALU_OK", *S, BOOL)
        self.w = [z3.Function("NALU_W%d" % i, *S, s) for i, s in enumerate(w.sorts)]
        self.world = w
    def args(self, off, n, ws, opt): return [self.d.A, simp(off), simp(n)] + list(ws) + [opt]
    def contract(self, sret=True):
        def f(ex, st, args, ins):
            ret, p, n, w, opt = args
            A, ln, o = bytes_at(ex, st, p)
            if not A.eq(self.d.A): raise Unsupported("NAL unit bytes from elsewhere")
            ex.oblige(st, z3.And(z3.ULE(o, ln), z3.ULE(n, ln - o)), "pre", "the unit's bytes are inside the data")
            w = ex.aptr(w); a = self.args(o, n, self.world.read(st, w), opt)
            h, ok = self.h(*a), self.ok(*a); ex.pv.fact(h != 0)
            self.world.write(st, w, [g(*a) for g in self.w])
            s2 = st.copy(); out = []
            if st.assume(ok): ex.store(st, ex.aptr(ret), Ptr.mk(("h", h)), 8); out.append((st, None))
            if s2.assume(mk_not(ok)): ex.store(s2, ex.aptr(ret), NULL, 8); out.append((s2, None))
            return out
        return f


class Units:
    """fold over the units: unit k lies at off(k), size(k)"""
    def __init__(self, ex, nu, w0, opt, off, size, lay):
        self.ex, self.nu, self.opt, self.off, self.size = ex, nu, opt, off, size
        self.W = [z3.Function("ST_W%d" % i, B64, s) for i, s in enumerate(nu.world.sorts)]
        self.CNT, self.LIST = z3.Function("ST_COUNT", B64, B64), z3.Function("ST_LIST", B64, z3.ArraySort(B64, B64))
        self.heap = {}
        for nm, (o, sz) in lay.items():
            s = z3.ArraySort(B64, z3.BitVecSort(8 * sz)); self.heap[nm] = (("heap", "%d:%d" % (o, sz)), z3.Function("ST_" + nm, B64, s), z3.Const("heap0_" + nm, s), 8 * sz)
        f = ex.pv.fact
        for g, t in zip(self.W, w0): f(g(bv(0)) == t)
        f(self.CNT(bv(0)) == 0); f(self.LIST(bv(0)) == Vec.empty(EScal(8)).arrs[0])
        for k, g, c, b in self.heap.values(): f(g(bv(0)) == c)
    def init(self, st):
        for k, g, c, b in self.heap.values(): st.mem[k] = c
    def define(self, i):
        f = lambda g: ndef(self.ex, i, g); n = simp(i + 1)
        a = self.nu.args(self.off(i), self.size(i), [g(i) for g in self.W], self.opt)
        h, ok = self.nu.h(*a), self.nu.ok(*a)
        for g, x in zip(self.W, self.nu.w): f(g(n) == x(*a))
        f(self.CNT(n) == self.CNT(i) + z3.If(ok, bv(1), bv(0)))
        f(self.LIST(n) == z3.If(ok, z3.Store(self.LIST(i), self.CNT(i), h), self.LIST(i)))
        for nm, (k, g, c, b) in self.heap.items():
            v = {"offset": self.off(i), "length": self.size(i)}[nm]
            v = zx(v, b) if b >= 64 else z3.Extract(b - 1, 0, v)
            f(g(n) == z3.If(ok, z3.Store(g(i), h, v), g(i)))


def state_layout(ex, cls, names):
    S = ex.mod.structs(); m = {n: (o, sz) for n, o, sz, b in ex.mod.members(S[cls])}
    try: return {n: m[n] for n in names}
    except KeyError as e: raise Unsupported("no member %s in %s" % (e, cls))


def opt_arg(ex, fn, i, st):
    pty = fn.params[i][1]
    return z3.Const("opt", z3.BitVecSort(pty.w)) if pty is not ir.PTR else None


def find_contract(ex, d, AI=z3.ArraySort(B64, B64)):
    """FindNaluIndices(data, length): the units of the scan (proved as FindNaluIndices, UnitsDisjoint)"""
    N = z3.Function("SCAN_N", ARR, B64, B64); FS = [z3.Function("SCAN_" + x, ARR, B64, AI) for x in ("start", "payload", "size")]
    n = N(d.A, d.n); fs = [f(d.A, d.n) for f in FS]
    def facts(k): ex.pv.fact(z3.Implies(z3.ULT(k, n), z3.And(z3.ULE(fs[1][k], d.n), z3.ULE(fs[2][k], d.n - fs[1][k]), z3.ULT(fs[0][k], fs[1][k]))))
    ex.pv.fact(z3.ULE(n, d.n))
    ix, nf = nalu_index(V_mod(ex))
    def f(ex, st, args, ins):
        sret, p, ln = args; A, l, o = bytes_at(ex, st, p)
        if not A.eq(d.A): raise Unsupported("scan of other bytes")
        ex.oblige(st, z3.And(o == 0, ln == d.n), "pre", "the whole data is scanned")
        arrs = [None] * 3
        for i in range(3): arrs[ix[i]] = fs[i]
        ex.put_abs(st, ex.aptr(sret), Vec(EStruct(24, [(0, EScal(8)), (8, EScal(8)), (16, EScal(8))]), n, arrs)); return [(st, None)]
    return f, n, fs, facts


def V_mod(ex): return ex.mod


def vec_cell(s, rid, off):
    v = s.mem.get((rid, off))
    if v is None: return Vec.empty(EScal(8))
    if not isinstance(v, Vec): raise Unsupported("vector cell")
    return v


class Framed:
    """ParseBitstreamNALULength: unit j follows the length field at P(j); the chain stops at the first one that is not complete or is empty"""
    def __init__(self, ex, d, nb):
        self.ex, self.d, self.nb = ex, d, nb
        self.P = z3.Function("FRAMED_P", ARR, B64, B64, B64, B64)      # offset of the field of frame j
        self.N = z3.Const("frames", B64)
    def pos(self, j): return self.P(self.d.A, self.d.n, self.nb, j)
    def val(self, j): return BEF(self.d.A, self.pos(j), self.nb)
    def off(self, j): return simp(self.pos(j) + self.nb)
    def size(self, j): return z3.If(self.nb == 0, self.d.n, self.val(j))
    def stop(self, j):
        rest = self.d.n - self.pos(j)
        return z3.Or(z3.UGE(self.pos(j), self.d.n), z3.And(self.nb != 0, z3.Or(z3.UGT(self.nb, rest), self.val(j) == 0, z3.UGT(self.val(j), rest - self.nb))))
    def facts(self, j):
        f = self.ex.pv.fact
        f(self.pos(bv(0)) == 0); f(self.stop(self.N)); f(z3.Implies(self.nb == 0, z3.And(self.pos(bv(1)) == self.d.n, z3.ULE(self.N, bv(1))))); st = self.stop(j); f(z3.Implies(z3.ULT(j, self.N), z3.Not(st))); f(z3.Or(z3.ULT(j, self.N), z3.UGT(j, self.N), st))
        ndef(self.ex, j, self.pos(simp(j + 1)) == self.off(j) + self.size(j))
        ndef(self.ex, j, z3.Or(st, z3.And(z3.ULE(self.pos(simp(j + 1)), self.d.n), z3.UGE(self.pos(simp(j + 1)), self.pos(j)))))       # lemma below
    def lemma(self, st):
        """a unit that does not stop the chain ends inside the data"""
        ex = self.ex; p, a, n = z3.Consts("p a n", B64)
        g = z3.Implies(z3.And(z3.ULE(p, n), z3.ULE(a, n - p)), z3.And(z3.ULE(p + a, n), z3.UGE(p + a, p)))       # with a = field, then with a = unit from p + field
        ex.obls.append(Obligation("lemma", "what fits after a place ends inside the data, after that place", "lemma", ex.pv.prove_plain([], g), None, 0.0, g, ()))
        j = z3.Const("j", B64)
        g = z3.Implies(z3.And(z3.ULE(p, n), z3.ULE(n, bv(MAXLEN)), z3.ULE(a, n - p), a != 0, z3.ULE(j, p)), z3.ULE(j + 1, p + a))
        ex.obls.append(Obligation("lemma", "unit j does not begin before byte j", "lemma", ex.pv.prove_plain([], g), None, 0.0, g, ()))
        ex.pv.fact(z3.ULE(self.N, n_of(self)))               # so there are at most as many units as bytes


def n_of(fr): return fr.d.n


BEF = uf("BEF", ARR, B64, B64, B64)              # value of the n bytes at p, most significant first, modulo 2^64
def bef_facts(ex, A, p, i):
    ex.pv.fact(BEF(A, p, bv(0)) == 0)
    ndef(ex, i, BEF(A, p, simp(i + 1)) == (BEF(A, p, i) << 8) + zx(z3.Select(A, simp(p + i)), 64))


RNL = "(anonymous namespace)::read_nalu_length("


@thm
def read_nalu_length(V, deadline, box):
    """false when the field is not complete; else its big-endian value"""
    R = Run(V, "read_nalu_length", RNL, hint="h265_bitstream_parser", deadline=deadline); box.append(R)
    ex = R.exec(); st = State(); d = Data(ex, st, MAXLEN); out = ex.new_region(st, "out", 8); nb = z3.Const("nb", B64); st.mem[(out, 0)] = z3.Const("old", B64)
    fold = [("the value of @ bytes", lambda s, x: s.mem[(out, 0)] == BEF(d.A, bv(0), x)), ("@ <= field", lambda s, x: z3.ULE(x, nb))]
    ex.loop_invariants = lambda fn, h, s: invloop.Inv(consts={"field": nb}, fold=fold, inst=lambda ex, i: bef_facts(ex, d.A, bv(0), i))
    bef_facts(ex, d.A, bv(0), bv(0))
    def post(s, rv):
        r = to_bool(rv); inside = z3.ULE(nb, d.n)
        return [("accepted iff the field is complete", r == inside), ("the value of the field", z3.Implies(inside, s.mem[(out, 0)] == BEF(d.A, bv(0), nb))), ("the data is unchanged", d.unchanged(s))]
    R.go(ex, st, [d.ptr, d.n, nb, Ptr.mk(("r", out))], post)


def to_bool(v):
    if z3.is_bool(v): return v
    return v != 0


def k_read_nalu_length(d):
    def f(ex, st, args, ins):
        p, n, nb, out = args
        A, ln, o = bytes_at(ex, st, p)
        if not A.eq(d.A): raise Unsupported("length field elsewhere")
        ex.oblige(st, z3.And(z3.ULE(o, ln), z3.ULE(n, ln - o)), "pre", "the length field is looked for inside the data")
        ok = z3.ULE(nb, n); s2 = st.copy(); r = []
        if st.assume(ok):
            ex.store(st, ex.aptr(out), simp(BEF(A, o, nb)), 8); r.append((st, T))
        if s2.assume(mk_not(ok)): r.append((s2, F))
        return r
    return f


def stream_thm(name, sym, hint, framed=False):
    @thm
    def f(V, deadline, box):
        """every unit of the stream is parsed in order with the state left by the one before; the parsed ones are listed with their place"""
        R = Run(V, name, sym, hint=hint, deadline=deadline); box.append(R)
        _, nal = V.symbol(NUP + "::ParseNalUnit(unsigned char const*, unsigned long, h265nal::H265BitstreamParserState*", "h265_nal_unit_parser")
        for case in (0, 1) if framed else (1,):
          table = {}
          ex = R.exec(table); st = State(); d = Data(ex, st, MAXLEN); w = World(ex, st); sret = ex.new_region(st, "sret", 8)
          opt = opt_arg(ex, ex.fn, len(ex.fn.params) - 1, st)
          if opt is None: raise Unsupported("options passed by reference")
          nu = NalUnits(ex, d, w, opt.size()); lay = state_layout(ex, NUP + "::NalUnitState", ["offset", "length"])
          bl = state_layout(ex, BSP + "::BitstreamState", ["nal_units", "parsing_options_"])
          ex.contracts[nal] = nu.contract(); extra = []; consts = {}; ghosts = {}; more = []
          if framed:
              nb = z3.Const("nb", B64) if case else bv(0); extra = [nb]; fr = Framed(ex, d, nb); n, off, size, facts = fr.N, fr.off, fr.size, fr.facts
              try: _, rnl = V.symbol(RNL, hint); ex.contracts[rnl] = k_read_nalu_length(d)
              except Unsupported: pass
              st.assume(simp(nb != 0)) if case else None; 
              more = [("the next frame is inside", lambda s: z3.ULE(fr.pos(s.env["%iterations"]), d.n))]; fr.lemma(st); facts(bv(0))
          else:
              fc, n, fs, facts = find_contract(ex, d); off, size = lambda k: z3.Select(fs[1], k), lambda k: z3.Select(fs[2], k)
              _, find = V.symbol(BSP + "::FindNaluIndices(", "h265_bitstream_parser"); ex.contracts[find] = fc; consts = {"units": n}
          U = Units(ex, nu, w.ts0, opt, off, size, lay); U.init(st)
          def obj(s):
              p = s.mem.get((sret, 0))
              if isinstance(p, Ptr) and p.single and p.alts[0][1][0] == "r": return p.alts[0][1][1], p.alts[0][2].term().as_long()
              raise Unsupported("result object")
          def cells(s):
              rid, o = obj(s); v = vec_cell(s, rid, o + bl["nal_units"][0])
              return v, w.read(s), {k: s.mem[k] for k, g, c, b in U.heap.values()}
          def at(s, x):
              v, ws, hp = cells(s)
              return [v.len == U.CNT(x), v.arrs[0] == U.LIST(x)] + [a == g(x) for a, g in zip(ws, U.W)] + [hp[k] == g(x) for k, g, c, b in U.heap.values()]
          names = ["units listed before @", "the list before @"] + ["state %d before @" % i for i in range(len(U.W))] + ["place (%s) before @" % nm for nm in U.heap]
          fold = [(nm, lambda s, x, i=i: at(s, x)[i]) for i, nm in enumerate(names)] + [("@ <= units", lambda s, x: z3.ULE(x, n))]
          def inst(ex, i): facts(i); U.define(i)
          if framed:
              count = lambda s: s.env["%iterations"]
              more += [(nm.replace("@", "the frame"), lambda s, f=f: f(s, count(s))) for nm, f in fold]; fold = [("@ is the place of the next frame", lambda s, x: x == fr.pos(count(s)))]
              def inst(ex, i): pass
              class I(invloop.Inv):
                  def instances(self, st, scal): j = simp(count(st)); facts(j); U.define(j); return ()
          else: I = invloop.Inv
          ex.loop_invariants = lambda fn, h, s: I(consts=consts, ghosts=ghosts, facts=more, fold=fold, inst=inst)
          def post(s, rv):
              rid, o = obj(s)
              out = [("the chain ends at its first stop", s.mem[("%iterations", "")] == n)] if framed else []
              out += list(zip(["one entry per parsed unit", "the parsed units in order"] + ["the state after the last unit"] * len(U.W) + ["every listed unit has its place"] * len(U.heap), at(s, s.mem[("%iterations", "")] if framed else n)))
              po, ps = bl["parsing_options_"]; t = ex.load(s, Ptr.mk(("r", rid), Off(o + po)), ir.intty(8 * ps))
              out.append(("the options are kept", t == z3.Extract(8 * ps - 1, 0, opt) if opt.size() > 8 * ps else t == opt))
              return out + [("the data is unchanged", d.unchanged(s))]
          R.go(ex, st, [Ptr.mk(("r", sret)), d.ptr, d.n] + extra + [w.ptr, opt], post)
    THMS[name] = f; THMS.pop("f", None)


stream_thm("ParseBitstream", BSP + "::ParseBitstream(unsigned char const*, unsigned long, h265nal::H265BitstreamParserState*", "h265_bitstream_parser")
stream_thm("ParseBitstreamNALULength", BSP + "::ParseBitstreamNALULength(unsigned char const*, unsigned long, unsigned long, h265nal::H265BitstreamParserState*", "h265_bitstream_parser", True)


# ------------------------------------------------------------------ overloads that start from an empty state
def fresh_thm(name, base, framed):
    """without a state argument: the same stream parsed with an empty state, whose options are kept"""
    @thm
    def f(V, deadline, box):
        R = Run(V, name, base + ("(unsigned char const*, unsigned long, unsigned long, h265nal::ParsingOptions" if framed else "(unsigned char const*, unsigned long, h265nal::ParsingOptions"), hint="h265_bitstream_parser", deadline=deadline); box.append(R)
        _, inner = V.symbol(base + ("(unsigned char const*, unsigned long, unsigned long, h265nal::H265BitstreamParserState*" if framed else "(unsigned char const*, unsigned long, h265nal::H265BitstreamParserState*"), "h265_bitstream_parser")
        ex = R.exec(); st = State(); d = Data(ex, st, MAXLEN); sret = ex.new_region(st, "sret", 8)
        w0 = World(ex, None, empty=True)
        opt = opt_arg(ex, ex.fn, len(ex.fn.params) - 1, st); nb = z3.Const("nb", B64); mid = [nb] if framed else []
        bl = state_layout(ex, BSP + "::BitstreamState", ["nal_units", "parsing_options_"])
        def callee(ex, st, args, ins):
            ret, p, n = args[:3]; A, ln, o = bytes_at(ex, st, p)
            ex.oblige(st, z3.And(A == d.A, o == 0, n == d.n, *[x == y for x, y in zip(args[3:-2], mid)]), "pre", "the whole data is parsed with the given length field")
            for x, y in zip(w0.read(st, ex.aptr(args[-2])), w0.ts0): ex.oblige(st, x == y, "pre", "the state is empty")
            ex.oblige(st, args[-1] == opt, "pre", "the options are passed on")
            st.mem[("calls",)] = simp(st.mem.get(("calls",), bv(0)) + 1)
            rid = ex.new_region(st, "bitstream", sz); ex.store(st, Ptr.mk(("r", rid), Off(po)), args[-1], ps); st.mem[(rid, vo)] = units
            ex.store(st, ex.aptr(ret), Ptr.mk(("r", rid)), 8); st.mem[("result",)] = rid; return [(st, None)]
        ex.contracts[inner] = callee
        po, ps = bl["parsing_options_"]; vo, vs = bl["nal_units"]; sz = max(o + n for o, n in bl.values())
        units = Vec(EScal(8), z3.Const("unit_count", B64), [z3.Const("unit_list", z3.ArraySort(B64, B64))])
        def post(s, rv):
            p = s.mem.get((sret, 0)); rid = s.mem.get(("result",))
            if not (isinstance(p, Ptr) and p.single): raise Unsupported("result pointer")
            mine = p.alts[0][1] == ("r", rid); v = s.mem.get((rid, vo)) if mine else None
            same = mine and v is not None and v.len.eq(units.len) and v.arrs[0].eq(units.arrs[0])
            return [("the result is the stream's", T if mine else F), ("its units are kept", T if same else F), ("its options are kept", ex.load(s, Ptr.mk(("r", rid), Off(po)), ir.intty(8 * ps)) == opt), ("the stream is parsed once", s.mem.get(("calls",), bv(0)) == 1), ("the data is unchanged", d.unchanged(s))]
        R.go(ex, st, [Ptr.mk(("r", sret)), d.ptr, d.n] + mid + [opt], post)
    THMS[name] = f; THMS.pop("f", None)


fresh_thm("ParseBitstream (empty state)", BSP + "::ParseBitstream", False)
fresh_thm("ParseBitstreamNALULength (empty state)", BSP + "::ParseBitstreamNALULength", True)


# ------------------------------------------------------------------ slice QP (equation 7-54)
UT = "h265nal::H265Utils"


class Qp:
    """slice QP of a payload under a state: null unless the type is a slice segment, the payload has a slice header and its PPS is stored"""
    def __init__(self, ex, world):
        P = "h265nal::H265NalUnitPayloadParser::NalUnitPayloadState"; self.ex, self.world = ex, world
        self.o = {}
        for cls, f in ((P, "slice_segment_layer"), ("h265nal::H265SliceSegmentLayerParser::SliceSegmentLayerState", "slice_segment_header"),
                       ("h265nal::H265SliceSegmentHeaderParser::SliceSegmentHeaderState", "slice_pic_parameter_set_id"), ("h265nal::H265SliceSegmentHeaderParser::SliceSegmentHeaderState", "slice_qp_delta"),
                       ("h265nal::H265PpsParser::PpsState", "init_qp_minus26")): self.o[f] = state_layout(ex, cls, [f])[f]
        self.pps = [i for i, f in enumerate(world.order) if f == "pps"][0]
    def f(self, h, name): o, n = self.o[name]; return hf(self.ex, h, o, n)
    def __call__(self, t, pay, ws):
        """-> (has a value, value)"""
        t = zx(t, 32); sl = self.f(pay, "slice_segment_layer"); hd = self.f(sl, "slice_segment_header"); pid = self.f(hd, "slice_pic_parameter_set_id")
        if pid.size() != 32: raise Unsupported("width of the PPS id")
        has, val = ws[2 * self.pps], ws[2 * self.pps + 1]
        pps = z3.If(z3.Select(has, pid), z3.Select(val, pid), bv(0))
        ok = z3.And(z3.Or(z3.ULE(t, bv(9, 32)), z3.And(z3.UGE(t, bv(16, 32)), z3.ULE(t, bv(21, 32)))), pay != 0, sl != 0, hd != 0, pps != 0)
        return ok, z3.Extract(31, 0, bv(26, 64) + sx(self.f(pps, "init_qp_minus26"), 64) + sx(self.f(hd, "slice_qp_delta"), 64))


def hf(ex, h, off, n): return ex.hfield(simp(h), off, n)


def int_result(ex, s, sret, R):
    """(non-null, value) of a returned std::unique_ptr<int32_t>"""
    p = s.mem.get((sret, 0))
    if not isinstance(p, Ptr): raise Unsupported("result pointer")
    nn, v = F, bv(0, 32)
    for c, b, o in p.alts:
        if b == NULLB: continue
        if b[0] != "r": raise Unsupported("result pointer")
        x = ex.load(s, Ptr.mk(b, o), ir.intty(32)); nn = mk_or(nn, c); v = mk_ite(c, x, v)
    return nn, v


@thm
def GetSliceQpYStream(V, deadline, box):
    """one value per unit that has one, each under the parameter sets stored once that unit is parsed"""
    R = Run(V, "GetSliceQpY(data)", UT + "::GetSliceQpY(unsigned char const*", hint="h265_utils", deadline=deadline); box.append(R)
    _, nal = V.symbol(NUP + "::ParseNalUnit(unsigned char const*, unsigned long, h265nal::H265BitstreamParserState*", "h265_nal_unit_parser")
    _, find = V.symbol(BSP + "::FindNaluIndices(", "h265_bitstream_parser")
    ex = R.exec(); st = State(); d = Data(ex, st, MAXLEN); w = World(ex, st); sret = ex.new_region(st, "sret", 24)
    fc, n, fs, facts = find_contract(ex, d)
    opt = z3.BitVecVal(0, 8)                      # the options only decide whether a checksum is attached (nal_unit): not seen here
    nu = NalUnits(ex, d, w, 8); ex.contracts[find] = fc; base = nu.contract()
    ex.contracts[nal] = lambda ex, st, args, ins: base(ex, st, list(args[:-1]) + [opt], ins)
    qp = Qp(ex, w); lay = state_layout(ex, NUP + "::NalUnitState", ["nal_unit_header", "nal_unit_payload"]); lh = state_layout(ex, "h265nal::H265NalUnitHeaderParser::NalUnitHeaderState", ["nal_unit_type"])
    W = [z3.Function("QS_W%d" % i, B64, s) for i, s in enumerate(w.sorts)]; CNT, LIST = z3.Function("QS_COUNT", B64, B64), z3.Function("QS_LIST", B64, z3.ArraySort(B64, B32))
    for g, t in zip(W, w.ts0): ex.pv.fact(g(bv(0)) == t)
    ex.pv.fact(CNT(bv(0)) == 0); ex.pv.fact(LIST(bv(0)) == Vec.empty(EScal(4)).arrs[0])
    def define(i):
        nx = simp(i + 1); a = nu.args(z3.Select(fs[1], i), z3.Select(fs[2], i), [g(i) for g in W], opt); h, ok = nu.h(*a), nu.ok(*a)
        hd = hf(ex, h, lay["nal_unit_header"][0], 8); ex.pv.fact(z3.Implies(ok, hd != 0))           # an accepted unit has a header (nal_unit)
        after = [x(*a) for x in nu.w]
        ty, pay = hf(ex, hd, *lh["nal_unit_type"]), hf(ex, h, lay["nal_unit_payload"][0], 8)
        ex.pv.fact(z3.Implies(z3.And(ok, pay != 0, qp.f(pay, "slice_segment_layer") != 0), z3.Or(z3.ULE(ty, bv(9, 32)), z3.And(z3.UGE(ty, bv(16, 32)), z3.ULE(ty, bv(21, 32))))))   # only a slice segment's payload has a slice header (nal_unit_payload)
        has, v = qp(ty, pay, after); has = z3.And(ok, has)
        for g, x in zip(W, after): ndef(ex, i, g(nx) == x)
        ndef(ex, i, CNT(nx) == CNT(i) + z3.If(has, bv(1), bv(0)))
        ndef(ex, i, LIST(nx) == z3.If(has, z3.Store(LIST(i), CNT(i), v), LIST(i)))
    def at(s, x):
        v = s.mem.get((sret, 0))
        if not isinstance(v, Vec): v = Vec.empty(EScal(4))
        return [v.len == CNT(x), v.arrs[0] == LIST(x)] + [a == g(x) for a, g in zip(w.read(s), W)]
    names = ["values before @", "the list before @"] + ["state %d before @" % i for i in range(len(W))]
    fold = [(nm, lambda s, x, i=i: at(s, x)[i]) for i, nm in enumerate(names)] + [("@ <= units", lambda s, x: z3.ULE(x, n))]
    def inst(ex, i): facts(i); define(i)
    ex.loop_invariants = lambda fn, h, s: invloop.Inv(consts={"units": n}, fold=fold, inst=inst)
    def post(s, rv):
        return list(zip(["one value per unit that has one", "the values in order"] + ["the state after the last unit"] * len(W), at(s, n))) + [("the data is unchanged", d.unchanged(s))]
    R.go(ex, st, [Ptr.mk(("r", sret)), d.ptr, d.n, w.ptr], post)


@thm
def GetSliceQpYRtp(V, deadline, box):
    """a single NAL unit, the last unit of an aggregation packet, or the first fragment of a unit: its slice QP; else null"""
    R = Run(V, "GetSliceQpY(rtp)", UT + "::GetSliceQpY(std::unique_ptr", hint="h265_utils", deadline=deadline); box.append(R)
    ex = R.exec(); st = State(); w = World(ex, st); sret = ex.new_region(st, "sret", 8); rr = ex.new_region(st, "rtp", 8)
    N = "h265nal::H265Rtp"; rtp = z3.Const("rtp", B64); ex.pv.fact(rtp != 0); st.mem[(rr, 0)] = Ptr.mk(("h", rtp))
    L = lambda c, f: state_layout(ex, c, [f])[f]
    def fl(h, c, f): return hf(ex, h, *L(c, f))
    HD = "h265nal::H265NalUnitHeaderParser::NalUnitHeaderState"
    t = fl(fl(rtp, N + "Parser::RtpState", "nal_unit_header"), HD, "nal_unit_type"); single, ap, fu = (fl(rtp, N + "Parser::RtpState", x) for x in ("rtp_single", "rtp_ap", "rtp_fu"))
    SS, AS, FS = N + "SingleParser::RtpSingleState", N + "ApParser::RtpApState", N + "FuParser::RtpFuState"
    is1, isap, isfu = z3.ULE(t, bv(47, 32)), t == 48, t == 49
    hds, pays = (ex.hvec(ap, L(AS, x)[0], EPtr(None, 8)) for x in ("nal_unit_headers", "nal_unit_payloads"))
    last = simp(hds.len - 1); lh, lp = z3.Select(hds.arrs[0], last), z3.Select(pays.arrs[0], last)
    for g in (fl(rtp, N + "Parser::RtpState", "nal_unit_header") != 0, z3.Implies(is1, z3.And(single != 0, fl(single, SS, "nal_unit_header") != 0)), z3.Implies(isap, z3.And(ap != 0, hds.len == pays.len, z3.Implies(hds.len != 0, lh != 0))), z3.Implies(isfu, fu != 0)): st.assume(simp(g))
    qp = Qp(ex, w); wt = z3.If
    ty = wt(is1, fl(fl(single, SS, "nal_unit_header"), HD, "nal_unit_type"), wt(isap, fl(lh, HD, "nal_unit_type"), zx(fl(fu, FS, "fu_type"), 32)))
    pay = wt(is1, fl(single, SS, "nal_unit_payload"), wt(isap, lp, fl(fu, FS, "nal_unit_payload")))
    sl = qp.f(pay, "slice_segment_layer")                             # only a slice segment's payload has a slice header (nal_unit_payload)
    ex.pv.fact(z3.Implies(z3.And(pay != 0, sl != 0), z3.Or(z3.ULE(ty, bv(9, 32)), z3.And(z3.UGE(ty, bv(16, 32)), z3.ULE(ty, bv(21, 32))))))
    has, val = qp(ty, pay, w.ts0)
    has = z3.And(has, z3.Or(is1, z3.And(isap, hds.len != 0), z3.And(isfu, fl(fu, FS, "s_bit") != 0)))
    ws = [("the state is unchanged", lambda s: mk_and(*[a == b for a, b in zip(w.read(s), w.ts0)]))]
    def post(s, rv):
        nn, v = int_result(ex, s, sret, R)
        return [("there is a value exactly when the packet has a slice header and its PPS is stored", nn == has), ("26 + init_qp_minus26 + slice_qp_delta", z3.Implies(has, v == val))] + [(n, f(s)) for n, f in ws]
    R.go(ex, st, [Ptr.mk(("r", sret)), Ptr.mk(("r", rr)), w.ptr], post)
