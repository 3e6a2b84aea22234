"""Contracts of the bit reader (proved separately from rtc_common.cc / h265_common.cc) and of the specified parsers,
as seen by callers."""
import z3, re
import ir
from sym import *
from specrun import *
import specrun, dsl


def get_bb(ex, st, p):
    p = ex.aptr(p)
    return ex.get_abs(st, p, BitBuf, lambda h, o: BitBuf(uf("stream_of", B64, B64)(h), uf("pos_of", B64, B64)(h)))


def align(ex, st, kind, bb, n=None, args=()):
    """canonical position (and width) terms from the specification's reads, when provably equal"""
    spec = ex.spec
    pos = simp(bb.pos)
    if spec is None or not bb.s.eq(spec.S): return pos, n, args
    ctx = ex.loopctx[-1]
    if ctx is None: return pos, n, args
    rs = ctx.reads
    cur = ex.rd.get(id(ctx), 0)
    def compat(r):
        if r.kind != kind: return False
        if n is not None:
            if isc(n) != isc(r.n): return False
            if isc(n) and cval(n) != cval(r.n): return False
        return True
    for r in rs:
        if compat(r) and r.pos.eq(pos) and (n is None or r.n.eq(n)) and len(args) == len(r.args) and all(val_same(a, b) for a, b in zip(flat_args(args), flat_args(r.args))):
            ex.rd[id(ctx)] = r.idx + 1; return pos, n, args
    order = [r for r in rs[cur:] if compat(r)] + [r for r in rs[:cur] if compat(r)]
    tried = 0
    for r in order:
        tried += 1
        if tried > 30: break
        goal = pos == r.pos
        if n is not None and not isc(n): goal = z3.And(goal, n == r.n)
        for a, b in zip(args, r.args):
            if isinstance(a, SVec):
                if not isinstance(b, SVec): goal = F; break
                goal = mk_and(goal, a.v.len == b.v.len, *[x == y for x, y in zip(a.v.arrs, b.v.arrs)])
            elif isinstance(a, WVal): goal = mk_and(goal, *[x == y for x, y in zip(a.terms(), b.terms())])
            elif a.sort() != b.sort(): goal = F; break
            else: goal = mk_and(goal, a == b)
        goal = simp(goal)
        if is_f(goal): continue
        if ex.pv.prove(st.pc, goal, 4000)[0] == "proved":
            ex.rd[id(ctx)] = r.idx + 1
            return r.pos, r.n, r.args
    ex.unaligned = getattr(ex, "unaligned", 0) + 1
    return pos, n, args


def store_scalar(ex, st, p, v, size):
    ex.store(st, ex.aptr(p), v, size)


def fork(ex, st, okc, then, els):
    out = []
    c = decide(st, simp(okc))
    s2 = st.copy()
    if not is_f(c) and st.assume(c): out.append((then(st), T))
    if not is_t(c) and s2.assume(mk_not(c)):
        s2 = els(s2) if els else s2
        out.append((s2, F))
    return [(s, v) for s, v in out if s is not None]


def c_readbits(width, peek=False):
    def f(ex, st, args, ins):
        this, n, dst = args
        bb = get_bb(ex, st, this)
        n = simp(n)
        ex.oblige(st, n != 0, "assert", "bit count is positive (bit_count > 0)")
        limit = decide(st, simp(z3.ULE(n, bv(width))))
        pos, n, _ = align(ex, st, "u" if not peek else "peek", bb, n)
        okc = mk_and(limit, specrun.u_ok(bb.s, pos, n))
        def then(s):
            v = specrun.bitsf(bb.s, pos, n) if width == 32 else specrun.bits64f(bb.s, pos, n)
            if isc(n) and cval(n) < 32 and width == 32: ex.pv.fact(z3.ULT(v, bv(1 << cval(n), 32)))
            store_scalar(ex, s, dst, v, width // 8)
            if not peek: ex.put_abs(s, ex.aptr(this), BitBuf(bb.s, simp(pos + n)))
            return s
        return fork(ex, st, okc, then, None)
    return f


def c_ue(signed):
    def f(ex, st, args, ins):
        this, dst = args
        bb = get_bb(ex, st, this)
        pos, _, _ = align(ex, st, "ue", bb)
        S = bb.s
        okc = specrun.ue_ok(S, pos)
        def then(s):
            store_scalar(ex, s, dst, specrun.se_val(S, pos) if signed else specrun.ue_val(S, pos), 4)
            ex.pv.fact(z3.ULT(specrun.ue_val(S, pos), bv(0xffffffff, 32)))
            ex.pv.fact(specrun.se_val(S, pos) != bv(0x80000000, 32))
            ex.put_abs(s, ex.aptr(this), BitBuf(S, specrun.ue_end(S, pos)))
            return s
        # on failure the value is unspecified (it may be partly written)
        def els(s):
            store_scalar(ex, s, dst, fresh("ue_garbage", B32), 4); return s
        return fork(ex, st, okc, then, els)
    return f


def c_consume(mult):
    def f(ex, st, args, ins):
        this, n = args
        bb = get_bb(ex, st, this)
        if mult != 1:
            big = z3.UGT(n, bv((2**64 - 1) // 8))
            okb = decide(st, simp(z3.Not(big)))
            n = simp(n * 8)
        else: okb = T
        pos, n, _ = align(ex, st, "skip", bb, simp(n))
        okc = mk_and(okb, simp(z3.ULE(n, specrun.tot(bb.s) - pos)))
        def then(s):
            ex.put_abs(s, ex.aptr(this), BitBuf(bb.s, simp(pos + n))); return s
        return fork(ex, st, okc, then, None)
    return f


def c_remaining(ex, st, args, ins):
    bb = get_bb(ex, st, args[0])
    return [(st, simp(specrun.tot(bb.s) - bb.pos))]


def c_getoffset(ex, st, args, ins):
    bb = get_bb(ex, st, args[0])
    ex.store(st, ex.aptr(args[1]), simp(z3.LShR(bb.pos, 3)), 8)
    ex.store(st, ex.aptr(args[2]), simp(bb.pos & 7), 8)
    return [(st, None)]


def c_seek(ex, st, args, ins):
    this, by, bi = args
    ex.used_seek = True
    bb = get_bb(ex, st, this)
    np_ = simp(by * 8 + bi)
    tb = simp(z3.LShR(specrun.tot(bb.s), 3))
    okc = simp(mk_not(mk_or(z3.UGT(by, tb), z3.UGT(bi, bv(7)), mk_and(by == tb, z3.UGT(bi, bv(0))))))
    def then(s):
        ex.put_abs(s, ex.aptr(this), BitBuf(bb.s, np_)); return s
    return fork(ex, st, okc, then, None)


def c_more(ex, st, args, ins):
    bb = get_bb(ex, st, args[0])
    ctx = ex.loopctx[-1]
    pos = simp(bb.pos)
    pos = canon_pos(ex, st, pos)
    ex.put_abs(st, ex.aptr(args[0]), BitBuf(bb.s, pos))
    return [(st, specrun.more(bb.s, pos))]


def canon_pos(ex, st, pos):
    spec = ex.spec; ctx = ex.loopctx[-1]
    if spec is None or ctx is None: return pos
    cur = ex.rd.get(id(ctx), 0)
    seen = set()
    for r in ctx.reads[cur:cur + 12] + ctx.reads[max(0, cur - 2):cur]:
        if r.pos.eq(pos): return pos
    for r in ctx.reads[cur:cur + 12]:
        if r.pos.get_id() in seen: continue
        seen.add(r.pos.get_id())
        if ex.pv.prove(st.pc, pos == r.pos, 3000)[0] == "proved": return r.pos
    return pos


def c_trailing(ex, st, args, ins):
    bb = get_bb(ex, st, args[0])
    pos, _, _ = align(ex, st, "trailing", bb)
    def then(s):
        ex.put_abs(s, ex.aptr(args[0]), BitBuf(bb.s, specrun.tr_end(bb.s, pos))); return s
    def els(s):
        ex.put_abs(s, ex.aptr(args[0]), BitBuf(bb.s, specrun.tr_fend(bb.s, pos))); return s
    return fork(ex, st, specrun.tr_ok(bb.s, pos), then, els)


def c_aligned(ex, st, args, ins):
    bb = get_bb(ex, st, args[0])
    return [(st, simp(bb.pos & 7 == 0))]


def c_checksum(ex, st, args, ins):
    """NaluChecksum::GetNaluChecksum: a function of the rest of the stream; the position is unchanged"""
    bb = get_bb(ex, st, args[1])
    h = uf("checksum", B64, B64, B64)(bb.s, bb.pos); ex.pv.fact(h != 0)
    ex.store(st, ex.aptr(args[0]), Ptr.mk(("h", h)), 8)
    return [(st, None)]


def c_curoffset(ex, st, args, ins):
    bb = get_bb(ex, st, args[0])
    return [(st, simp(z3.LShR(bb.pos + 7, 3)))]


def c_readbytes(ex, st, args, ins):
    """ReadBytes(n, out): the next n bytes, if they are there (proved as ReadBytes)"""
    this, n, dst = args; bb = get_bb(ex, st, this); n = simp(n); dst = ex.aptr(dst)
    pos, n, _ = align(ex, st, "bytes", bb, n)
    if not dst.single or dst.alts[0][1][0] != "d": raise Unsupported("bytes read into something other than a vector")
    vp, off = dst.alts[0][1][1], dst.alts[0][2]
    v = ex.get_vec(st, vp, EScal(1))
    ex.oblige(st, z3.And(off.term() == 0, z3.ULE(n, v.len), z3.ULT(n, bv(1 << 60))), "pre", "the bytes fit into the buffer")
    if not ex.pv.prove(st.pc, v.len == n)[0] == "proved": raise Unsupported("bytes read into a part of a vector")
    def then(s):
        ex.put_vec(s, vp, Vec(EScal(1), n, [specrun.bytesf(bb.s, pos, n)])); ex.put_abs(s, ex.aptr(this), BitBuf(bb.s, simp(pos + n * 8))); return s
    def els(s):
        ex.put_vec(s, vp, Vec(EScal(1), n, [fresh("partial", specrun.ARR8)])); ex.put_abs(s, ex.aptr(this), BitBuf(bb.s, fresh("partial_pos", B64))); return s
    return fork(ex, st, specrun.u_ok(bb.s, pos, simp(n * 8)), then, els)


def c_entry(sp):
    """F(data, length, params...): the specified parser on the unescaped bytes (proved as `bytes>F`)"""
    def f(ex, st, args, ins):
        sret, p, n = args[:3]; p = ex.aptr(p)
        if not p.single or p.alts[0][1][0] != "d": raise Unsupported("bytes from something other than a vector")
        v = ex.get_vec(st, p.alts[0][1][1], EScal(1))
        ex.oblige(st, z3.And(p.alts[0][2].term() == 0, z3.ULE(n, v.len)), "pre", "the bytes are inside the buffer")
        S2 = uf("STREAM", specrun.ARR8, B64, B64)(*specrun.unesc(v.arrs[0], simp(n)))
        rid = ex.new_region(st, "sub_bits", 64); q = Ptr.mk(("r", rid)); ex.put_abs(st, q, BitBuf(S2, bv(0)))
        return c_spec(sp, None, on=S2)(ex, st, [sret, q] + list(args[3:]), ins)
    return f


P = "_ZN7h265nal9BitBuffer"
BITBUFFER = {
    P + "8ReadBitsEmRj": c_readbits(32), P + "8ReadBitsEmRm": c_readbits(64),
    P + "8PeekBitsEmRj": c_readbits(32, True), P + "8PeekBitsEmRm": c_readbits(64, True),
    P + "9ReadBytesEmPh": c_readbytes, P + "21ReadExponentialGolombERj": c_ue(False), P + "27ReadSignedExponentialGolombERi": c_ue(True),
    "_ZN7h265nal12NaluChecksum15GetNaluChecksumEPNS_9BitBufferE": c_checksum,
    P + "11ConsumeBitsEm": c_consume(1), P + "12ConsumeBytesEm": c_consume(8),
    "_ZNK7h265nal9BitBuffer17RemainingBitCountEv": c_remaining,
    P + "16GetCurrentOffsetEPmS1_": c_getoffset, P + "4SeekEmm": c_seek,
    "_ZN7h265nal14more_rbsp_dataEPNS_9BitBufferE": c_more, "_ZN7h265nal18rbsp_trailing_bitsEPNS_9BitBufferE": c_trailing,
    "_ZN7h265nal12byte_alignedEPNS_9BitBufferE": c_aligned, "_ZN7h265nal18get_current_offsetEPNS_9BitBufferE": c_curoffset,
}


def read_world(ex, st, p, q):
    from dit import struct_info
    import stl
    si = struct_info(ex.fr_mod, q)
    return WVal(q, {n: stl.map_get(ex, st, p.add(si.fields[n][0]), si.fields[n][1].to) for n in si.order})


def write_world(ex, st, p, w):
    from dit import struct_info
    si = struct_info(ex.fr_mod, w.q)
    for n in si.order: ex.put_abs(st, p.add(si.fields[n][0]), w.d[n])


def c_spec(sp, ret_kind, on=None):
    """contract of a specified parser F(BitBuffer*, params...) returning a smart pointer through sret"""
    def f(ex, st, args, ins):
        if sp.attrs.get("method"): args = [args[0]] + list(args[2:])       # this carries no state
        sret, bbp = args[0], args[1]
        bb = get_bb(ex, st, bbp)
        ts = []
        for (n, ty, arg), a in zip(sp.params, args[2:]):
            if ty == "state":
                if isinstance(a, Ptr): a = ex.handle(st, a)
                ts.append(a)
            elif ty == "vec":
                v = ex.get_vec(st, ex.aptr(a), cached_ety(ex, arg).e)
                ts.append(SVec(v))
            elif ty == "world": ts.append(read_world(ex, st, ex.aptr(a), arg))
            elif ty == "sref":            # const unique_ptr<T>& : the pointee
                ts.append(ex.handle(st, __import__("stl").get_sp(ex, st, ex.aptr(a))))
            else:
                if z3.is_bool(a): a = ubool(a)
                ts.append(zx(a, 64) if ty != "sint" else sx(a, 64))
        if on is None: pos, _, ts = align(ex, st, "call:" + sp.name, bb, None, ts)
        else:
            pos, _, ts = align(ex, st, "callon:" + sp.name, BitBuf(ex.spec.S, bv(0)), None, [on] + ts); bb = BitBuf(ts[0], bv(0)); ts = ts[1:]
        cr = specrun.callres(sp, bb.s, pos, ts)
        for e in [s.a[0] for s in sp.body if s.k == "require"]:
            env = {"%pos": pos}
            for (n, ty, arg), t in zip(sp.params, ts): env[n] = SHandle(t, arg) if ty in ("state", "sref") else t
            ex.oblige(st, ex.spec.bool(e, env), "pre", "precondition of %s" % sp.name)
        ex.spec.callfacts(sp, cr, ts)
        if sp.name in dsl.MUT:
            i = dsl.MUT[sp.name]; write_world(ex, st, ex.aptr(args[2 + i]), cr.world(ts[i]))
        def then(s):
            ex.put_abs(s, ex.aptr(bbp), BitBuf(bb.s, cr.end))
            s.assume(mk_not(simp(cr.h == 0)))
            ex.store(s, ex.aptr(sret), Ptr.mk(("h", cr.h)), 8); return s
        def els(s):
            ex.put_abs(s, ex.aptr(bbp), BitBuf(bb.s, cr.fend))
            ex.store(s, ex.aptr(sret), NULL, 8); return s
        ex.called_contracts.add(sp.name)
        out = fork(ex, st, cr.ok, then, els)
        return [(s, None) for s, _ in out]
    return f


_ety = {}
def cached_ety(ex, text):
    import stl
    text = text.rstrip("*"); k = (ex.modname, text)
    if k not in _ety: _ety[k] = stl.cpp_ety(ex.fr_mod, text)
    return _ety[k]
