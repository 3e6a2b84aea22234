"""Forward symbolic execution of LLVM IR with contracts for callees and loops matched against
the loops of the specification (relational invariants found by a Houdini-style fixpoint)."""
import z3, time, re
import ir, specrun
from ir import IRError, IntTy, PtrTy, ArrTy, StructTy, NamedTy, FloatTy, VoidTy
from sym import *

MAXUNROLL = 400


class Frame:
    def __init__(self, fn, mod, depth): self.fn, self.mod, self.depth = fn, mod, depth


class Exec:
    def __init__(self, prog, prover, modname, contracts=None, models=None, safety=True):
        self.used_seek = False
        self.prog, self.pv, self.modname = prog, prover, modname
        self.mod = prog.mod(modname)
        self.contracts = contracts or {}
        self.models = models
        self.obls = []
        self.safety = safety
        self.nregion = 0
        self.spec = None            # SpecRun with loop instances
        self.loop_depth = 0
        self.inlined = set(); self.hvec_ety = {}
        self.modelled = set()
        self.probing = 0            # >0: obligations are not recorded (trial loop bodies)
        self.cur_loc = None
        self.steps = 0
        self.max_steps = 400000
        self.unroll_limit = {}      # fn name -> n, solver-checked unrolling
        self.callstack = []
        self.loopctx = [None]
        self.rd = {}
        self.region_info = {}
        self.fieldmap = {}; self.fieldmap_names = set()
        self.matched_loops = []; self.notes = []; self.called_contracts = set()

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, goal, kind, desc):
        if not self.safety and kind not in ("post", "loop", "pre"): return
        g = simp(goal)
        if is_t(g):
            if not self.probing: self.obls.append(Obligation(kind, desc, self.cur_loc, "proved", t=0.0))
            return
        g = decide(st, g)
        if is_t(g):
            if not self.probing: self.obls.append(Obligation(kind, desc, self.cur_loc, "proved", t=0.0))
            return
        if self.probing: return
        t0 = time.time()
        r, m = self.pv.prove(st.pc, g)
        self.obls.append(Obligation(kind, desc, self.cur_loc, r, m, time.time() - t0, g, st.pc))
        # continue as if it held (the failing obligation is already recorded)
        st.assume(g)

    def snapshot(self): return (len(self.obls), dict(self.rd), len(self.matched_loops))
    def restore(self, s): del self.obls[s[0]:]; self.rd = dict(s[1]); del self.matched_loops[s[2]:]
    array_locals = False
    def probe_tok(self): return 0
    def note(self, m):
        if m not in self.notes: self.notes.append(m)

    def loc(self, ins):
        l = self.fr_mod.line(ins.dbg) if ins.dbg is not None else None
        return "%s:%s" % (self.fr_mod.src, l)

    # ---------------------------------------------------------------- regions
    def new_region(self, st, tag, size=None):
        self.nregion += 1
        rid = "%s#%d" % (tag, self.nregion)
        st.mem[(rid, "kind")] = Opaque("region")
        self.region_info[rid] = dict(tag=tag, size=size)
        return rid

    # ---------------------------------------------------------------- operand evaluation
    def val(self, st, v):
        k = v.k
        if k == "local":
            if v.v not in st.env: raise Unsupported("value %" + v.v + " undefined in " + self.fn.name)
            return st.env[v.v]
        if k == "int":
            if v.ty.w == 1: return T if v.v else F
            return bv(v.v, v.ty.w)
        if k == "null": return NULL
        if k == "global":
            n = v.v
            if n in self.fr_mod.funcs or n in self.fr_mod.decls: return Ptr.mk(("f", n))
            return Ptr.mk(("g", n))
        if k in ("undef",): return self.undef(v.ty)
        if k == "zero": return self.zero(v.ty)
        if k == "cexpr":
            if v.v == "gep":
                bt, args = v.extra
                return self.gep(st, bt, [self.val(st, a) for a in args])
            if v.v == "ptrtoint" or v.v == "bitcast": return self.val(st, v.extra[0])
        if k == "fp": return FVal(uf("fconst_" + str(v.v), FSORT)())
        if k == "agg": return [self.val(st, x) for x in v.v]
        raise Unsupported("operand " + repr(v))

    def undef(self, ty):
        ty = self.fr_mod.resolve(ty)
        if isinstance(ty, IntTy): return fresh("undef", BOOL if ty.w == 1 else z3.BitVecSort(ty.w))
        if isinstance(ty, PtrTy): return NULL
        if isinstance(ty, FloatTy): return FVal(fresh("undef", FSORT))
        if isinstance(ty, StructTy): return [self.undef(e) for e in ty.elems]
        raise Unsupported("undef %r" % ty)

    def zero(self, ty):
        ty = self.fr_mod.resolve(ty)
        if isinstance(ty, IntTy): return F if ty.w == 1 else bv(0, ty.w)
        if isinstance(ty, PtrTy): return NULL
        if isinstance(ty, StructTy): return [self.zero(e) for e in ty.elems]
        if isinstance(ty, ArrTy): return [self.zero(ty.e) for _ in range(ty.n)]
        raise Unsupported("zero %r" % ty)

    # ---------------------------------------------------------------- gep
    def gep(self, st, bt, args):
        p = args[0]
        if not isinstance(p, Ptr): p = self.int2ptr(p)
        m = self.fr_mod
        idx = args[1]
        sz = m.size(bt)
        p = self.padd(p, idx, sz)
        ty = bt
        for ix in args[2:]:
            ty = m.resolve(ty)
            if isinstance(ty, StructTy):
                o, ty = m.field_off(ty, cval(ix)); p = p.add(o)
            elif isinstance(ty, ArrTy):
                es = m.size(ty.e)
                if not isc(ix):
                    w = sx(ix, 64)
                    self.oblige(st, z3.ULT(w, bv(ty.n)), "bounds", "array index within %d elements" % ty.n)
                    self.arrbound(p, es, ty.n)
                else:
                    if cval(ix) > ty.n: self.oblige(st, F, "bounds", "constant array index %d of %d" % (cval(ix), ty.n))
                p = self.padd(p, ix, es); ty = ty.e
            else: raise Unsupported("gep into %r" % ty)
        return p

    def arrbound(self, p, es, n):
        for c, b, o in p.alts:
            if b[0] == "r" and not o.ts:
                self.region_info.setdefault(b[1], {}).setdefault("arrays", {})[o.c] = (o.c, o.c + n * es)

    def padd(self, p, idx, sz):
        if isc(idx):
            v = cval(idx)
            if v >= 1 << (idx.size() - 1): v -= 1 << idx.size()
            return p.add(v * sz) if v else p
        return p.add(0, sx(idx, 64), sz)

    def int2ptr(self, t):
        if isinstance(t, Ptr): return t
        if z3.is_expr(t) and t.sort() == B64:
            if isc(t) and cval(t) == 0: return NULL
            if t.get_id() in self.handle_region: return Ptr.mk(("r", self.handle_region[t.get_id()][0]))
            return Ptr.mk(("h", t))
        raise Unsupported("int2ptr")

    handle_region = {}

    # handle (BV64) of a pointer value
    def handle(self, st, p):
        if not isinstance(p, Ptr): return p
        r = None
        for c, b, o in reversed(p.alts):
            if b == NULLB: h = bv(0)
            elif b[0] == "h" and o.c == 0 and not o.ts: h = b[1]
            elif b[0] == "r" and o.c == 0 and not o.ts: h = self.region_handle(st, b[1])
            else: raise Unsupported("handle of interior pointer")
            r = h if r is None else mk_ite(c, h, r)
        return r

    def region_handle(self, st, rid):
        key = (rid, "H")
        if key in st.mem: return st.mem[key]
        h = z3.Const("obj_" + rid, B64)
        self.pv.fact(h != 0)
        self.handle_region[h.get_id()] = (rid, h)
        st.mem[key] = h
        return h

    # ---------------------------------------------------------------- load / store
    def nonnull(self, st, p, what):
        for c, b, o in p.alts:
            if b == NULLB: self.oblige(st, mk_not(c), "null", "pointer is not null (%s)" % what)
            elif b[0] == "h":
                if self.spec is not None: specrun.wf_handle(self.spec, b[1])
                self.oblige(st, mk_or(mk_not(c), b[1] != 0), "null", "object pointer is not null (%s)" % what)

    def load(self, st, p, ty):
        m = self.fr_mod
        ty = m.resolve(ty)
        self.nonnull(st, p, "load")
        out = None
        alts = [a for a in p.alts if a[1] != NULLB]
        if not alts: return self.undef(ty)
        for c, b, o in reversed(alts):
            v = self.load1(st, b, o, ty)
            out = v if out is None else merge_val(c, v, out)
        return out

    def load1(self, st, b, o, ty):
        m = self.fr_mod
        if isinstance(ty, StructTy): return [self.load1(st, b, o.add(m.field_off(ty, i)[0]), m.resolve(e)) for i, e in enumerate(ty.elems)]
        size = m.size(ty)
        raw = self.read_cell(st, b, o, size, ty)
        return self.coerce(raw, ty, size)

    def coerce(self, raw, ty, size):
        if isinstance(ty, IntTy):
            if isinstance(raw, Ptr): raise Unsupported("integer load of pointer")
            if not z3.is_expr(raw): raise Unsupported("integer load of %s" % type(raw).__name__)
            if z3.is_bool(raw): raw = z3.If(raw, bv(1, 8), bv(0, 8))
            if ty.w == 1: return simp(z3.Extract(0, 0, raw) == 1)
            if raw.size() != ty.w: raw = zx(raw, ty.w)
            return raw
        if isinstance(ty, PtrTy):
            if isinstance(raw, Ptr): return raw
            if isinstance(raw, Opaque): return raw
            return self.int2ptr(raw)
        if isinstance(ty, FloatTy):
            if isinstance(raw, FVal): return raw
            return FVal(uf("bits2f", raw.sort(), FSORT)(raw))
        raise Unsupported("load type %r" % ty)

    def read_cell(self, st, b, o, size, ty=None):
        if b[0] == "r":
            rid = b[1]
            if (rid, "arr") in st.mem: return self.read_bytes(st, rid, o, size)
            if (rid, "avec") in st.mem:
                v = st.mem[(rid, "avec")]; i = self.avec_index(v, o, size)
                self.oblige(st, z3.ULT(i, v.len), "bounds", "local array index within bounds")
                return v.load(i)
            if o.ts: return self.read_symidx(st, rid, o, size, ty)
            key = (rid, o.c)
            v = st.mem.get(key)
            if v is not None:
                if z3.is_bv(v) and v.size() != size * 8:
                    if v.size() > size * 8: return simp(z3.Extract(size * 8 - 1, 0, v))
                    return self.assemble(st, rid, o.c, size)
                return v
            return self.missing(st, rid, o.c, size, ty)
        if b[0] == "h":
            if not o.ts and ("heap", "%d:%d" % (o.c, size)) in st.mem: return z3.Select(st.mem[("heap", "%d:%d" % (o.c, size))], b[1])
            return self.read_handle(st, b[1], o, size, ty)
        if b[0] == "d": return self.read_vecelem(st, b, o, size)
        if b[0] == "g": return self.read_global(st, b[1], o, size, ty)
        if b[0] in ("m", "mp"):
            import stl
            off = o.c
            if b[0] == "mp":
                if off == 0 and size == 4: return b[2]
                off -= 8
            if off == 8: return Opaque("ctrl")
            if off != 0 or o.ts: raise Unsupported("map node offset")
            v = stl.map_get(self, st, b[1], None)
            return simp(z3.Select(v.val, b[2]))
        raise Unsupported("read from " + b[0])

    def assemble(self, st, rid, off, size):
        """little-endian assembly from smaller cells"""
        parts = []; i = off
        while i < off + size:
            v = st.mem.get((rid, i))
            if v is None:
                v = self.byte_of(st, rid, i)
            if isinstance(v, (Ptr, Vec)) or not z3.is_bv(v): raise Unsupported("assemble mixed cell")
            n = v.size() // 8
            if i + n > off + size: v = z3.Extract((off + size - i) * 8 - 1, 0, v); n = off + size - i
            parts.append(v); i += n
        return simp(z3.Concat(*reversed(parts))) if len(parts) > 1 else parts[0]

    def byte_of(self, st, rid, i):
        for k in range(1, 8):
            v = st.mem.get((rid, i - k))
            if v is not None and z3.is_bv(v) and v.size() // 8 > k:
                return simp(z3.Extract(8 * k + 7, 8 * k, v))
        z = st.mem.get((rid, "Z"), ())
        if any(lo <= i < hi for lo, hi in z): return bv(0, 8)
        return fresh("undefbyte", B8)

    def missing(self, st, rid, off, size, ty):
        # inside a wider cell?
        for k in range(1, 8):
            v = st.mem.get((rid, off - k))
            if v is not None and z3.is_bv(v) and v.size() // 8 >= k + size:
                return simp(z3.Extract(8 * (k + size) - 1, 8 * k, v))
        if size > 1 and isinstance(ty, IntTy) and any((rid, off + k) in st.mem for k in range(1, size)):
            return self.assemble(st, rid, off, size)
        z = st.mem.get((rid, "Z"), ())
        if any(lo <= off and off + size <= hi for lo, hi in z):
            if isinstance(ty, PtrTy): return NULL
            return bv(0, size * 8)
        lazy = st.mem.get((rid, "lazy"))
        if lazy is not None:
            return self.read_handle(st, lazy, Off(off), size, ty)
        if isinstance(ty, PtrTy): v = Ptr.mk(("h", fresh("undefptr_%s_%d" % (rid, off), B64)))
        elif isinstance(ty, FloatTy): v = FVal(fresh("undef", FSORT))
        else: v = fresh("undef_%s_%d" % (rid, off), z3.BitVecSort(size * 8))
        st.mem[(rid, off)] = v
        return v

    def read_symidx(self, st, rid, o, size, ty):
        if len(o.ts) != 1: raise Unsupported("multi-dimensional symbolic index")
        (t, stride) = o.ts[0]
        cells = self.idx_cells(st, rid, o, size)
        if not cells: raise Unsupported("symbolic index into unknown array in " + rid)
        out = None
        for k, off in reversed(cells):
            v = self.read_cell(st, ("r", rid), Off(off), size, ty)
            if isinstance(v, (Vec, Opaque)): raise Unsupported("symbolic index of aggregates")
            out = v if out is None else merge_val(t == bv(k & (2**64 - 1)), v, out)
        return out

    def idx_cells(self, st, rid, o, size):
        (t, stride) = o.ts[0]
        info = self.region_info.get(rid, {})
        n = info.get("size")
        if n is None: return []
        res = []
        lim = info.get("arrays", {})
        # array extent: registered by model of std::array / alloca array, else whole region
        lo, hi = 0, n
        for (a, b2) in lim.values() if isinstance(lim, dict) else []:
            if a <= o.c < b2: lo, hi = a, b2
        k0 = -((o.c - lo) // stride)
        k = k0
        while o.c + k * stride + size <= hi:
            res.append((k, o.c + k * stride)); k += 1
            if len(res) > 4200: raise Unsupported("array too large")
        return res

    def avec_index(self, v, o, size):
        n = v.e.size
        if size != n or o.c % n or any(s % n for _, s in o.ts): raise Unsupported("access of a local array with another element size")
        i = bv((o.c // n) & (2**64 - 1))
        for t, s in o.ts: i = i + t * bv((s // n) & (2**64 - 1))
        return simp(i)

    def read_bytes(self, st, rid, o, size):
        arr = st.mem[(rid, "arr")]; ln = st.mem[(rid, "alen")]
        t = o.term()
        self.oblige(st, mk_and(z3.ULE(t, ln), z3.ULE(bv(size), ln - t)), "bounds", "read of %d byte(s) inside the buffer" % size)
        bs = [simp(z3.Select(arr, simp(t + bv(i)))) for i in range(size)]
        return simp(z3.Concat(*reversed(bs))) if size > 1 else bs[0]

    def hfield(self, h, off, size):
        v = uf("mem%d_%d" % (size, off), B64, z3.BitVecSort(size * 8))(h)
        f = self.handle_facts(h, off, size, v)
        return v

    def handle_facts(self, h, off, size, v): pass

    def hvec(self, h, off, e):
        """value of the vector at offset off of an opaque object"""
        ln = uf("vlen_%d" % off, B64, B64)(h)
        self.pv.fact(z3.ULT(ln, bv(1 << 40)))
        return Vec(e, ln, [uf("varr_%d_%s_%d" % (off, e.key(), i), B64, z3.ArraySort(B64, c))(h) for i, c in enumerate(e.comps())])

    def read_handle(self, st, h, o, size, ty=None):
        if o.ts:
            if len(o.ts) == 1:
                t, stride = o.ts[0]
                return uf("memi%d_%d_%d" % (size, o.c, stride), B64, B64, z3.BitVecSort(size * 8))(h, t)
            raise Unsupported("symbolic offset in opaque object")
        return self.hfield(h, o.c, size)

    def velem(self, st, b, o):
        """(vector, index, inner offset)"""
        vp, es = b[1], b[2]
        inner = o.c % es
        idx = bv(((o.c - inner) // es) & (2**64 - 1))
        for t, s in o.ts:
            if s % es == 0: idx = idx + t * bv(s // es) if s != es else idx + t
            elif es % s == 0 and s < es:
                # byte-granular offset into multi-byte elements: only when provably aligned
                raise Unsupported("unaligned vector data access")
            else: raise Unsupported("vector stride")
        return simp(idx), inner

    def read_vecelem(self, st, b, o, size):
        idx, inner = self.velem(st, b, o)
        v = self.get_vec(st, b[1])
        self.oblige(st, z3.ULT(idx, v.len), "bounds", "vector index within size")
        el = v.load(idx)
        if isinstance(v.e, EStruct):
            if inner not in el: raise Unsupported("inner field of vector element")
            el = el[inner]
        elif inner != 0: raise Unsupported("inner offset of scalar element")
        return el

    def read_global(self, st, name, o, size, ty):
        key = ("@" + name, o.c)
        if key in st.mem and not o.ts: return st.mem[key]
        g = self.fr_mod.globals.get(name)
        if g is None: raise Unsupported("global " + name)
        if name in ("stderr", "stdout", "stdin"): return Opaque(name)
        init = self.global_init(name)
        if init is None: raise Unsupported("global initialiser " + name)
        gty, gv, const = init
        if not const: raise Unsupported("mutable global " + name)
        if o.ts:
            if len(o.ts) != 1: raise Unsupported("global multi index")
            t, stride = o.ts[0]
            n = self.fr_mod.size(gty)
            out = None; k = -(o.c // stride)
            cells = []
            while o.c + k * stride + size <= n: cells.append((k, o.c + k * stride)); k += 1
            for k, off in reversed(cells):
                v = self.global_at(gty, gv, off, size, ty)
                out = v if out is None else merge_val(t == bv(k & (2**64 - 1)), v, out)
            self.oblige(st, mk_or(*[t == bv(k & (2**64 - 1)) for k, _ in cells]) if len(cells) < 5 else
                        z3.And(t >= bv(cells[0][0] & (2**64 - 1)), t <= bv(cells[-1][0])), "bounds", "index into constant table")
            return out
        return self.global_at(gty, gv, o.c, size, ty)

    def global_init(self, name):
        s = self.fr_mod.globals[name]
        s = META_TAIL_G.sub("", s)
        const = re.search(r"\bconstant\b", s) is not None
        m = re.search(r"\b(constant|global)\b (.*)", s)
        if not m: return None
        if " external " in " " + s[:m.start()] + " ": return None
        p = ir.P(ir.tokenize(re.sub(r", (align \d+|comdat.*|section .*)", "", m.group(2))))
        ty = p.type()
        if p.peek() is None: return None
        v = ir.parse_value(p, ty)
        return ty, v, const

    def global_at(self, ty, v, off, size, lty):
        m = self.fr_mod
        ty = m.resolve(ty)
        if v.k == "zero":
            if isinstance(lty, PtrTy): return NULL
            return bv(0, size * 8)
        if isinstance(ty, ArrTy):
            es = m.size(ty.e); i = off // es
            if i >= ty.n or i < 0: raise Unsupported("constant table index out of range")
            if v.k == "str":
                bs = str_bytes(v.v); return bv(bs[i], 8) if size == 1 else self._uns("string load")
            return self.global_at(ty.e, v.v[i], off - i * es, size, lty)
        if isinstance(ty, StructTy):
            for i in range(len(ty.elems)):
                fo, fe = m.field_off(ty, i)
                if fo <= off < fo + m.size(fe): return self.global_at(fe, v.v[i], off - fo, size, lty)
        if isinstance(ty, IntTy): return bv(v.v, ty.w)
        if isinstance(ty, PtrTy): return self.val(None, v)
        raise Unsupported("global_at %r" % ty)

    def _uns(self, s): raise Unsupported(s)

    def store(self, st, p, val, size):
        self.nonnull(st, p, "store")
        alts = [a for a in p.alts if a[1] != NULLB]
        if len(alts) == 1:
            self.store1(st, alts[0][1], alts[0][2], val, size, T); return
        for c, b, o in alts: self.store1(st, b, o, val, size, c)

    def store1(self, st, b, o, val, size, cond):
        if b[0] == "r":
            rid = b[1]
            if (rid, "arr") in st.mem: return self.write_bytes(st, rid, o, val, size, cond)
            if (rid, "avec") in st.mem:
                v = st.mem[(rid, "avec")]; i = self.avec_index(v, o, size)
                self.oblige(st, z3.ULT(i, v.len) if is_t(cond) else z3.Implies(cond, z3.ULT(i, v.len)), "bounds", "local array index within bounds (store)")
                if z3.is_bool(val): val = z3.If(val, bv(1, 8), bv(0, 8))
                nv = v.store(i, val)
                st.mem[(rid, "avec")] = nv if is_t(cond) else merge_val(cond, nv, v); return
            if o.ts:
                if len(o.ts) != 1: raise Unsupported("multi-dimensional symbolic store")
                t, stride = o.ts[0]
                cells = self.idx_cells(st, rid, o, size)
                if not cells: raise Unsupported("symbolic store into unknown array")
                for k, off in cells:
                    old = self.read_cell(st, b, Off(off), size, IntTy(size * 8) if z3.is_expr(val) else PtrTy())
                    st.mem[(rid, off)] = merge_val(mk_and(cond, simp(t == bv(k & (2**64 - 1)))), val, old)
                return
            if is_t(cond): self.put(st, rid, o.c, val, size)
            else:
                old = self.read_cell(st, b, o, size, IntTy(size * 8) if z3.is_expr(val) else PtrTy())
                if isinstance(val, Ptr) and not isinstance(old, Ptr): old = self.int2ptr(old)
                self.put(st, rid, o.c, merge_val(cond, val, old), size)
            return
        if b[0] == "d":
            idx, inner = self.velem(st, b, o)
            v = self.get_vec(st, b[1])
            self.oblige(st, z3.ULT(idx, v.len), "bounds", "vector index within size (store)")
            if isinstance(val, Ptr): val = self.handle(st, val)
            if isinstance(v.e, EStruct):
                el = dict(v.load(idx)); el[inner] = val
            else: el = val
            nv = v.store(idx, el)
            if not is_t(cond): nv = merge_val(cond, nv, v)
            self.put_vec(st, b[1], nv); return
        if b[0] in ("m", "mp"):
            import stl
            off = o.c - (8 if b[0] == "mp" else 0)
            if off == 8: return
            if off != 0 or o.ts: raise Unsupported("map node offset")
            v = stl.map_get(self, st, b[1], None)
            nv = MapV(v.to, v.has, simp(z3.Store(v.val, b[2], self.handle(st, val) if isinstance(val, Ptr) else val)))
            if not is_t(cond): nv = merge_val(cond, nv, v)
            self.put_abs(st, b[1], nv); return
        if b[0] == "h":
            key = ("heap", "%d:%d" % (o.c, size))
            if o.ts or key not in st.mem: raise Unsupported("store through opaque handle")
            arr = st.mem[key]; nv = z3.Store(arr, b[1], val)
            st.mem[key] = nv if is_t(cond) else mk_ite(cond, nv, arr); return
        raise Unsupported("store to " + b[0])

    def put(self, st, rid, off, val, size):
        # kill overlapping cells of other granularity
        if z3.is_bv(val):
            old = st.mem.get((rid, off))
            if old is not None and z3.is_bv(old) and old.size() > size * 8:
                hi = simp(z3.Extract(old.size() - 1, size * 8, old))
                # split the tail into bytes
                for i in range(hi.size() // 8): st.mem[(rid, off + size + i)] = simp(z3.Extract(8 * i + 7, 8 * i, hi))
            for k in range(1, size):
                if (rid, off + k) in st.mem: del st.mem[(rid, off + k)]
            for k in range(1, 8):
                v = st.mem.get((rid, off - k))
                if v is not None and z3.is_bv(v) and v.size() // 8 > k:
                    n = v.size() // 8
                    for i in range(n):
                        st.mem[(rid, off - k + i)] = simp(z3.Extract(8 * i + 7, 8 * i, v))
                    for i in range(size):
                        st.mem.pop((rid, off + i), None)
                    break
        st.mem[(rid, off)] = val

    def write_bytes(self, st, rid, o, val, size, cond):
        arr = st.mem[(rid, "arr")]; ln = st.mem[(rid, "alen")]; t = o.term()
        self.oblige(st, mk_and(z3.ULE(t, ln), z3.ULE(bv(size), ln - t)), "bounds", "write of %d byte(s) inside the buffer" % size)
        n = arr
        for i in range(size): n = z3.Store(n, simp(t + bv(i)), simp(z3.Extract(8 * i + 7, 8 * i, val)))
        st.mem[(rid, "arr")] = n if is_t(cond) else z3.If(cond, n, arr)

    # ---------------------------------------------------------------- abstract cells (vectors, maps, bit buffers)
    def get_abs(self, st, p, cls, mk_handle):
        self.nonnull(st, p, cls.__name__)
        alts = [a for a in p.alts if a[1] != NULLB]
        if not alts: raise Unsupported("%s at null" % cls.__name__)
        out = None
        for c, b, o in reversed(alts):
            if b[0] == "r" and not o.ts:
                v = st.mem.get((b[1], o.c))
                if v is None and (b[1], "lazy") in st.mem: v = mk_handle(st.mem[(b[1], "lazy")], o)
                if v is None and cls is Vec and mk_handle is not None and any(lo <= o.c < hi for lo, hi in st.mem.get((b[1], "Z"), ())): v = mk_handle(None, o)
            elif b[0] == "h" and not o.ts: v = mk_handle(b[1], o)
            elif b[0] == "d":
                idx, inner = self.velem(st, b, o)
                pv = self.get_vec(st, b[1])
                self.oblige(st, z3.ULT(idx, pv.len), "bounds", "vector index within size")
                v = pv.load(idx)
                if isinstance(pv.e, EStruct): v = v[inner]
            else: raise Unsupported("abstract object at " + b[0])
            if not isinstance(v, cls): raise Unsupported("no %s at %r" % (cls.__name__, p))
            out = v if out is None else merge_val(c, v, out)
        return out

    def put_abs(self, st, p, v):
        alts = [a for a in p.alts if a[1] != NULLB]
        for c, b, o in alts:
            if b[0] == "r" and not o.ts:
                old = st.mem.get((b[1], o.c))
                st.mem[(b[1], o.c)] = v if (len(alts) == 1 or old is None) else merge_val(c, v, old)
            elif b[0] == "d":
                idx, inner = self.velem(st, b, o)
                pv = self.get_vec(st, b[1])
                if isinstance(pv.e, EStruct):
                    el = dict(pv.load(idx)); el[inner] = v
                else: el = v
                nv = pv.store(idx, el)
                if len(alts) > 1: nv = merge_val(c, nv, pv)
                self.put_vec(st, b[1], nv)
            else: raise Unsupported("abstract store to " + b[0])

    def get_vec(self, st, p, e=None):
        def mk(h, o):
            if h is None: return Vec.empty(e) if e is not None else self._uns("vector of unknown element type")
            k = (h.get_id(), o.c)
            if e is not None: self.hvec_ety[k] = (e, h)
            elif k not in self.hvec_ety: self._uns("vector of unknown element type")
            return self.hvec(h, o.c, e or self.hvec_ety[k][0])
        return self.get_abs(st, p, Vec, mk)

    def put_vec(self, st, p, v): self.put_abs(st, p, v)

    # ---------------------------------------------------------------- functions
    def call_fn(self, fn, args, st):
        """inline: returns list of (state, value); st.env of the caller is preserved"""
        if len(self.callstack) > 60 or self.callstack.count(fn.name) > 2: raise Unsupported("recursion in " + fn.name)
        saved = (getattr(self, "fn", None), getattr(self, "fr_mod", None), getattr(self, "cur_loc", None))
        caller_env = st.env
        fn.parse()
        self.callstack.append(fn.name)
        self.inlined.add(fn.name)
        try:
            self.fn, self.fr_mod = fn, fn.mod
            s = st.copy(); s.env = {}
            if len(args) < len(fn.params): raise Unsupported("arity of " + fn.name)
            for (n, ty, at), a in zip(fn.params, args):
                s.env[n] = a
            outs, rets, backs = self.run_region(fn, set(fn.order), {fn.entry: [s]}, None)
            res = []
            for (s2, v) in rets:
                s2.env = dict(caller_env); res.append((s2, v))
            return res
        finally:
            self.callstack.pop()
            self.fn, self.fr_mod, self.cur_loc = saved

    def group_returns(self, res):
        """merge the states returning from an inlined call, by concrete return value"""
        if len(res) <= 1: return res
        groups = []
        for s, v in res:
            for g in groups:
                if self.same_ret(g[0][1], v): g.append((s, v)); break
            else: groups.append([(s, v)])
        out = []
        for g in groups:
            if len(g) == 1: out.append(g[0]); continue
            m = self.merge_with_val(g)
            out.append(m)
        return out

    def same_ret(self, a, b):
        if a is None and b is None: return True
        if isinstance(a, Ptr) and isinstance(b, Ptr): return ptr_same(a, b) or (a.single and b.single and base_eq(a.alts[0][1], b.alts[0][1]))
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b): return True
            ca = is_t(a) or is_f(a) or isc(a); cb = is_t(b) or is_f(b) or isc(b)
            return not ca and not cb
        return True

    def merge_with_val(self, g):
        for i, (s, v) in enumerate(g): s.env = dict(s.env); s.env["%ret"] = v
        m = merge_states([s for s, _ in g])
        v = m.env.pop("%ret", None)
        for s, _ in g: s.env.pop("%ret", None)
        return (m, v)

    # ---------------------------------------------------------------- region execution
    def run_region(self, fn, region, incoming, header):
        """runs the blocks of `region` (a loop body when header is given, else the whole function).
           incoming: block -> [states] (phi nodes already evaluated).
           returns (exits: [(state, from, to)], rets: [(state,val)], backs: [(state, from)])"""
        cfg = fn.cfg(); idx = cfg["idx"]; loops = cfg["loops"]
        exits, rets, backs = [], [], []
        pending = {b: list(s) for b, s in incoming.items()}
        done = set()

        def deliver(st, frm, to):
            if header is not None and to == header:
                self.edge_phis(fn, st, frm, to); backs.append((st, frm)); return
            if to not in region:
                exits.append((st, frm, to)); return
            self.edge_phis(fn, st, frm, to)
            pending.setdefault(to, []).append(st)

        inner_bodies = {}
        order = [b for b in cfg["rpo"] if b in region]
        for b in order:
            sts = pending.pop(b, None)
            if not sts: continue
            if b in loops and b != header:
                if len(sts) > 1: sts = [merge_states(sts)]
                ex, rt, _ = self.do_loop(fn, b, sts[0])
                rets.extend(rt)
                for (s, f, t) in ex: deliver(s, f, t)
                continue
            if len(sts) > 1 and not self.is_tail(fn, b, region):
                sts = [merge_states(sts)]
            for s in sts:
                for (s2, to, rv) in self.run_block(fn, b, s):
                    if to is None: rets.append((s2, rv))
                    else: deliver(s2, b, to)
        return exits, rets, backs

    def is_tail(self, fn, b, region):
        c = getattr(fn, "_tail", None)
        if c is None: c = fn._tail = {}
        if b in c: return c[b]
        # block leads straight to ret through at most 8 blocks, no loops
        cfg = fn.cfg(); seen = []; work = [b]; ok = True
        while work and ok:
            x = work.pop()
            if x in seen: continue
            seen.append(x)
            if len(seen) > 10 or x in cfg["loops"]: ok = False; break
            if x not in region and False: ok = False
            if sum(1 for i in fn.blocks[x].ins if i.op == "call") > 25: ok = False
            work.extend(cfg["succ"][x])
        c[b] = ok
        return ok

    def edge_phis(self, fn, st, frm, to):
        vals = []
        for ins in fn.blocks[to].ins:
            if ins.op != "phi": break
            for v, b in ins.x:
                if b == frm: vals.append((ins.dst, self.val(st, v))); break
            else: raise Unsupported("phi edge")
        for d, v in vals: st.env[d] = v

    # returns list of (state, target block or None, retval)
    def run_block(self, fn, bname, st):
        states = [st]
        blk = fn.blocks[bname]
        for ins in blk.ins:
            if ins.op == "phi": continue
            self.steps += len(states)
            if self.steps > self.max_steps: raise Unsupported("step budget exceeded")
            if self.pv.deadline and (self.steps & 63) == 0 and time.time() > self.pv.deadline: raise Unsupported("time budget exceeded")
            if ins.op in ("call", "invoke"):
                new = []
                for s in states: new.extend(self.do_call(fn, ins, s))
                states = new
                if not states: return []
                if ins.op == "invoke": return [(s, ins.x[1], None) for s in states]
                continue
            if ins.op in ("br", "switch", "ret", "unreachable"):
                out = []
                for s in states: out.extend(self.terminator(ins, s))
                return out
            for s in states: self.instr(ins, s)
        raise Unsupported("block without terminator")

    def terminator(self, ins, st):
        if ins.op == "ret":
            return [(st, None, self.val(st, ins.a[0]) if ins.a else None)]
        if ins.op == "unreachable":
            return []
        if ins.op == "br":
            if not ins.a: return [(st, ins.x[0], None)]
            c = decide(st, simp(self.val(st, ins.a[0])))
            a, b = ins.x
            if is_t(c): return [(st, a, None)]
            if is_f(c): return [(st, b, None)]
            s2 = st.copy(); out = []
            if st.assume(c): out.append((st, a, None))
            if s2.assume(mk_not(c)): out.append((s2, b, None))
            return out
        if ins.op == "switch":
            v = simp(self.val(st, ins.a[0])); d, cases = ins.x
            if isc(v):
                for k, b in cases:
                    if (k % (1 << v.size())) == cval(v): return [(st, b, None)]
                return [(st, d, None)]
            by = {}
            for k, b in cases: by.setdefault(b, []).append(k)
            out = []; neg = []
            for b, ks in by.items():
                c = simp(mk_or(*[v == bv(k, v.size()) for k in ks]))
                neg.append(mk_not(c))
                if b == d: continue
                s2 = st.copy()
                cc = decide(s2, c)
                if is_f(cc): continue
                if s2.assume(c): out.append((s2, b, None))
            s2 = st.copy()
            others = [mk_not(simp(mk_or(*[v == bv(k, v.size()) for k in ks]))) for b, ks in by.items() if b != d]
            ok = True
            for c in others:
                if not s2.assume(c): ok = False; break
            if ok: out.append((s2, d, None))
            return out
        raise Unsupported(ins.op)

    # ---------------------------------------------------------------- plain instructions
    def instr(self, ins, st):
        op = ins.op
        if op == "load":
            p = self.val(st, ins.a[0]); self.cur_loc = self.loc(ins)
            st.env[ins.dst] = self.load(st, self.aptr(p), ins.ty); return
        if op == "store":
            self.cur_loc = self.loc(ins)
            v = self.val(st, ins.a[0]); p = self.aptr(self.val(st, ins.a[1])); m = self.fr_mod
            ty = m.resolve(ins.ty)
            if isinstance(v, (list,)) and isinstance(ty, StructTy):
                for i, e in enumerate(ty.elems):
                    o, e2 = m.field_off(ty, i); self.store(st, p.add(o), self.tomem(v[i], m.resolve(e2)), m.size(e2))
                return
            self.store(st, p, self.tomem(v, ty), m.size(ty)); return
        if op == "getelementptr":
            self.cur_loc = self.loc(ins)
            st.env[ins.dst] = self.gep(st, ins.ty, [self.val(st, a) for a in ins.a]); return
        if op == "alloca":
            n = 1
            if ins.x is not None:
                n = self.val(st, ins.x)
                if not isc(n): raise Unsupported("variable length array")
                n = cval(n)
            rid = self.new_region(st, "a" + ins.dst, self.fr_mod.size(ins.ty) * n)
            st.env[ins.dst] = Ptr.mk(("r", rid))
            if self.array_locals and isinstance(ins.ty, ir.ArrTy) and isinstance(ins.ty.e, IntTy) and ins.ty.e.w in (8, 16, 32, 64) and ins.ty.n >= 2:
                w = ins.ty.e.w
                st.mem[(rid, "avec")] = Vec(EScal(w // 8), bv(ins.ty.n), [fresh("uninit_" + rid, z3.ArraySort(B64, z3.BitVecSort(w)))])
            return
        if op in ir.BIN:
            a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
            self.cur_loc = self.loc(ins) if ins.dbg else self.cur_loc
            st.env[ins.dst] = self.binop(st, ins, a, b); return
        if op == "icmp":
            st.env[ins.dst] = self.icmp(st, ins.x, self.val(st, ins.a[0]), self.val(st, ins.a[1])); return
        if op in ir.CAST:
            self.cur_loc = self.loc(ins) if ins.dbg else self.cur_loc
            st.env[ins.dst] = self.cast(st, op, self.val(st, ins.a[0]), ins.a[0].ty, ins.ty); return
        if op == "select":
            c = decide(st, simp(self.val(st, ins.a[0]))); a, b = self.val(st, ins.a[1]), self.val(st, ins.a[2])
            st.env[ins.dst] = merge_val(c, a, b) if not (is_t(c) or is_f(c)) else (a if is_t(c) else b); return
        if op == "extractvalue":
            v = self.val(st, ins.a[0])
            for i in ins.x: v = v[i]
            st.env[ins.dst] = v; return
        if op == "insertvalue":
            v = list(self.val(st, ins.a[0])); w = self.val(st, ins.a[1])
            if len(ins.x) != 1: raise Unsupported("nested insertvalue")
            v[ins.x[0]] = w; st.env[ins.dst] = v; return
        if op == "freeze": st.env[ins.dst] = self.val(st, ins.a[0]); return
        if op == "fcmp":
            a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
            st.env[ins.dst] = uf("fcmp_" + ins.x, FSORT, FSORT, BOOL)(a.t, b.t); return
        if op == "fneg":
            st.env[ins.dst] = FVal(uf("fneg", FSORT, FSORT)(self.val(st, ins.a[0]).t)); return
        if op == "atomicrmw":
            raise Unsupported("atomicrmw")
        raise Unsupported("instruction " + op)

    def aptr(self, p):
        if isinstance(p, Ptr): return p
        if z3.is_expr(p): return self.int2ptr(p)
        if isinstance(p, Opaque): raise Unsupported("deref of opaque value")
        raise Unsupported("deref of %s" % type(p))

    def tomem(self, v, ty):
        if z3.is_expr(v) and z3.is_bool(v): return simp(z3.If(v, bv(1, 8), bv(0, 8)))
        return v

    def binop(self, st, ins, a, b):
        op = ins.op
        if isinstance(a, FVal): return FVal(uf(op, FSORT, FSORT, FSORT)(a.t, b.t))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr): return self.ptrdiff(st, a, b)
            raise Unsupported("pointer arithmetic " + op)
        if z3.is_bool(a):
            if op == "xor": return simp(z3.Xor(a, b))
            if op == "and": return mk_and(a, b)
            if op == "or": return mk_or(a, b)
            raise Unsupported("i1 " + op)
        w = a.size(); fl = ins.flags
        if op in ("add", "sub", "mul") and "nsw" in fl and not (isc(a) and isc(b)):
            if op == "add": g = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == "sub": g = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            else: g = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            self.oblige(st, g, "overflow", "signed %s does not overflow" % op)
        if op == "add": return simp(a + b)
        if op == "sub": return simp(a - b)
        if op == "mul":
            if "nsw" not in fl and a.size() in (32, 64) and not isc(a) and not isc(b):
                return simp(z3.Extract(a.size() - 1, 0, umul(zx(a, 64), zx(b, 64), self.pv)))
            return simp(a * b)
        if op in ("udiv", "sdiv", "urem", "srem"):
            self.oblige(st, b != 0, "div", "divisor is not zero")
            if op[0] == "s": self.oblige(st, z3.Not(z3.And(a == bv(1 << (w - 1), w), b == bv(-1, w))), "overflow", "signed division does not overflow")
            return simp({"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](a, b))
        if op in ("shl", "lshr", "ashr"):
            self.oblige(st, z3.ULT(b, bv(w, w)), "shift", "shift amount is below the operand width")
            return simp({"shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y}[op](a, b))
        if op == "and": return simp(a & b)
        if op == "or": return simp(a | b)
        if op == "xor": return simp(a ^ b)
        raise Unsupported(op)

    def ptrdiff(self, st, a, b):
        if not (a.single and b.single) or not base_eq(a.alts[0][1], b.alts[0][1]): raise Unsupported("difference of unrelated pointers")
        return simp(a.alts[0][2].term() - b.alts[0][2].term())

    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = self.int2ptr(a)
            if not isinstance(b, Ptr): b = self.int2ptr(b)
            if pred in ("eq", "ne"):
                r = self.ptr_eq(st, a, b)
                return simp(r if pred == "eq" else mk_not(r))
            if a.single and b.single and base_eq(a.alts[0][1], b.alts[0][1]):
                x, y = a.alts[0][2].term(), b.alts[0][2].term()
                return simp({"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[pred](x, y))
            raise Unsupported("pointer order")
        if z3.is_bool(a):
            r = a == b
            return simp(r if pred == "eq" else z3.Not(r)) if pred in ("eq", "ne") else self._uns("i1 compare")
        f = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE,
             "slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y, "sge": lambda x, y: x >= y}[pred]
        return simp(f(a, b))

    def ptr_eq(self, st, a, b):
        res = []
        for c1, b1, o1 in a.alts:
            for c2, b2, o2 in b.alts:
                if b1 == NULLB and b2 == NULLB: e = T
                elif b1 == NULLB or b2 == NULLB:
                    bb = b2 if b1 == NULLB else b1
                    if bb[0] == "h": e = simp(bb[1] == 0)
                    elif bb[0] == "d":
                        e = F
                    else: e = F
                elif base_eq(b1, b2): e = self.off_eq(o1, o2) if b1[0] == "d" else simp(o1.term() == o2.term())
                elif b1[0] == "h" or b2[0] == "h":
                    if b1[0] == "h" and b2[0] == "h" and o1.same(o2): e = simp(b1[1] == b2[1])
                    else: raise Unsupported("comparison with opaque pointer")
                elif b1[0] == "d" and b2[0] == "d" : raise Unsupported("comparison of different vectors' storage")
                else: e = F
                res.append(mk_and(c1, c2, e))
        return mk_or(*res)

    def off_eq(self, o1, o2):
        """offsets into one vector's storage (less than 2^63 bytes): equal exactly when the element indices are"""
        ss = {s for _, s in o1.ts + o2.ts}
        if len(ss) == 1:
            s = ss.pop()
            if s > 1 and (o1.c - o2.c) % s == 0:
                ix = lambda o: z3.Sum([t for t, _ in o.ts] + [bv((o.c - o1.c) // s & (2**64 - 1))]) if o.ts else bv((o.c - o1.c) // s & (2**64 - 1))
                return simp(ix(o1) == ix(o2))
        return simp(o1.term() == o2.term())

    def cast(self, st, op, v, fty, ty):
        if op == "zext":
            if z3.is_bool(v): return simp(z3.If(v, bv(1, ty.w), bv(0, ty.w)))
            return zx(v, ty.w)
        if op == "sext":
            if z3.is_bool(v): return simp(z3.If(v, bv(-1, ty.w), bv(0, ty.w)))
            return sx(v, ty.w)
        if op == "trunc":
            if ty.w == 1: return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(ty.w - 1, 0, v))
        if op == "ptrtoint": return v
        if op in ("inttoptr", "bitcast"): return v
        if op in ("uitofp", "sitofp"):
            k = ty.k
            return FVal(uf("%s_%s" % (op, k), v.sort(), FSORT)(v)) if not z3.is_bool(v) else self._uns("fp of i1")
        if op in ("fptoui", "fptosi"):
            r = self.fp_idiom(st, v.t, ty.w)
            if r is not None: return r
            return uf("%s_%d_%s" % (op, ty.w, fty.k), FSORT, z3.BitVecSort(ty.w))(v.t)
        if op in ("fpext", "fptrunc"): return FVal(uf(op, FSORT, FSORT)(v.t))
        raise Unsupported(op)

    def fp_idiom(self, st, t, w):
        """integer meaning of two floating-point idioms: ceil(a / b) in double and ceil(log2(x)); see vc/lemmas.py"""
        def app(x, n): return z3.is_app(x) and x.decl().name() == n and x.num_args() > 0
        def fromint(x, fl):
            if app(x, "uitofp_" + fl): return x.arg(0)
            if app(x, "fmul"):
                for i in (0, 1):
                    if str(x.arg(i)) in ("fconst_1.0", "fconst_1.000000e+00"): return fromint(x.arg(1 - i), fl)
            return None
        if not app(t, "ceil"): return None
        x = t.arg(0)
        if app(x, "fdiv"):
            a, b = fromint(x.arg(0), "double"), fromint(x.arg(1), "double")
            if a is None or b is None or a.size() > 32 or b.size() > 32: return None
            self.oblige(st, b != 0, "ub", "the quotient converted to an integer is finite")
            a, b = simp(zx(a, 64)), simp(zx(b, 64))
            r = uf("fp_ceil_div", B64, B64, B64)(a, b)
            self.pv.fact(z3.Implies(mk_and(z3.ULE(a, bv(16888)), z3.ULE(b, bv(1024)), b != 0), r == specrun.ceil_div(a, b, self.pv)))
            return simp(z3.Extract(w - 1, 0, r))
        if app(x, "log2"):
            for fl in ("float", "double"):
                a = fromint(x.arg(0), fl)
                if a is None: continue
                a = simp(zx(a, 64))
                self.oblige(st, a != 0, "ub", "log2 of a positive number is converted to an integer")
                r = uf("ceil_log2_" + fl, B64, B64)(a); c = specrun.clog2(a, self.pv)
                if fl == "float":
                    ok = mk_and(z3.ULE(a, bv(4456321)), *[a != bv(k) for k in (2097153, 4194305, 4194306)])
                else: ok = z3.ULE(a, bv(1 << 24))
                self.pv.fact(z3.Implies(ok, r == c))
                return simp(z3.Extract(w - 1, 0, r))
        return None

    # ---------------------------------------------------------------- calls
    def do_call(self, fn, ins, st):
        callee = ins.x[0]
        self.cur_loc = self.loc(ins) if ins.dbg else self.cur_loc
        args = [self.val(st, a) for a in ins.a if a.k != "meta"]
        if callee.k == "global": name = callee.v
        else:
            p = self.val(st, callee)
            if isinstance(p, Ptr) and p.single and p.alts[0][1][0] == "f": name = p.alts[0][1][1]
            elif isinstance(p, Ptr) and all(b[0] == "f" for _, b, _ in p.alts):
                out = []
                for c, b, o in p.alts:
                    s2 = st.copy()
                    if not s2.assume(c): continue
                    for (s3, v) in self.call_name(b[1], args, s2, ins):
                        if ins.dst is not None: s3.env[ins.dst] = v
                        out.append(s3)
                return out
            else: raise Unsupported("indirect call")
        res = self.call_name(name, args, st, ins)
        out = []
        for s, v in res:
            if ins.dst is not None: s.env[ins.dst] = v
            out.append(s)
        return out

    def call_name(self, name, args, st, ins):
        """-> [(state, value)]"""
        self.probe_callee = name
        if name in self.contracts:
            r = self.contracts[name](self, st, args, ins)
            if r is not None: return r
        if self.models is not None:
            r = self.models(self, st, name, args, ins)
            if r is not None:
                self.modelled.add(name); return r
        f = self.fr_mod.funcs.get(name) or self.prog.find(name, self.fr_mod.src)
        if f is None: raise Unsupported("external function " + ir.demangle1(name))
        return self.group_returns(self.call_fn(f, args, st))

    # ---------------------------------------------------------------- loops
    def do_loop(self, fn, header, st):
        """returns (exits, rets, None)"""
        import loops
        return loops.do_loop(self, fn, header, st)


META_TAIL_G = re.compile(r", ![a-zA-Z_.]+ !\d+")


def str_bytes(s):
    out = []; i = 0
    while i < len(s):
        if s[i] == "\\": out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out
