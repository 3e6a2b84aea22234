"""Symbolic interpretation of a specification: the bit-stream syntax as a pure function of (stream, position, arguments).
Everything is a guarded data-flow term (no path splitting); symbolic loops become loop instances with head / step / post
constants that the code's loops are matched against."""
import z3
from sym import *
from dit import struct_info
import dsl

SPOS = B64


def bitsf(S, pos, n): return uf("bits", B64, B64, B64, B32)(S, pos, n)
def bits64f(S, pos, n): return uf("bits64", B64, B64, B64, B64)(S, pos, n)
def tot(S): return uf("tot", B64, B64)(S)
def u_ok(S, pos, n): return simp(z3.ULE(pos + n, tot(S)))
def ue_ok(S, pos): return uf("ue_ok", B64, B64, BOOL)(S, pos)
def ue_val(S, pos): return uf("ue_val", B64, B64, B32)(S, pos)
def ue_end(S, pos): return uf("ue_end", B64, B64, B64)(S, pos)
def se_val(S, pos): return uf("se_val", B64, B64, B32)(S, pos)
def more(S, pos): return uf("more_rbsp", B64, B64, BOOL)(S, pos)
def tr_ok(S, pos): return uf("trailing_ok", B64, B64, BOOL)(S, pos)
def tr_fend(S, pos): return uf("trailing_fend", B64, B64, B64)(S, pos)
def tr_end(S, pos): return uf("trailing_end", B64, B64, B64)(S, pos)
ARR8 = z3.ArraySort(B64, z3.BitVecSort(8))
def bytesf(S, pos, n): return uf("bytes_at", B64, B64, B64, ARR8)(S, pos, n)      # the next n bytes of the stream
def unesc(A, n): return uf("UNESC_ARR", ARR8, B64, ARR8)(A, n), uf("UNESC_LEN", ARR8, B64, B64)(A, n)
def substream(S, pos, n): return uf("STREAM", ARR8, B64, B64)(*unesc(bytesf(S, pos, n), n))
def clog2(x, pv=None):
    """Ceil(Log2(x)); the facts are lemmas (vc/lemmas.py)"""
    r = uf("ceil_log2", B64, B64)(x)
    if pv is not None:
        pv.fact(z3.ULE(r, 64)); pv.fact(z3.ULE(x, 1) == (r == 0))
        for k in (8, 16, 24, 32): pv.fact(mk_or(mk_not(z3.ULE(x, bv(1 << k))), z3.ULE(r, k)))
    return r


def ceil_div(a, b, pv):
    """ceil(a / b) for 32-bit a, b (64-bit terms); facts are lemmas (vc/lemmas.py)"""
    a, b = simp(zx(zx(a, 32), 64)), simp(zx(zx(b, 32), 64))
    r = uf("ceil_div", B64, B64, B64)(a, b)
    pv.fact(z3.ULE(r, a))
    pv.fact(z3.Implies(z3.And(a != 0, b != 0), r != 0))
    pv.fact(z3.Implies(z3.And(z3.ULE(a, 16888), z3.UGE(b, 8)), z3.ULE(r, 2111)))
    return r


# ------------------------------------------------------------------ well-formed containers
# wf_each(v): every element of the pointer vector v is non-null and satisfies the exported facts of the parser that makes its type;
# wf_world(w): the same for every entry of the world's maps.  Assumed: instantiated at every element that is dereferenced.
# To be proved: for one arbitrary (fresh) element.
ANY = z3.Const("any_index", B64)


def wf_state(pv):
    if not hasattr(pv, "wf"): pv.wf = {}; pv.wf_done = set(); pv.wf_as = set(); pv.wf_keep = []
    return pv


def wf_register(run, arr, dom, q, guard):
    """dom(i): whether index i is populated"""
    pv = wf_state(run.pv)
    pv.wf.setdefault(arr.get_id(), []).append((dom, q, guard)); pv.wf_keep.append(arr)
    for k in [k for k in pv.wf_done if k[0] == arr.get_id()]: pv.wf_done.discard(k)


def wf_touch(run, arr, i):
    pv = wf_state(run.pv)
    k = (arr.get_id(), i.get_id())
    if k in pv.wf_done: return
    pv.wf_done.add(k); pv.wf_keep += [arr, i]
    for dom, q, guard in pv.wf.get(arr.get_id(), []):
        el = simp(z3.Select(arr, i)); g = mk_and(guard, dom(i))
        pv.fact(z3.Implies(g, el != 0)); wf_assume(run, el, q, g)
    if z3.is_store(arr): wf_touch(run, arr.arg(0), i); wf_handle(run, arr.arg(2))
    elif z3.is_app_of(arr, z3.Z3_OP_ITE): wf_touch(run, arr.arg(1), i); wf_touch(run, arr.arg(2), i)
    elif arr.num_args() == 1 and arr.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        h = arr.arg(0); wf_handle(run, h)
        for x in wf_alts(h):
            if not x.eq(h): wf_touch(run, arr.decl()(x), i)


def wf_alts(h):
    """the handles h may denote (reads of updated arrays and conditionals resolved)"""
    if z3.is_app_of(h, z3.Z3_OP_ITE): return wf_alts(h.arg(1)) + wf_alts(h.arg(2))
    if z3.is_app_of(h, z3.Z3_OP_SELECT):
        a, i = h.arg(0), h.arg(1)
        if z3.is_store(a): return wf_alts(a.arg(2)) + wf_alts(z3.Select(a.arg(0), i))
        if z3.is_app_of(a, z3.Z3_OP_ITE): return wf_alts(z3.Select(a.arg(1), i)) + wf_alts(z3.Select(a.arg(2), i))
    return [h]


def wf_handle(run, t):
    """the object behind handle t is about to be used"""
    if not z3.is_expr(t) or not z3.is_app(t): return
    pv = wf_state(run.pv)
    if ("h", t.get_id()) in pv.wf_done: return
    pv.wf_done.add(("h", t.get_id())); pv.wf_keep.append(t)
    if z3.is_app_of(t, z3.Z3_OP_SELECT): 
        pv.wf_done.discard(("h", t.get_id())); wf_touch(run, t.arg(0), t.arg(1))
    elif z3.is_app_of(t, z3.Z3_OP_ITE): wf_handle(run, t.arg(1)); wf_handle(run, t.arg(2))


def wf_syntax(run, q):
    for sp in run.specs.values():
        if sp.state == q: return sp
    return None


def layout(run, q):
    """a class's layout, taken from another module when this one only forward-declares the class"""
    try: return struct_info(run.mod, q)
    except Unsupported:
        for m in run.mod.prog.all_mods():
            if q in m.structs(): return struct_info(m, q)
        raise


def wf_facts(run, h, q, pol):
    sp = wf_syntax(run, q)
    if sp is None: raise Unsupported("no specification makes " + str(q))
    out = []
    saved = run.pol; run.pol = pol
    try:
        for e in ensures_of(sp):
            try: out.append(run.bool(e, Lazy(run, h, layout(run, q), {})))
            except SpecUnknown: continue
    finally: run.pol = saved
    return out


def wf_assume(run, h, q, g):
    pv = run.pv
    k = (h.get_id(), g.get_id() if z3.is_expr(g) else g)
    if k in pv.wf_as: return
    pv.wf_as.add(k); pv.wf_keep += [h, g]
    for c in wf_facts(run, h, q, ("assume", g)): pv.fact(z3.Implies(g, c))


def wf_pred(run, val):
    """the predicate for a vector or a world, assumed or to be proved according to run.pol"""
    items = []
    if isinstance(val, SVec):
        v = val.v; items.append((v.arrs[0], (lambda i, n=v.len: z3.ULT(i, n)), v.e.to, B64))
    elif isinstance(val, WVal):
        for m in val.d.values(): items.append((m.val, (lambda i, h=m.has: simp(z3.Select(h, i))), m.to, B32))
    else: raise Unsupported("wf of this value")
    mode = run.pol[0]
    if mode == "assume":
        for arr, dom, q, _ in items: wf_register(run, arr, dom, q, run.pol[1])
        return T
    goals = []
    for arr, dom, q, srt in items:
        i = fresh("wf_i", srt); wf_touch(run, arr, i)
        el = simp(z3.Select(arr, i))
        goals.append(z3.Implies(dom(i), mk_and(el != 0, *wf_facts(run, el, q, ("prove",)))))
    return mk_and(*goals)


class SpecUnknown(Unsupported): pass


class SHandle:
    """specification-level object reference: handle term + C++ struct name"""
    __slots__ = ("t", "q", "cond")
    def __init__(self, t, q): self.t, self.q = t, q


class SVec:
    __slots__ = ("v", "e")
    def __init__(self, v): self.v = v; self.e = v.e


class WVal:
    """mutable object of maps (the parser state): field name -> MapV"""
    __slots__ = ("q", "d")
    def __init__(self, q, d): self.q, self.d = q, d
    def terms(self): return [x for n in self.d for x in (self.d[n].has, self.d[n].val)]
    def with_terms(self, ts): return WVal(self.q, {n: MapV(self.d[n].to, ts[2 * i], ts[2 * i + 1]) for i, n in enumerate(self.d)})


def flat_args(ts):
    out = []
    for t in ts:
        if isinstance(t, SVec): out += [t.v.len] + list(t.v.arrs)
        elif isinstance(t, WVal): out += t.terms()
        else: out.append(t)
    return out


class SEl:
    """struct element of a vector"""
    __slots__ = ("d", "e", "q")
    def __init__(self, d, e): self.d, self.e = d, e


class Read:
    __slots__ = ("kind", "pos", "n", "ctx", "line", "guard", "idx", "args", "name")
    def __init__(self, kind, pos, n, ctx, line, guard, args=(), name=None):
        self.kind, self.pos, self.n, self.ctx, self.line, self.guard, self.args, self.name = kind, pos, n, ctx, line, guard, args, name


def nonneg(t, d=0):
    """syntactically non-negative 64-bit term"""
    if isc(t): return cval(t) < 1 << 63
    k = t.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        a = t.arg(0); return isc(a) and cval(a) >> (a.size() - 1) == 0
    if k == z3.Z3_OP_ZERO_EXT: return True
    if k == z3.Z3_OP_ITE and d < 6: return nonneg(t.arg(1), d + 1) and nonneg(t.arg(2), d + 1)
    if k == z3.Z3_OP_BADD and d < 6:
        return all(small(x) for x in t.children())
    return False


def small(t):
    """below 2^40"""
    if isc(t): return cval(t) < 1 << 40
    if t.decl().kind() == z3.Z3_OP_CONCAT:
        a = t.arg(0); return isc(a) and cval(a) == 0 and a.size() >= 24
    if t.decl().kind() == z3.Z3_OP_ZERO_EXT: return t.arg(0).size() <= 40
    return False


class LoopInst:
    def __init__(self):
        self.parent = None; self.line = None; self.guard = T; self.okpre = ()
        self.entry = {}; self.head = {}; self.step = {}; self.post = {}; self.brk = {}
        self.cond = T; self.body_ok = (); self.loop_ok = None; self.kind = "for"
        self.reads = []; self.loops = []; self.matched = 0; self.env = None; self.invs = []; self.post_subst = []
        self.break_cond = None


def ubool(t): return simp(z3.If(t, bv(1), bv(0)))


class SpecRun:
    def __init__(self, specs, defs, mod, prover, spec, S, pos, args, consts=None, prefix=""):
        self.specs, self.defs, self.mod, self.pv = specs, defs, mod, prover
        self.sp = spec; self.S = S
        self.root = LoopInst(); self.ctx = self.root
        self.ok = []                       # list of (formula, line, desc) for the current context
        self.ensures = []; self.requires = []; self.pol = ("prove",)
        self.si = struct_info(mod, spec.state) if spec.state else None
        self.dontcare = []
        env = {"%pos": pos}
        self.fields = []
        if self.si:
            for n in self.si.order:
                o, e = self.si.fields[n]
                if isinstance(e, EOpaque): continue
                env[n] = self.default(e); self.fields.append(n)
        for (n, ty, arg) in spec.params: env[n] = args[n]
        self.args = args
        self.nconst = 0; self.wfbs = []; self.loopvars = []
        self.world = next((n for n, ty, a in spec.params if ty == "world"), None)
        self.curw = args.get(self.world)
        self.callcache = {}
        self.facts_done = set()
        self.env = self.run(spec.body, env, T)
        self.pos = self.env["%pos"]

    # ------------------------------------------------------------ values
    def default(self, e):
        if isinstance(e, EScal): return bv(0)
        if isinstance(e, EPtr): return SHandle(bv(0), e.to)
        if isinstance(e, EVec): return SVec(Vec.empty(e.e))
        if isinstance(e, EMap): return MapV(e.to, z3.K(B32, F), z3.K(B32, bv(0)))
        if isinstance(e, EArr):
            return SVec(Vec(e.e, bv(e.n), Vec.empty(e.e).arrs))
        if isinstance(e, EStruct): return SEl({o: self.default(f) for o, f in e.fields}, e)
        raise Unsupported("spec default " + e.key())

    def wide(self, e, v):
        """component -> specification value"""
        if isinstance(e, EScal):
            return sx(v, 64) if e.signed else zx(v, 64)
        if isinstance(e, EPtr): return SHandle(v, e.to)
        if isinstance(e, EVec): return SVec(v)
        if isinstance(e, EStruct): return SEl({o: self.wide(f, v[o]) for o, f in e.fields}, e)
        if isinstance(e, EMap): return v
        raise Unsupported("spec value of " + e.key())

    def narrow(self, e, v):
        if isinstance(e, EScal):
            if z3.is_bool(v): v = ubool(v)
            return zx(v, 8 * e.size)
        if isinstance(e, EPtr): return v.t
        if isinstance(e, EVec): return v.v
        if isinstance(e, EStruct): return {o: self.narrow(f, v.d[o]) for o, f in e.fields}
        raise Unsupported("narrow " + e.key())

    def merge(self, c, a, b):
        if a is b: return a
        if z3.is_expr(a) and z3.is_expr(b): return mk_ite(c, a, b)
        if isinstance(a, SHandle): return SHandle(mk_ite(c, a.t, b.t), a.q or b.q)
        if isinstance(a, SVec): return SVec(merge_val(c, a.v, b.v))
        if isinstance(a, SEl): return SEl({o: self.merge(c, a.d[o], b.d[o]) for o in a.d}, a.e)
        if isinstance(a, MapV): return merge_val(c, a, b)
        if isinstance(a, WVal): return a.with_terms([mk_ite(c, x, y) for x, y in zip(a.terms(), b.terms())])
        raise Unsupported("spec merge")

    def fields_of(self, q):
        return struct_info(self.mod, q)

    def getfield(self, h, name):
        si = self.fields_of(h.q)
        if name not in si.fields: raise Unsupported("spec: %s has no field %s" % (h.q, name))
        o, e = si.fields[name]
        return self.hread(h.t, o, e)

    def hread(self, t, o, e):
        wf_handle(self, t)
        if isinstance(e, EScal):
            v = uf("mem%d_%d" % (e.size, o), B64, z3.BitVecSort(8 * e.size))(t)
            return self.wide(e, v)
        if isinstance(e, EPtr):
            return SHandle(uf("mem8_%d" % o, B64, B64)(t), e.to)
        if isinstance(e, EVec):
            ln = uf("vlen_%d" % o, B64, B64)(t)
            self.pv.fact(z3.ULT(ln, bv(1 << 40)))
            return SVec(Vec(e.e, ln, [uf("varr_%d_%s_%d" % (o, e.e.key(), i), B64, z3.ArraySort(B64, c))(t) for i, c in enumerate(e.e.comps())]))
        if isinstance(e, EMap):
            return MapV(e.to, uf("mhas_%d" % o, B64, z3.ArraySort(B32, BOOL))(t), uf("mval_%d" % o, B64, z3.ArraySort(B32, B64))(t))
        if isinstance(e, EArr) and isinstance(e.e, EScal) and e.n <= 64:
            arr = zero_array(z3.BitVecSort(8 * e.e.size))
            for i in range(e.n): arr = z3.Store(arr, bv(i), uf("mem%d_%d" % (e.e.size, o + i * e.e.size), B64, z3.BitVecSort(8 * e.e.size))(t))
            return SVec(Vec(e.e, bv(e.n), [arr]))
        if isinstance(e, EArr): raise Unsupported("array field of opaque object")
        raise Unsupported("field type " + e.key())

    # ------------------------------------------------------------ expressions (64-bit two's complement, exact in range)
    def ev(self, e, env):
        k = e.k; a = e.a
        if k == "num": return bv(a[0])
        if k == "var":
            n = a[0]
            if n in env: return env[n]
            if n == "any_index": return ANY          # stands for every index: a fact about it may be instantiated
            if n in self.defs and not self.defs[n][0]: return self.ev(self.defs[n][1], env)
            th = env.get("this")
            if isinstance(th, SHandle) and n in self.fields_of(th.q).fields: return self.getfield(th, n)
            raise SpecUnknown("spec %s:%d unknown name %s" % (self.sp.file, e.line, n))
        if k == "bin":
            op = a[0]
            if op in ("&&", "||"):
                x, y = self.bool(a[1], env), self.bool(a[2], env)
                return mk_and(x, y) if op == "&&" else mk_or(x, y)
            x, y = self.num(a[1], env), self.num(a[2], env)
            if op == "+": return simp(x + y)
            if op == "-": return simp(x - y)
            if op == "*": return umul(x, y, self.pv)
            if op == "/": return simp(x / y) if not self.nonneg2(x, y) else simp(z3.UDiv(x, y))
            if op == "%": return simp(z3.SRem(x, y)) if not self.nonneg2(x, y) else simp(z3.URem(x, y))
            if op == "<<": return simp(x << y)
            if op == ">>": return simp(x >> y)
            if op == "&": return simp(x & y)
            if op == "|": return simp(x | y)
            if op == "^": return simp(x ^ y)
            if op == "==": return simp(x == y)
            if op == "!=": return simp(x != y)
            if op == "<": return simp(x < y)
            if op == "<=": return simp(x <= y)
            if op == ">": return simp(x > y)
            if op == ">=": return simp(x >= y)
        if k == "un":
            if a[0] == "!": return mk_not(self.bool(a[1], env))
            x = self.num(a[1], env)
            return simp(-x) if a[0] == "-" else simp(~x)
        if k == "cond":
            c = self.bool(a[0], env)
            if is_t(c): return self.ev(a[1], env)
            if is_f(c): return self.ev(a[2], env)
            x, y = self.ev(a[1], env), self.ev(a[2], env)
            if z3.is_expr(x) and z3.is_bool(x) != z3.is_bool(y):
                x = ubool(x) if z3.is_bool(x) else x; y = ubool(y) if z3.is_bool(y) else y
            return self.merge(c, x, y)
        if k == "dot":
            x = self.ev(a[0], env)
            if isinstance(x, SHandle): return self.getfield(x, a[1])
            if isinstance(x, WVal): return x.d[a[1]]
            if isinstance(x, SEl):
                raise Unsupported("spec: field of struct element")
            raise Unsupported("spec: dot on non-object (%s)" % a[1])
        if k == "idx":
            x = self.ev(a[0], env)
            if isinstance(x, SVec): return self.wide(x.e, x.v.load(self.num(a[1], env)))
            if isinstance(x, MapV):
                i = zx(self.num(a[1], env), 32)
                return SHandle(simp(z3.Select(x.val, i)), x.to)
            raise Unsupported("spec: index of non-array")
        if k == "fn": return self.fn(e, env)
        raise Unsupported("spec expr " + k)

    def nonneg2(self, x, y): return nonneg(x) and nonneg(y)

    def num(self, e, env):
        v = self.ev(e, env)
        if z3.is_bool(v): return ubool(v)
        if isinstance(v, SHandle): return v.t
        if not z3.is_bv(v): raise Unsupported("spec: number expected at %s:%s" % (self.sp.file, e.line))
        return v

    def bool(self, e, env):
        v = self.ev(e, env)
        if z3.is_bool(v): return v
        if isinstance(v, SHandle): v = v.t
        return simp(v != 0)

    def fn(self, e, env):
        n, args = e.a
        if n in ("min", "max"):
            x, y = self.num(args[0], env), self.num(args[1], env)
            return simp(mk_ite(simp(x < y if n == "min" else x > y), x, y))
        if n == "abs":
            x = self.num(args[0], env); return simp(mk_ite(simp(x < 0), simp(-x), x))
        if n == "mul": return umul(self.num(args[0], env), self.num(args[1], env), self.pv)
        if n == "ceil_log2": return clog2(self.num(args[0], env), self.pv)
        if n == "ceil_div": return ceil_div(self.num(args[0], env), self.num(args[1], env), self.pv)
        if n == "len": return self.ev(args[0], env).v.len
        if n in ("wf_each", "wf_world"): return wf_pred(self, self.ev(args[0], env))
        if n == "null": return simp(self.ev(args[0], env).t == 0)
        if n == "has":
            m = self.ev(args[0], env); return simp(z3.Select(m.has, zx(self.num(args[1], env), 32)))
        if n == "more_data": return simp(z3.ULT(env["%pos"], tot(self.S)))
        if n == "checksum":
            h = uf("checksum", B64, B64, B64)(self.S, env["%pos"]); self.pv.fact(h != 0)
            return SHandle(h, "h265nal::NaluChecksum")
        if n == "more_rbsp_data": return more(self.S, env["%pos"])
        if n == "pos": return env["%pos"]
        if n == "byte_aligned": return simp(env["%pos"] & 7 == 0)
        if n == "remaining": return simp(tot(self.S) - env["%pos"])
        if n == "next_bits":
            nb = self.num(args[0], env); return zx(bitsf(self.S, env["%pos"], nb), 64)
        if n == "can_read": return u_ok(self.S, env["%pos"], self.num(args[0], env))
        if n == "u32": return zx(zx(self.num(args[0], env), 32), 64)
        if n == "s32": return sx(zx(self.num(args[0], env), 32), 64)
        if n == "udiv": return simp(z3.UDiv(self.num(args[0], env), self.num(args[1], env)))
        if n == "ult": return simp(z3.ULT(self.num(args[0], env), self.num(args[1], env)))
        if n == "filled":         # filled(n, v): vector of n copies -- element type from context is unknown, so give it
            raise Unsupported("filled outside assignment")
        if n in self.defs:
            ps, b = self.defs[n]
            env2 = dict(env)
            for p, x in zip(ps, args): env2[p] = self.ev(x, env)
            return self.ev(b, env2)
        sp = self.specs.get(n)
        if sp is not None and sp.kind == "function":
            return self.pure_call(sp, [self.ev(x, env) for x in args])
        raise Unsupported("spec function " + n)

    # ------------------------------------------------------------ statements
    def okadd(self, guard, f, line, desc):
        f = simp(f)
        if is_t(f): return
        g = mk_not(guard) if not is_t(guard) else F
        self.ok.append((simp(mk_or(g, f)) if not is_t(guard) else f, line, desc, guard, self.curw))

    def run(self, body, env, guard):
        for s in body: env = self.stmt(s, env, guard)
        return env

    def assign(self, lv, env, val):
        n = lv[0][1]; env = dict(env)
        if len(lv) == 1:
            if z3.is_expr(val) and z3.is_bool(val): val = ubool(val)
            if isinstance(val, SHandle) and n in env and isinstance(env[n], SHandle) and env[n].q and not val.q: val = SHandle(val.t, env[n].q)
            env[n] = val; return env
        cur = env.get(n)
        if cur is None: raise Unsupported("spec: assignment to undeclared %s" % n)
        env[n] = self.upd(cur, lv[1:], val, env); return env

    def lvtype(self, lv, env):
        """element type of the vector stored at lv"""
        cur = env[lv[0][1]]; e = EVec(cur.e)
        for st in lv[1:]: e = e.e
        return e

    def upd(self, cur, path, val, env):
        if not path: return val
        st = path[0]
        if st[0] == "push":
            if len(path) == 1: return SVec(cur.v.push(self.narrow(cur.e, val)))
            raise Unsupported("spec: nested push path")
        if st[0] == "i":
            i = self.num(st[1], env)
            if isinstance(cur, MapV):
                k = zx(i, 32); return MapV(cur.to, simp(z3.Store(cur.has, k, T)), simp(z3.Store(cur.val, k, val.t)))
            if len(path) == 1: return SVec(cur.v.store(i, self.narrow(cur.e, val)))
            inner = self.wide(cur.e, cur.v.load(i))
            return SVec(cur.v.store(i, self.narrow(cur.e, self.upd(inner, path[1:], val, env))))
        if st[0] == "f" and isinstance(cur, WVal):
            d = dict(cur.d); d[st[1]] = self.upd(d[st[1]], path[1:], val, env); return WVal(cur.q, d)
        raise Unsupported("spec lvalue")

    def stmt(self, s, env, g):
        if self.world: self.curw = env[self.world]
        k = s.k; a = s.a
        S = self.S
        if k == "read":
            lv, let, d, ne, rng = a
            pos = env["%pos"]
            name = lv[0][1]
            if d == "u" or d == "f" or d == "i":
                n = self.num(ne, env)
                wide = isc(n) and cval(n) > 32
                v = bits64f(S, pos, n) if wide else zx(bitsf(S, pos, n), 64)
                okc = u_ok(S, pos, n) if isc(n) else mk_and(z3.ULE(n, bv(32)), u_ok(S, pos, n)); end = simp(pos + n); kind = "u"
                if isc(n) and cval(n) < 32: self.pv.fact(z3.ULT(bitsf(S, pos, n), bv(1 << cval(n), 32)))
                if wide: self.pv.fact(z3.ULT(v, bv(1 << cval(n))) if cval(n) < 64 else T)
                self.reg(Read(kind, pos, n, self.ctx, s.line, g, name=name))
            elif d == "ue":
                v = zx(ue_val(S, pos), 64); okc = ue_ok(S, pos); end = ue_end(S, pos); self.reg(Read("ue", pos, None, self.ctx, s.line, g, name=name))
                self.uefacts(pos)
            elif d == "se":
                v = sx(se_val(S, pos), 64); okc = ue_ok(S, pos); end = ue_end(S, pos); self.reg(Read("ue", pos, None, self.ctx, s.line, g, name=name))
                self.uefacts(pos)
            else: raise Unsupported("descriptor " + d)
            self.okadd(g, okc, s.line, "%s: descriptor %s is complete in the stream" % (name, d))
            if rng:
                lo, hi = self.num(rng[0], env), self.num(rng[1], env)
                self.okadd(g, z3.And(v >= lo, v <= hi), s.line, "%s is within its range" % name)
            env = self.assign(lv, env, v)
            env["%pos"] = end
            return env
        if k == "assign":
            lv, let, e = a
            if e.k == "fn" and e.a[0] == "filled":
                te = self.lvtype(lv, env)
                n = self.num(e.a[1][0], env); v = self.ev(e.a[1][1], env)
                if z3.is_bool(v): v = ubool(v)
                return self.assign(lv, env, SVec(Vec(te.e, n, [z3.K(B64, c) for c in flat(te.e, self.narrow(te.e, v))])))
            if e.k == "fn" and e.a[0] in ("empty", "inner"):          # x[] = inner(): append an empty inner vector
                return self.assign(lv, env, SVec(Vec.empty(self.lvtype(lv, env).e)))
            if e.k == "fn" and e.a[0] == "local":          # local(size_bytes, n, v): local array
                sz, n, v = [self.num(x, env) for x in e.a[1]]
                sz = cval(sz); signed = sz >= 1 << 63; sz = (1 << 64) - sz if signed else sz
                te = EScal(sz, signed)
                return self.assign(lv, env, SVec(Vec(te, n, [z3.K(B64, zx(v, 8 * sz))])))
            return self.assign(lv, env, self.ev(e, env))
        if k == "default":
            lv, e = a
            return self.assign(lv, env, self.ev(e, env))
        if k == "if":
            c = self.bool(a[0], env)
            if is_t(c): return self.run(a[1], env, g)
            if is_f(c): return self.run(a[2], env, g)
            nc = mk_not(c)
            e1 = self.run(a[1], env, simp(mk_and(g, c)))
            e2 = self.run(a[2], env, simp(mk_and(g, nc))) if a[2] else env
            out = {}
            for n in e1.keys() | e2.keys():
                x, y = e1.get(n), e2.get(n)
                if x is None or y is None:
                    out[n] = x if x is not None else y    # local of one branch
                    continue
                out[n] = self.merge(c, x, y)
            return out
        if k == "reject":
            c = self.bool(a[0], env)
            self.okadd(g, mk_not(c), s.line, "not rejected")
            return env
        if k == "ensure":
            self.ensures.append((g, s.a[0], s.line)); return env
        if k == "require":
            self.requires.append(s.a[0])
            if s.a[0].k == "fn" and s.a[0].a[0].startswith("wf_"): self.assume_require(s.a[0], env)
            return env
        if k in ("inv", "measure"): return env
        if k == "dontcare":
            c = self.bool(a[1], env) if a[1] is not None else T
            self.dontcare.append((a[0], mk_and(g, c))); return env
        if k == "seek":
            p = self.num(a[0], env)
            self.reg(Read("seek", env["%pos"], p, self.ctx, s.line, g))
            env = dict(env); env["%pos"] = p; return env
        if k == "skip":
            n = self.num(a[0], env); pos = env["%pos"]
            self.okadd(g, u_ok(S, pos, n), s.line, "skip within stream")
            self.reg(Read("skip", pos, n, self.ctx, s.line, g))
            env = dict(env); env["%pos"] = simp(pos + n); return env
        if k == "trailing":
            pos = env["%pos"]
            self.reg(Read("trailing", pos, None, self.ctx, s.line, g))
            self.trfacts(pos)
            self.okadd(g, tr_ok(S, pos), s.line, "rbsp_trailing_bits are well formed")
            env = dict(env); env["%pos"] = tr_end(S, pos); return env
        if k == "trailing_opt":
            pos = env["%pos"]
            self.trfacts(pos)
            self.reg(Read("trailing", pos, None, self.ctx, s.line, g))
            env = dict(env); env["%pos"] = simp(mk_ite(tr_ok(S, pos), tr_end(S, pos), tr_fend(S, pos))); return env
        if k == "call": return self.call(s, env, g)
        if k in ("for", "while", "loop"): return self.loop(s, env, g)
        raise Unsupported("spec statement " + k)

    def uefacts(self, pos):
        S = self.S
        self.pv.fact(z3.Implies(ue_ok(S, pos), z3.And(z3.UGT(ue_end(S, pos), pos), z3.ULE(ue_end(S, pos), tot(S)))))
        self.pv.fact(z3.ULT(ue_val(S, pos), bv(0xffffffff, 32)))
        self.pv.fact(se_val(S, pos) != bv(0x80000000, 32))

    def trfacts(self, pos):
        S = self.S
        for e in (tr_end(S, pos), tr_fend(S, pos)):
            self.pv.fact(z3.Implies(z3.ULE(pos, tot(S)), z3.And(z3.ULE(pos, e), z3.ULE(e, tot(S)))))

    def reg(self, r):
        r.idx = len(self.ctx.reads); self.ctx.reads.append(r)

    # ------------------------------------------------------------ calls
    def argterms(self, sp, vals):
        out = []
        for v in vals:
            if isinstance(v, SHandle): out.append(v.t)
            elif z3.is_bool(v): out.append(ubool(v))
            elif z3.is_bv(v): out.append(v)
            elif isinstance(v, (SVec, WVal)): out.append(v)
            else: raise Unsupported("spec call argument")
        return out

    def call(self, s, env, g):
        lv, let, f, args, opt, sub = s.a
        sp = self.specs.get(f)
        if sp is None: raise Unsupported("spec: unknown syntax " + f)
        vals = [self.ev(x, env) for x in args]
        pos = env["%pos"]
        ts = self.argterms(sp, vals)
        if sub is not None:
            n = self.num(sub, env); self.okadd(g, u_ok(self.S, pos, simp(n * 8)), s.line, "the bytes are complete in the stream")
            self.reg(Read("bytes", pos, n, self.ctx, s.line, g))
            S2 = substream(self.S, pos, n)
            cr = callres(sp, S2, bv(0), ts)
            self.reg(Read("callon:" + f, bv(0), None, self.ctx, s.line, g, args=[S2] + list(ts), name=lv[0][1]))
        else:
            cr = callres(sp, self.S, pos, ts)
            self.reg(Read("call:" + f, pos, None, self.ctx, s.line, g, args=ts, name=lv[0][1]))
        self.callfacts(sp, cr, ts)
        for r in self.spec_requires(sp):
            pass
        if f in dsl.MUT:
            i = dsl.MUT[f]; env = dict(env); env[args[i].a[0]] = cr.world(vals[i])
            if args[i].a[0] == self.world: self.curw = env[self.world]
        if opt:
            h = SHandle(simp(mk_ite(cr.ok, cr.h, bv(0))), sp.state)
            end = simp(mk_ite(cr.ok, cr.end, cr.fend))
        else:
            self.okadd(g, cr.ok, s.line, "%s is well formed" % f)
            h = SHandle(cr.h, sp.state); end = cr.end
        env = self.assign(lv, env, h)
        env["%pos"] = end if sub is None else simp(pos + n * 8)
        return env

    def assume_require(self, e, env):
        saved = self.pol; self.pol = ("assume", T)
        try: return self.bool(e, env)
        finally: self.pol = saved

    def spec_requires(self, sp): return []

    def callfacts(self, sp, cr, ts):
        self.pv.fact(cr.h != 0)
        S, pos = self.S, cr.a[1]
        if "noend" not in sp.attrs:
            self.pv.fact(z3.Implies(mk_and(cr.ok, z3.ULE(pos, tot(S))), z3.And(z3.ULE(pos, cr.end), z3.ULE(cr.end, tot(S)))))
            self.pv.fact(z3.Implies(z3.ULE(pos, tot(S)), z3.And(z3.ULE(pos, cr.fend), z3.ULE(cr.fend, tot(S)))))
        for e in ensures_of(sp):
            # evaluated over the result handle's fields
            env = {}
            for (n, ty, arg), t in zip(sp.params, ts):
                env[n] = SHandle(t, arg) if ty == "state" else t
            si = struct_info(self.mod, sp.state)
            sub = Lazy(self, cr.h, si, env)
            g = cr.ok
            if sp.name in dsl.MUT:
                i = dsl.MUT[sp.name]; env[sp.params[i][0]] = sub[sp.params[i][0]] = cr.world(ts[i])
                if e.k == "fn" and e.a[0] == "wf_world": g = T
            saved = self.pol; self.pol = ("assume", g)
            try: c = self.bool(e, sub)
            except SpecUnknown: continue
            finally: self.pol = saved
            self.pv.fact(z3.Implies(g, c))

    # ------------------------------------------------------------ loops
    MAXU = 70

    def loop(self, s, env, g):
        if s.k == "for":
            v, init, c, step, body = s.a
            i0 = self.num(init, env)
            # concrete unrolling when the condition stays constant
            e2 = dict(env); e2[v] = i0
            save = (len(self.ok), len(self.ctx.reads), len(self.ctx.loops), len(self.dontcare), len(self.ensures))
            n = 0; ok = True
            lim = int(self.sp.attrs.get("unroll", 300))
            while True:
                cc = self.bool(c, e2)
                if is_f(cc): break
                if not is_t(cc) or n > lim: ok = False; break
                e2 = self.run(body, e2, g); e2 = dict(e2); e2[v] = self.num(step, e2); n += 1
            if ok: return e2
            del self.ok[save[0]:]; del self.ctx.reads[save[1]:]; del self.ctx.loops[save[2]:]; del self.dontcare[save[3]:]; del self.ensures[save[4]:]
            e2 = dict(env); e2[v] = i0
            return self.loopinst(s, e2, g, c, body, v, step)
        if s.k == "while":
            c, body = s.a
            return self.loopinst(s, dict(env), g, c, body, None, None)
        raise Unsupported("spec loop form")

    def hconst(self, name, v, tag):
        self.nconst += 1
        nm = "%s_%s_%d" % (tag, name, self.nconst)
        if isinstance(v, SHandle): return SHandle(z3.Const(nm, B64), v.q)
        if isinstance(v, SVec):
            return SVec(Vec(v.e, z3.Const(nm + "_len", B64), [z3.Const(nm + "_a%d" % i, z3.ArraySort(B64, c)) for i, c in enumerate(v.e.comps())]))
        if z3.is_bv(v): return z3.Const(nm, B64)
        if z3.is_bool(v): return z3.Const(nm, B64)
        if isinstance(v, WVal): return v.with_terms([z3.Const("%s_w%d" % (nm, i), t.sort()) for i, t in enumerate(v.terms())])
        raise Unsupported("spec loop variable " + name)

    @staticmethod
    def parts(v):
        if isinstance(v, SHandle): return [v.t]
        if isinstance(v, SVec): return [v.v.len] + list(v.v.arrs)
        if isinstance(v, WVal): return v.terms()
        return [v]

    def loopinst(self, s, env, g, c, body, v, step):
        L = LoopInst(); L.parent = self.ctx; L.line = s.line; L.guard = g; L.kind = s.k
        L.okpre = tuple(x[0] for x in self.ok)
        self.ctx.loops.append(L)
        names = set(dsl.assigned(body)) | ({v} if v else set())
        # names local to the body are not loop-carried
        names = [n for n in sorted(names) if n in env]
        L.entry = {n: env[n] for n in names}
        tag = "L%d" % s.line
        L.head = {n: self.hconst(n, env[n], tag + "h") for n in names}
        henv = dict(env); henv.update(L.head)
        L.env = henv
        L.cond = self.bool(c, henv)
        saved_ok, saved_ctx = self.ok, self.ctx
        # well-formedness of stored parser results: assumed at the head under a Boolean that houdini() establishes; nested loops may rely on it
        L.wf = {}; L.outer_wf = tuple(self.wfbs)
        for n, h in L.head.items():
            if (isinstance(h, SVec) and isinstance(h.v.e, EPtr) and wf_syntax(self, h.v.e.to)) or isinstance(h, WVal):
                b = fresh("wf_inv", BOOL); L.wf[b.get_id()] = (n, b)
                saved = self.pol; self.pol = ("assume", b); wf_pred(self, h); self.pol = saved
        L.outer_vars = list(self.loopvars)
        if v: self.loopvars = self.loopvars + [L.head[v]]
        saved_wfbs = self.wfbs; self.wfbs = saved_wfbs + [b for _, b in L.wf.values()]
        self.wfbs += [self.bool(x.a[0], henv) for x in (s.a[4] if s.k == "for" else s.a[1]) if x.k == "inv"]     # nested loops may rely on the stated invariants
        self.ok = []; self.ctx = L
        saved_ens = self.ensures; self.ensures = []
        e2 = self.run(body, henv, T)
        if v: e2 = dict(e2); e2[v] = self.num(step, e2)
        L.step = {n: e2[n] for n in names}
        L.body_ok = tuple(self.ok)
        self.ok, self.ctx = saved_ok, saved_ctx; self.ensures = saved_ens
        self.wfbs = saved_wfbs; self.loopvars = L.outer_vars
        L.post = {n: self.hconst(n, env[n], tag + "p") for n in names}
        self.nconst += 1
        L.loop_ok = z3.Const("%s_ok_%d" % (tag, self.nconst), BOOL) if L.body_ok else T
        L.sub = []
        for n in names:
            for a, b in zip(self.parts(L.head[n]), self.parts(L.post[n])): L.sub.append((a, b))
        self.houdini(L, v, s, g)
        body_ = s.a[4] if s.k == "for" else s.a[1]
        if any(x.k == "inv" for x in body_):        # no iteration: nothing changes (needed where the code guards the loop)
            es = [p for n in names for p in self.parts(L.entry[n])]; hs = [p for n in names for p in self.parts(L.head[n])]
            c0 = z3.substitute(L.cond, *zip(hs, es))
            self.pv.fact(z3.Implies(mk_not(c0), mk_and(L.loop_ok, *[p == e for n in names for p, e in zip(self.parts(L.post[n]), self.parts(L.entry[n]))])))
        penv = dict(env); penv.update(L.post)
        # facts about the post state
        self.pv.fact(z3.Implies(mk_and(L.loop_ok), mk_not(z3.substitute(L.cond, *L.sub))))
        if self.world: self.curw = None if self.world in L.head else env[self.world]
        self.okadd(g, L.loop_ok, s.line, "loop at spec line %d completes" % s.line)
        return penv

    def houdini(self, L, v, s, g):
        """inductive invariants of the specification loop (over its own head constants)"""
        cands = []
        pv = self.pv
        vecs = [n for n, h in L.head.items() if isinstance(h, SVec) and not h.v.len.eq(L.step[n].v.len)]
        if not v and "%pos" in L.head:
            for n in vecs:
                cands.append(("lenpos", z3.And(z3.UGE(L.head[n].v.len, L.entry[n].v.len), z3.UGE(L.head["%pos"], L.entry["%pos"]),
                                               z3.ULE(L.head[n].v.len - L.entry[n].v.len, L.head["%pos"] - L.entry["%pos"]))))
            for a, b in zip(vecs, vecs[1:]): cands.append(("leneq", simp(L.head[a].v.len - L.head[b].v.len == L.entry[a].v.len - L.entry[b].v.len)))
        for n, h in L.head.items():
            e0 = L.entry[n]; st = L.step[n]
            if isinstance(h, SVec):
                if v and isinstance(h.v.e, EVec):
                  for last in [simp(h.v.len - 1)] + L.outer_vars:
                    d = simp(z3.Select(h.v.arrs[0], last) - z3.Select(e0.v.arrs[0], last))
                    cands.append(("len", d == L.head[v] - L.entry[v]))
                if v and not h.v.len.eq(st.v.len):
                    iv, i0 = L.head[v], L.entry[v]
                    cands.append(("lenle", simp(h.v.len - e0.v.len <= iv - i0))); cands.append(("lenge", simp(h.v.len >= e0.v.len)))
                if v and not h.v.len.eq(st.v.len):
                    iv, i0 = L.head[v], L.entry[v]
                    cands.append(("len", simp(h.v.len - e0.v.len == iv - i0)))
                elif h.v.len.eq(st.v.len): cands.append(("len", h.v.len == e0.v.len))
                else: cands.append(("len", simp(h.v.len == st.v.len)))
                continue
            if isinstance(h, (SHandle, WVal)): continue
            if n == "%pos":
                if v and v in L.head:
                    i, i0 = L.head[v], L.entry[v]
                    cands.append(("inv", z3.Or(h == e0, z3.And(z3.ULE(i - i0, h - e0), z3.ULE(e0, h), z3.ULE(h, tot(self.S)))) ))
                    cands.append(("inv", z3.Or(i == i0, z3.And(z3.ULE(i - i0, h - e0), z3.ULE(e0, h), z3.ULE(h, tot(self.S)))) ))
                cands.append(("pos", z3.UGE(h, e0))); cands.append(("pos", z3.Or(z3.ULE(h, tot(self.S)), h == e0))); continue
            cands.append(("mono", h >= e0)); 
            if n in self.fields and isinstance(self.si.fields[n][1], EScal):
                fe = self.si.fields[n][1]; cands.append(("fits", h == (sx if fe.signed else zx)(zx(h, 8 * fe.size), 64)))
            if n == v:
                c = s.a[2]
                if c.k == "bin" and c.a[0] in ("<", "<=", "!="):
                    try:
                        hi = self.num(c.a[2], L.env)
                        if c.a[0] == "<=": hi = simp(hi + 1)
                        cands.append(("bound", z3.Or(h <= hi, h == e0)))
                        # value range of the bound when 32-bit quantities are involved
                    except Unsupported: pass
                    cands.append(("range", z3.And(h >= 0, h < bv(1 << 40))))
            else:
                cands.append(("nonneg", h >= 0))
                if z3.is_bv(h) and h.size() == 64 and n not in self.fields: cands.append(("nonneg", z3.ULE(h, bv(0xffffffff))))
        wf = L.wf
        for n, b in wf.values(): cands.append(("wf", b))
        owf = list(L.outer_wf)
        env = L.env
        for x in (s.a[4] if s.k == "for" else s.a[1]):
            if x.k == "inv": cands.append(("inv", self.bool(x.a[0], env)))
        hs = [p for n in L.head for p in self.parts(L.head[n])]
        es = [p for n in L.head for p in self.parts(L.entry[n])]
        ss = [p for n in L.head for p in self.parts(L.step[n])]
        cur = []
        for kd, c in cands:
            pre = [g] + list(L.okpre) if kd in ("inv", "range", "nonneg") else [g]
            pre = pre + owf
            e = simp(z3.substitute(c, *[(a, b) for a, b in zip(hs, es)])) if kd != "wf" else wf_pred(self, L.entry[wf[c.get_id()][0]])
            r, _ = pv.prove(pre if kd != "inv" else pre, e, 3000)
            if r == "proved": cur.append((kd, c))
        changed = True
        bok = [x[0] for x in L.body_ok]
        while changed and cur:
            changed = False
            # facts assumed at the head
            pre = [g] + owf + list(L.okpre) + [c for _, c in cur] + [L.cond] + bok
            keep = []
            for kd, c in cur:
                e = simp(z3.substitute(c, *[(a, b) for a, b in zip(hs, ss)])) if kd != "wf" else wf_pred(self, L.step[wf[c.get_id()][0]])
                r, _ = pv.prove(pre, e, 4000)
                if r == "proved": keep.append((kd, c))
                else: changed = True
            cur = keep
        L.invs = [c for kd, c in cur if kd != "wf"]
        guardf = mk_and(g, *L.okpre, *owf)
        for kd, c in cur:
            if kd == "wf":
                pv.fact(z3.Implies(guardf, c))
                saved = self.pol; self.pol = ("assume", mk_and(guardf, L.loop_ok)); wf_pred(self, L.post[wf[c.get_id()][0]]); self.pol = saved
        for c in L.invs:
            pv.fact(z3.Implies(guardf, c))
            pv.fact(z3.Implies(mk_and(guardf, L.loop_ok), z3.substitute(c, *L.sub)))

    def ok_formula(self):
        return mk_and(*[x[0] for x in self.ok])


class Lazy(dict):
    """environment over the fields of an opaque result"""
    def __init__(self, run, h, si, extra): super().__init__(extra); self.run_, self.h, self.si = run, h, si
    def __contains__(self, k): return dict.__contains__(self, k) or k in self.si.fields
    def __getitem__(self, k):
        if dict.__contains__(self, k): return dict.__getitem__(self, k)
        o, e = self.si.fields[k]; return self.run_.hread(self.h, o, e)


class CallRes:
    __slots__ = ("ok", "end", "h", "fend", "a", "name")
    def world(self, w):
        """the mutated argument after the call"""
        a = self.a; srt = [x.sort() for x in a]
        return w.with_terms([uf("w_%s_%d" % (self.name, i), *srt, t.sort())(*a) for i, t in enumerate(w.terms())])


def callres(sp, S, pos, ts):
    a = [S, pos] + flat_args(ts)
    sorts = [x.sort() for x in a]
    c = CallRes(); c.a = a; c.name = sp.name
    c.ok = uf("ok_" + sp.name, *sorts, BOOL)(*a)
    c.end = uf("end_" + sp.name, *sorts, B64)(*a)
    c.fend = uf("fend_" + sp.name, *sorts, B64)(*a)
    c.h = uf("h_" + sp.name, *sorts, B64)(*a)
    return c


def ensures_of(sp):
    return [s.a[0] for s in sp.body if s.k == "ensure"]
