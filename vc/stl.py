"""Trusted contracts (models) for the C++ standard library, libc and compiler intrinsics, keyed by the
demangled callee name.  Everything not listed here and not under contract is inlined from its IR body."""
import re, z3
import ir
from sym import *
from execu import *

SCALARS = {"bool": 1, "char": 1, "unsigned char": 1, "signed char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
           "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}
SIGNED = {"char", "signed char", "short", "int", "long", "long long"}


def split_targs(s):
    """'A<B, C>' -> ('A', ['B','C'], rest)"""
    i = s.find("<")
    if i < 0: return s, [], ""
    d = 0; args = []; cur = ""
    for j in range(i, len(s)):
        ch = s[j]
        if ch in "<(":
            d += 1
            if d == 1 and ch == "<": continue
        if ch in ">)":
            d -= 1
            if d == 0:
                args.append(cur.strip()); return s[:i], args, s[j + 1:]
        if ch == "," and d == 1: args.append(cur.strip()); cur = ""
        else: cur += ch
    raise Unsupported("targs " + s)


def cpp_ety(mod, t):
    t = t.strip()
    t = re.sub(r"^(const |struct |class |enum )+", "", t); t = re.sub(r"( const)$", "", t)
    if t in SCALARS: return EScal(SCALARS[t], t in SIGNED)
    if t.endswith("*"): return EPtr(t[:-1].strip())
    b, a, rest = split_targs(t)
    if rest.strip() == "":
        if b == "std::vector": return EVec(cpp_ety(mod, a[0]))
        if b in ("std::unique_ptr",): return EPtr(a[0])
        if b in ("std::shared_ptr",): return EPtr(a[0], 16)
        if b == "std::map": return EMap(a[1])
        if b == "std::array": return EArr(int(re.sub(r"[a-z]+$", "", a[1])), cpp_ety(mod, a[0]))
    for k in ("struct.", "class."):
        if k + t in mod.types:
            st = mod.struct(k + t)
            fs = []
            for i, e in enumerate(st.elems):
                o, e2 = mod.field_off(st, i); fs.append((o, llvm_ety(mod, e2)))
            return EStruct(mod.size(ir.NamedTy(k + t)), fs)
    s = mod.structs().get(t)
    # enums and everything else
    for mid, txt in mod.meta.items():
        if "DW_TAG_enumeration_type" in txt and mod.mget(mid, "name") == t.split("::")[-1]:
            return EScal(int(mod.mget(mid, "size")) // 8)
    raise Unsupported("element type " + t)


def llvm_ety(mod, ty):
    ty = mod.resolve(ty)
    if isinstance(ty, ir.IntTy): return EScal(max(1, ty.w // 8))
    if isinstance(ty, ir.PtrTy): return EPtr()
    if isinstance(ty, ir.StructTy):
        fs = []
        for i, e in enumerate(ty.elems):
            o, e2 = mod.field_off(ty, i); fs.append((o, llvm_ety(mod, e2)))
        return EStruct(mod.size(ty), fs)
    raise Unsupported("llvm element type %r" % ty)


_parsed = {}
def parse_sig(dm):
    """demangled -> (class, targs, method, margs string)"""
    if dm in _parsed: return _parsed[dm]
    s = dm
    # strip the return type of templates: find the top-level ' ' outside <>()
    r = None
    d = 0; last = 0; paren = None
    i = 0
    while i < len(s):
        ch = s[i]
        if s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            j = i + 8
            m = re.match(r"operator(\(\)|\[\]|->\*?|<<=?|>>=?|<=|>=|[<>]|[^\w\s(<]+| new\[\]| new| delete\[\]| delete| [\w:]+)", s[i:])
            if m: i += m.end(); continue
        if ch == "<": d += 1
        elif ch == ">" : d -= 1
        elif ch == "(" and d == 0:
            if s.startswith("(anonymous namespace)", i): i += len("(anonymous namespace)"); continue
            paren = i; break
        elif ch == " " and d == 0: last = i + 1
        i += 1
    name = s[last:paren] if paren is not None else s[last:]
    margs = s[paren:] if paren is not None else ""
    # split class::method at last '::' at depth 0
    d = 0; cut = None; i = 0
    while i < len(name):
        if name.startswith("operator", i) and (i == 0 or name[i - 1] == ":"): break
        ch = name[i]
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif ch == ":" and d == 0 and name[i:i + 2] == "::":
            cut = i; i += 2; continue
        i += 1
    cls, meth = (name[:cut], name[cut + 2:]) if cut is not None else ("", name)
    _parsed[dm] = (cls, meth, margs)
    return _parsed[dm]


def ret(st, v=None): return [(st, v)]


def models(ex, st, name, args, ins):
    h = C_MODELS.get(name)
    if h: return h(ex, st, args, ins)
    if name.startswith("llvm."): return intrinsic(ex, st, name, args, ins)
    if not name.startswith("_Z"): return None
    dm = ir.demangle1(name)
    if name in ("_Znwm", "_Znam"):
        n = args[0]
        if not isc(n): raise Unsupported("operator new of symbolic size")
        rid = ex.new_region(st, "new", cval(n))
        return ret(st, Ptr.mk(("r", rid)))
    if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv"): return ret(st)
    cls, meth, margs = parse_sig(dm)
    b, ta, rest = split_targs(cls) if "<" in cls else (cls, [], "")
    if b == "std::vector": return vector_model(ex, st, dm, ta, meth, margs, args, ins)
    if b == "std::unique_ptr" : return uptr_model(ex, st, dm, ta, meth, margs, args, ins)
    if b in ("std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"): return sptr_model(ex, st, dm, ta, meth, margs, args, ins)
    if b == "std::map": return map_model(ex, st, dm, ta, meth, margs, args, ins)
    if b in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator"): return iter_model(ex, st, dm, ta, meth, margs, args, ins)
    if b in ("std::__cxx11::basic_string", "std::allocator", "std::__new_allocator", "std::basic_istream", "std::basic_ostream", "std::ios_base"):
        return opaque_call(ex, st, args, ins)
    if cls.startswith("std") and b in ("std::basic_string",): return opaque_call(ex, st, args, ins)
    if cls == "std":
        m0 = split_targs(meth)[0]
        if m0.startswith("make_shared"): return make_shared(ex, st, dm, args, ins)
        if m0 in ("operator==", "operator!=") :
            if "_Rb_tree_iterator" in meth + margs or "_Rb_tree_const_iterator" in meth + margs:
                x = load_iter(ex, st, args[0]); y = load_iter(ex, st, args[1])
                e = iter_eq(x, y)
                return ret(st, e if m0 == "operator==" else mk_not(e))
            if "nullptr_t" in margs and ("unique_ptr" in meth + margs or "shared_ptr" in meth + margs):
                p = args[0]
                v = get_sp(ex, st, p)
                e = ex.ptr_eq(st, v, NULL)
                return ret(st, e if m0 == "operator==" else mk_not(e))
        if m0 in ("log2", "ceil", "floor", "log", "sqrt") and isinstance(args[0], FVal):
            return ret(st, FVal(uf(m0, FSORT, FSORT)(args[0].t)))
    if cls == "h265nal" and meth.split("(")[0] in ("fdump_indent_level",): return ret(st)
    return None


def opaque_call(ex, st, args, ins):
    r = None
    if ins.dst is not None:
        ty = ex.fr_mod.resolve(ins.ty)
        r = Opaque() if isinstance(ty, ir.PtrTy) else ex.undef(ty)
    return ret(st, r)


# ------------------------------------------------------------------ C library
def m_assert_fail(ex, st, args, ins):
    ex.oblige(st, F, "assert", "assertion does not fail: " + assert_text(ex, args))
    return []


def assert_text(ex, args):
    try:
        g = args[0].alts[0][1][1]
        m = re.search(r'c"(.*)"', ex.fr_mod.globals[g]); return m.group(1)[:80]
    except Exception: return "?"


def m_nop(ex, st, args, ins): return opaque_call(ex, st, args, ins)


def m_bswap32(ex, st, args, ins):
    v = args[0]
    return ret(st, simp(z3.Concat(z3.Extract(7, 0, v), z3.Extract(15, 8, v), z3.Extract(23, 16, v), z3.Extract(31, 24, v))))


def m_bswap16(ex, st, args, ins):
    v = args[0]
    return ret(st, simp(z3.Concat(z3.Extract(7, 0, v), z3.Extract(15, 8, v))))


def m_flt(nm):
    def f(ex, st, args, ins): return ret(st, FVal(uf(nm, FSORT, FSORT)(args[0].t)))
    return f


def m_memcpy(ex, st, args, ins):
    n = args[2]
    if not isc(n): raise Unsupported("memcpy of symbolic length")
    n = cval(n)
    copy_bytes(ex, st, args[0], args[1], n)
    return ret(st, args[0])


def copy_bytes(ex, st, dst, src, n):
    if n == 0: return
    ex.nonnull(st, src, "memcpy source"); ex.nonnull(st, dst, "memcpy destination")
    if not (dst.single and src.single): raise Unsupported("memcpy with several targets")
    _, db, do = dst.alts[0]; _, sb, so = src.alts[0]
    if do.ts and db[0] == "r": raise Unsupported("memcpy to symbolic offset")
    if sb[0] == "r" and (sb[1], "arr") not in st.mem and not so.ts:
        # cell-wise copy of a plain region
        srid = sb[1]
        cells = sorted((k[1], v) for k, v in st.mem.items() if k[0] == srid and isinstance(k[1], int) and so.c <= k[1] < so.c + n)
        zs = st.mem.get((srid, "Z"), ())
        if db[0] == "r":
            drid = db[1]
            if (drid, "arr") in st.mem: raise Unsupported("memcpy struct to byte buffer")
            for k in [k for k in st.mem if k[0] == drid and isinstance(k[1], int) and do.c <= k[1] < do.c + n]: del st.mem[k]
            for off, v in cells: st.mem[(drid, do.c + off - so.c)] = v
            z = [(max(lo, so.c) - so.c + do.c, min(hi, so.c + n) - so.c + do.c) for lo, hi in zs if lo < so.c + n and hi > so.c]
            if z: st.mem[(drid, "Z")] = tuple(st.mem.get((drid, "Z"), ())) + tuple(z)
            if (srid, "lazy") in st.mem and so.c == 0 and do.c == 0: st.mem[(drid, "lazy")] = st.mem[(srid, "lazy")]
            return
        if db[0] == "d":
            for off, v in cells: ex.store1(st, db, do.add(off - so.c), v, v.size() // 8 if z3.is_bv(v) else 8, T)
            return
    if sb[0] == "g":
        # constant initialiser copied into a local
        init = ex.global_init(sb[1])
        if init is None: raise Unsupported("memcpy from global")
        gty, gv, const = init
        if not const: raise Unsupported("memcpy from mutable global")
        if db[0] != "r": raise Unsupported("memcpy global to " + db[0])
        for (o, size, val) in flatten_const(ex, gty, gv, 0):
            if so.c <= o < so.c + n: st.mem[(db[1], do.c + o - so.c)] = val
        return
    if sb[0] == "r" and (sb[1], "arr") in st.mem or sb[0] == "d":
        # byte buffer -> scalar(s)
        if db[0] == "r" and (db[1], "arr") not in st.mem:
            es = sb[2] if sb[0] == "d" else 1
            if sb[0] == "d" and es not in (1,):
                for i in range(0, n, es):
                    v = ex.read_cell(st, sb, so.add(i), es)
                    if isinstance(v, (Vec, MapV)): raise Unsupported("memcpy of vectors")
                    if isinstance(v, dict): raise Unsupported("memcpy of struct elements")
                    st.mem[(db[1], do.c + i)] = v
                return
            v = ex.read_cell(st, sb, so, n) if sb[0] == "r" else simp(z3.Concat(*[ex.read_cell(st, sb, so.add(i), 1) for i in reversed(range(n))])) if n > 1 else ex.read_cell(st, sb, so, 1)
            ex.put(st, db[1], do.c, v, n); return
    if sb[0] == "h" and db[0] == "r":
        st.mem[(db[1], "lazy")] = sb[1] if so.c == 0 and do.c == 0 else ex._uns("memcpy from inside opaque object"); return
    raise Unsupported("memcpy %s -> %s" % (sb[0], db[0]))


def flatten_const(ex, ty, v, off):
    m = ex.fr_mod; ty = m.resolve(ty)
    if isinstance(ty, ir.ArrTy):
        es = m.size(ty.e)
        if v.k == "str":
            for i, bt in enumerate(str_bytes(v.v)): yield off + i, 1, bv(bt, 8)
            return
        for i in range(ty.n):
            yield from flatten_const(ex, ty.e, v.v[i] if v.k == "agg" else ir.V("zero", None, ty.e), off + i * es)
        return
    if isinstance(ty, ir.StructTy):
        for i in range(len(ty.elems)):
            fo, fe = m.field_off(ty, i)
            yield from flatten_const(ex, fe, v.v[i] if v.k == "agg" else ir.V("zero", None, fe), off + fo)
        return
    if isinstance(ty, ir.IntTy): yield off, m.size(ty), bv(v.v if v.k == "int" else 0, m.size(ty) * 8); return
    if isinstance(ty, ir.PtrTy): yield off, 8, (ex.val(None, v) if v.k != "zero" else NULL); return
    raise Unsupported("const %r" % ty)


def m_memset(ex, st, args, ins):
    p, v, n = args[0], args[1], args[2]
    if not (isc(n) and isc(v)): raise Unsupported("memset symbolic")
    n = cval(n); ex.nonnull(st, p, "memset")
    if n == 0: return ret(st, p)
    if not p.single: raise Unsupported("memset several targets")
    _, b, o = p.alts[0]
    if b[0] != "r" or o.ts: raise Unsupported("memset target")
    rid = b[1]
    if (rid, "arr") in st.mem: raise Unsupported("memset byte buffer")
    if (rid, "avec") in st.mem:
        a = st.mem[(rid, "avec")]; es = a.e.size
        if o.c != 0 or n != es * cval(a.len): raise Unsupported("partial memset of a local array")
        st.mem[(rid, "avec")] = Vec(a.e, a.len, [z3.K(B64, bv(int.from_bytes(bytes([cval(v) & 255]) * es, "little"), 8 * es))]); return [(st, None)]
    for k in [k for k in st.mem if k[0] == rid and isinstance(k[1], int) and o.c <= k[1] < o.c + n]: del st.mem[k]
    if cval(v) == 0: st.mem[(rid, "Z")] = tuple(st.mem.get((rid, "Z"), ())) + ((o.c, o.c + n),)
    else:
        for i in range(n): st.mem[(rid, o.c + i)] = bv(cval(v) & 255, 8)
    return ret(st, p)


def m_abort(ex, st, args, ins):
    ex.oblige(st, F, "abort", "abort/trap is not reached"); return []


def m_snprintf(ex, st, args, ins): return ret(st, fresh("snprintf", B32))


C_MODELS = {"__assert_fail": m_assert_fail, "fprintf": m_nop, "printf": m_nop, "fputs": m_nop, "fputc": m_nop, "fwrite": m_nop, "puts": m_nop,
            "htonl": m_bswap32, "ntohl": m_bswap32, "htons": m_bswap16, "ntohs": m_bswap16, "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset,
            "log2f": m_flt("log2"), "log2": m_flt("log2"), "ceilf": m_flt("ceil"), "ceil": m_flt("ceil"), "abort": m_abort, "snprintf": m_snprintf}


def intrinsic(ex, st, name, args, ins):
    n = name.split(".")[1]
    if n in ("memcpy", "memmove"): return m_memcpy(ex, st, args, ins)
    if n == "memset": return m_memset(ex, st, args, ins)
    if n in ("lifetime", "dbg", "assume", "stacksave", "stackrestore", "experimental", "invariant", "donothing"): return ret(st, None)
    if n == "trap": return m_abort(ex, st, args, ins)
    if n in ("ceil", "floor", "log2"): return ret(st, FVal(uf(n, FSORT, FSORT)(args[0].t)))
    if n in ("umax", "umin", "smax", "smin"):
        a, b = args[0], args[1]
        c = {"umax": z3.UGE, "umin": z3.ULE, "smax": lambda x, y: x >= y, "smin": lambda x, y: x <= y}[n](a, b)
        return ret(st, simp(z3.If(c, a, b)))
    if n == "bswap":
        v = args[0]; k = v.size() // 8
        return ret(st, simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(k)])))
    if n == "is": return ret(st, F)
    if n == "expect": return ret(st, args[0])
    if n == "abs":
        a = args[0]; return ret(st, simp(z3.If(a < 0, -a, a)))
    if n == "ctlz" or n == "cttz" or n == "ctpop":
        a = args[0]; w = a.size()
        if n == "ctpop":
            r = bv(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            return ret(st, simp(r))
        r = bv(w, w)
        rng = range(w) if n == "ctlz" else range(w - 1, -1, -1)
        for i in rng: r = z3.If(z3.Extract(i, i, a) == 1, bv((w - 1 - i) if n == "ctlz" else i, w), r)
        return ret(st, simp(r))
    raise Unsupported("intrinsic " + name)


# ------------------------------------------------------------------ vector
def vget(ex, st, p, e): return ex.get_vec(st, p, e)


def elem_value(ex, st, e, p):
    """load an element value of type e through pointer p"""
    if isinstance(e, EScal): return ex.load(st, p, ir.intty(8 * e.size))
    if isinstance(e, EPtr): return ex.handle(st, get_sp(ex, st, p))
    if isinstance(e, EVec): return ex.get_vec(st, p, e.e)
    if isinstance(e, EStruct): return {o: elem_value(ex, st, f, p.add(o)) for o, f in e.fields}
    raise Unsupported("element value " + e.key())


def default_elem(e):
    if isinstance(e, EScal): return bv(0, 8 * e.size)
    if isinstance(e, EPtr): return bv(0)
    if isinstance(e, EVec): return Vec.empty(e.e)
    if isinstance(e, EStruct): return {o: default_elem(f) for o, f in e.fields}
    raise Unsupported("default element")


def to_elem(e, v, src_t):
    if isinstance(e, EScal) and z3.is_bv(v):
        return sx(v, 8 * e.size) if (src_t in SIGNED) else zx(v, 8 * e.size)
    return v


def const_arrays(e, val):
    return [z3.K(B64, c) for c in flat(e, val)]


def vector_model(ex, st, dm, ta, meth, margs, args, ins):
    e = cpp_ety(ex.fr_mod, ta[0])
    m, mta, _ = split_targs(meth) if "<" in meth and not meth.startswith("operator<") else (meth, [], "")
    if m.startswith("~"): return ret(st)
    this = args[0]
    # methods returning a vector by value do not exist; `this` is first
    if m == "vector":
        inner = margs.strip()
        if inner.startswith("()") or inner == "(std::allocator<%s> const&)" % ta[0]: v = Vec.empty(e)
        elif inner.startswith("(std::vector") and "&&" in inner:
            v = vget(ex, st, args[1], e); ex.put_vec(st, args[1], Vec.empty(e))
        elif inner.startswith("(std::vector"): v = vget(ex, st, args[1], e)
        elif inner.startswith("(unsigned long, std::allocator"):
            v = Vec(e, args[1], const_arrays(e, default_elem(e)))
        elif inner.startswith("(unsigned long, ") :
            v = Vec(e, args[1], const_arrays(e, elem_value(ex, st, e, args[2])))
        elif "*" in inner or "iterator" in inner:
            v = range_vec(ex, st, e, args[1], args[2])
        else: raise Unsupported("vector ctor " + inner)
        ex.put_vec(st, this, v); return ret(st)
    if m == "operator=":
        if "&&" in margs:
            v = vget(ex, st, args[1], e); ex.put_vec(st, this, v)
            if not ptr_same(this, args[1]): ex.put_vec(st, args[1], Vec.empty(e))
        elif "initializer_list" in margs: raise Unsupported("vector = initializer_list")
        else: ex.put_vec(st, this, vget(ex, st, args[1], e))
        return ret(st, this)
    es = e.bytes()
    if m in ("rbegin", "rend") and len(args) == 2:          # returned through sret: the iterator holds the position after its element
        base = Ptr.mk(("d", args[1], es))
        if m == "rbegin": base = ex.padd(base, vget(ex, st, args[1], e).len, es)
        ex.store(st, ex.aptr(args[0]), base, 8); return ret(st)
    v = vget(ex, st, this, e)
    dptr = lambda idx=None: Ptr.mk(("d", this, es)) if idx is None else ex.padd(Ptr.mk(("d", this, es)), idx, es)
    if m == "size": return ret(st, v.len)
    if m == "empty": return ret(st, simp(v.len == 0))
    if m == "capacity": return ret(st, fresh("cap", B64))
    if m == "reserve" or m == "shrink_to_fit": return ret(st)
    if m in ("push_back", "emplace_back"):
        if m == "push_back" or (m == "emplace_back" and len(args) == 2):
            src = mta[0] if mta else ta[0]
            src0 = re.sub(r"( const)?(&&|&)?$", "", src).strip()
            if m == "emplace_back" and isinstance(e, EScal): sv = ex.load(st, args[1], ir.intty(8 * SCALARS.get(src0, e.size))); val = to_elem(e, sv, src0)
            else: val = elem_value(ex, st, e, args[1])
            if isinstance(e, EPtr) and "&&" in margs: put_sp(ex, st, args[1], NULL)
            if isinstance(e, EVec) and "&&" in margs: ex.put_vec(st, args[1], Vec.empty(e.e))
        elif len(args) == 1: val = default_elem(e)
        else: raise Unsupported("emplace_back")
        nv = v.push(val); ex.put_vec(st, this, nv)
        return ret(st, dptr(v.len))
    if m == "pop_back":
        ex.oblige(st, v.len != 0, "bounds", "pop_back of non-empty vector")
        ex.put_vec(st, this, Vec(e, simp(v.len - 1), v.arrs)); return ret(st)
    if m in ("operator[]", "at"):
        idx = args[1]
        ex.oblige(st, z3.ULT(idx, v.len), "bounds", "vector index within size")
        return ret(st, dptr(idx))
    if m == "back":
        ex.oblige(st, v.len != 0, "bounds", "back() of non-empty vector")
        return ret(st, dptr(simp(v.len - 1)))
    if m == "front":
        ex.oblige(st, v.len != 0, "bounds", "front() of non-empty vector")
        return ret(st, dptr())
    if m in ("data", "begin", "cbegin"): return ret(st, dptr())
    if m in ("end", "cend"): return ret(st, dptr(v.len))
    if m == "clear": ex.put_vec(st, this, Vec(e, bv(0), v.arrs)); return ret(st)
    if m == "resize":
        n = args[1]
        d = default_elem(e) if len(args) == 2 else elem_value(ex, st, e, args[2])
        if isc(v.len) and cval(v.len) == 0:
            nv = Vec(e, n, const_arrays(e, d))
        elif isc(v.len) and isc(n) and cval(n) - cval(v.len) <= 64:
            nv = v
            for i in range(cval(v.len), cval(n)): nv = nv.store(bv(i), d)
            nv = Vec(e, n, nv.arrs)
        else:
            if len(args) == 2 and decide_le(ex, st, n, v.len): nv = Vec(e, n, v.arrs)
            else: raise Unsupported("resize of a non-empty vector")
        ex.put_vec(st, this, nv); return ret(st)
    if m == "assign" and margs.startswith("(unsigned long"):
        ex.put_vec(st, this, Vec(e, args[1], const_arrays(e, elem_value(ex, st, e, args[2])))); return ret(st)
    if m == "swap":
        w = vget(ex, st, args[1], e); ex.put_vec(st, this, w); ex.put_vec(st, args[1], v); return ret(st)
    raise Unsupported("vector::" + meth + margs)


def decide_le(ex, st, a, b):
    return ex.pv.prove(st.pc, z3.ULE(a, b))[0] == "proved"


def range_vec(ex, st, e, b, en):
    raise Unsupported("vector from range")


# ------------------------------------------------------------------ smart pointers (the pointer lives at offset 0)
def get_sp(ex, st, p):
    v = ex.load(st, p, ir.PTR)
    if isinstance(v, Ptr): return v
    return ex.int2ptr(v)


def put_sp(ex, st, p, v): ex.store(st, p, v, 8)


def uptr_model(ex, st, dm, ta, meth, margs, args, ins):
    m, mta, _ = split_targs(meth) if "<" in meth and not meth.startswith("operator<") else (meth, [], "")
    if m.startswith("~"): return ret(st)
    this = args[0]
    if m == "unique_ptr":
        inner = margs
        if inner.startswith("()") : put_sp(ex, st, this, NULL)
        elif "nullptr_t" in inner: put_sp(ex, st, this, NULL)
        elif "&&" in inner:
            v = get_sp(ex, st, args[1]); put_sp(ex, st, args[1], NULL); put_sp(ex, st, this, v)
        else: put_sp(ex, st, this, args[1] if isinstance(args[1], Ptr) else ex.int2ptr(args[1]))
        return ret(st)
    if m == "operator=":
        if "nullptr_t" in margs: put_sp(ex, st, this, NULL)
        else:
            v = get_sp(ex, st, args[1]); put_sp(ex, st, args[1], NULL); put_sp(ex, st, this, v)
        return ret(st, this)
    if m in ("operator->", "get"): return ret(st, get_sp(ex, st, this))
    if m == "operator*": return ret(st, get_sp(ex, st, this))
    if m == "operator bool": return ret(st, mk_not(ex.ptr_eq(st, get_sp(ex, st, this), NULL)))
    if m == "release":
        v = get_sp(ex, st, this); put_sp(ex, st, this, NULL); return ret(st, v)
    if m == "reset":
        put_sp(ex, st, this, args[1] if len(args) > 1 else NULL); return ret(st)
    if m == "swap":
        a, b2 = get_sp(ex, st, this), get_sp(ex, st, args[1]); put_sp(ex, st, this, b2); put_sp(ex, st, args[1], a); return ret(st)
    raise Unsupported("unique_ptr::" + meth + margs)


def sptr_model(ex, st, dm, ta, meth, margs, args, ins):
    m, mta, _ = split_targs(meth) if "<" in meth and not meth.startswith("operator<") else (meth, [], "")
    if m.startswith("~"): return ret(st)
    this = args[0]
    if m in ("shared_ptr", "__shared_ptr"):
        inner = margs
        if inner.startswith("()"): put_sp(ex, st, this, NULL)
        elif inner.startswith("(std::nullptr_t"): put_sp(ex, st, this, NULL)
        elif "shared_ptr<" in inner or "unique_ptr<" in inner:
            v = get_sp(ex, st, args[1]); put_sp(ex, st, this, v)
            if "&&" in inner: put_sp(ex, st, args[1], NULL)
        elif inner.startswith("(std::_Sp_alloc_shared_tag"): raise Unsupported("shared_ptr allocator ctor")
        else: put_sp(ex, st, this, args[1])
        return ret(st)
    if m == "operator=":
        v = get_sp(ex, st, args[1]); put_sp(ex, st, this, v)
        if "&&" in margs and not ptr_same(this, args[1]): put_sp(ex, st, args[1], NULL)
        return ret(st, this)
    if m in ("operator->", "get", "operator*", "_M_get"): return ret(st, get_sp(ex, st, this))
    if m == "operator bool": return ret(st, mk_not(ex.ptr_eq(st, get_sp(ex, st, this), NULL)))
    if m == "reset" and len(args) == 1: put_sp(ex, st, this, NULL); return ret(st)
    if m == "use_count": return ret(st, fresh("use_count", B64))
    raise Unsupported("shared_ptr::" + meth + margs)


def make_shared(ex, st, dm, args, ins):
    m = re.search(r"make_shared<(.*)>\((.*)\)", dm)
    tname = None
    mm = re.search(r"make_shared<", dm)
    _, ta, _ = split_targs(dm[mm.start():])
    tname = ta[0]
    mod = ex.fr_mod
    cons = None
    key = "void std::_Construct<%s" % tname
    if not hasattr(mod, "_dm"):
        mod._dm = dict(zip(ir.demangle(list(mod.funcs)), mod.funcs))
    for d, n in mod._dm.items():
        if d.startswith(key + ">(") or d.startswith(key + ",") : cons = n
    sz = None
    for k in ("struct.", "class."):
        if k + tname in mod.types: sz = mod.size(ir.NamedTy(k + tname))
    rid = ex.new_region(st, "shared", sz)
    p = Ptr.mk(("r", rid))
    if cons is None: raise Unsupported("constructor of " + tname)
    out = []
    for s, v in ex.group_returns(ex.call_fn(mod.funcs[cons], [p] + args[1:], st)):
        ex.put(s, *loc_of(args[0]), p, 8); out.append((s, None))
    return out


def loc_of(p):
    _, b, o = p.alts[0]
    if b[0] != "r" or o.ts: raise Unsupported("sret location")
    return b[1], o.c


# ------------------------------------------------------------------ map<uint32_t, shared_ptr<T>>
class MIter:
    """map iterator: (map location, key, valid)"""
    def __init__(self, mp, key, valid): self.mp, self.key, self.valid = mp, key, valid


def map_get(ex, st, p, to):
    def mk(h, o):
        return MapV(to, uf("mhas_%d" % o.c, B64, z3.ArraySort(B32, BOOL))(h), uf("mval_%d" % o.c, B64, z3.ArraySort(B32, B64))(h))
    return ex.get_abs(st, p, MapV, mk)


def map_model(ex, st, dm, ta, meth, margs, args, ins):
    if not (ta[0] == "unsigned int" and ta[1].startswith("std::shared_ptr")): raise Unsupported("map type " + dm)
    m = split_targs(meth)[0] if "<" in meth else meth
    if m.startswith("~"): return ret(st)
    this = args[0]
    if m == "map":
        if margs.startswith("()"):
            ex.put_abs(st, this, MapV(ta[1], z3.K(B32, F), z3.K(B32, bv(0)))); return ret(st)
        raise Unsupported("map ctor " + margs)
    v = map_get(ex, st, this, ta[1])
    if m in ("find",):
        k = ex.load(st, args[1], ir.intty(32))
        has = simp(z3.Select(v.has, k))
        return ret(st, mk_iter(ex, st, this, k, has))
    if m in ("end", "cend"):
        return ret(st, mk_iter(ex, st, this, bv(0, 32), F))
    if m == "count":
        k = ex.load(st, args[1], ir.intty(32)); return ret(st, simp(z3.If(z3.Select(v.has, k), bv(1), bv(0))))
    if m in ("operator[]", "at"):
        k = ex.load(st, args[1], ir.intty(32))
        has = simp(z3.Select(v.has, k))
        if m == "at": ex.oblige(st, has, "map", "map::at key is present (no exception)")
        nv = v
        if m == "operator[]":
            has = decide(st, has)
            if not is_t(has) and not is_f(has) and ex.pv.prove(st.pc, has, 2000)[0] == "proved": has = T
            nv = MapV(v.to, simp(z3.Store(v.has, k, T)), simp(z3.If(has, v.val, z3.Store(v.val, k, bv(0)))))
            if not is_t(has): ex.put_abs(st, this, nv)
        return ret(st, Ptr.mk(("m", this, k)))
    if m == "clear":
        ex.put_abs(st, this, MapV(v.to, z3.K(B32, F), v.val)); return ret(st)
    if m == "erase" and "unsigned int const&" in margs:
        k = ex.load(st, args[1], ir.intty(32))
        ex.put_abs(st, this, MapV(v.to, simp(z3.Store(v.has, k, F)), v.val))
        return ret(st, simp(z3.If(z3.Select(v.has, k), bv(1), bv(0))))
    if m == "size": return ret(st, fresh("mapsize", B64))
    if m == "empty": return ret(st, fresh("mapempty", BOOL))
    raise Unsupported("map::" + meth)


def mk_iter(ex, st, this, k, valid):
    rid = ex.new_region(st, "node")
    st.mem[(rid, "iter")] = MIterV(this, k, valid)
    return Ptr.mk(("r", rid))


class MIterV(Opaque):
    __slots__ = ("mp", "key", "valid")
    def __init__(self, mp, key, valid): self.mp, self.key, self.valid = mp, key, valid; self.n = "iter"


def load_iter(ex, st, p):
    """list of (cond, MIterV) for the iterator object at p"""
    v = ex.load(st, p, ir.PTR)
    out = []
    for c, b, o in v.alts:
        if b[0] != "r" or (b[1], "iter") not in st.mem: raise Unsupported("map iterator")
        out.append((c, st.mem[(b[1], "iter")]))
    return out


def iter_eq(x, y):
    r = []
    for c1, a in x:
        for c2, b in y:
            r.append(mk_and(c1, c2, mk_or(mk_and(mk_not(a.valid), mk_not(b.valid)), mk_and(a.valid, b.valid, simp(a.key == b.key)))))
    return simp(mk_or(*r))


def iter_model(ex, st, dm, ta, meth, margs, args, ins):
    m = meth.split("<")[0]
    if m in ("_Rb_tree_iterator", "_Rb_tree_const_iterator"):
        # copy / conversion constructors: fall through to the inlined body
        return None
    if m in ("operator->", "operator*"):
        its = load_iter(ex, st, args[0])
        alts = []
        for c, it in its:
            ex.oblige(st, mk_or(mk_not(c), it.valid), "map", "map iterator is dereferenceable")
            alts.append((c, ("mp", it.mp, it.key), Off(0)))
        return ret(st, Ptr(alts))
    if m == "operator++" or m == "operator--": raise Unsupported("map iteration")
    return None
