"""Symbolic values, memory and the forward VC-generating executor over LLVM IR."""
import z3, time, itertools, re
import ir
from ir import IRError

B64 = z3.BitVecSort(64); B32 = z3.BitVecSort(32); B8 = z3.BitVecSort(8); BOOL = z3.BoolSort()
T = z3.BoolVal(True); F = z3.BoolVal(False)
FSORT = z3.DeclareSort("Flt")
FLOC = z3.DeclareSort("Str")


class Unsupported(Exception):
    """The verifier cannot express this construct: the function is undecided (never a violation)."""


class Misaligned(Exception):
    """a code loop could not be matched with a loop of the specification (undecided)"""


def simp(t): return z3.simplify(t)
def bv(v, w=64): return z3.BitVecVal(v, w)
def isc(t): return z3.is_bv_value(t)
def cval(t): return t.as_long()
def is_t(t): return z3.is_true(t)
def is_f(t): return z3.is_false(t)
def eqt(a, b): return a.eq(b)


def mk_and(*xs):
    l = []
    for x in xs:
        if is_f(x): return F
        if not is_t(x): l.append(x)
    if not l: return T
    if len(l) == 1: return l[0]
    return z3.And(*l)


def mk_or(*xs):
    l = []
    for x in xs:
        if is_t(x): return T
        if not is_f(x): l.append(x)
    if not l: return F
    if len(l) == 1: return l[0]
    return z3.Or(*l)


def mk_not(x):
    if is_t(x): return F
    if is_f(x): return T
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def mk_ite(c, a, b):
    if is_t(c): return a
    if is_f(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)


def pow2_exp(x):
    """(e, w) with x == 2^e for e < w and x == 0 otherwise (64-bit terms), or None"""
    w = 64
    if z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.num_args() == 2 and isc(x.arg(0)) and cval(x.arg(0)) == 0: x = x.arg(1); w = x.size()
    if z3.is_app_of(x, z3.Z3_OP_BSHL) and isc(x.arg(0)) and cval(x.arg(0)) == 1: return zx(x.arg(1), 64), bv(w)
    return None


def umul(a, b, pv):
    """a * b mod 2^64 for 64-bit terms as an uninterpreted product with lemma facts (vc/lemmas.py); constants multiply natively"""
    for x, y in ((a, b), (b, a)):
        if isc(x): return simp(a * b)
        if z3.is_app_of(x, z3.Z3_OP_ITE) and (isc(x.arg(1)) or isc(x.arg(2))):
            return simp(z3.If(x.arg(0), umul(x.arg(1), y, pv), umul(x.arg(2), y, pv)))
        if z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.num_args() == 2 and isc(x.arg(0)) and cval(x.arg(0)) == 0:      # zero extension of a conditional
            z = x.arg(1)
            if z3.is_app_of(z, z3.Z3_OP_ITE) and (isc(z.arg(1)) or isc(z.arg(2))):
                return simp(z3.If(z.arg(0), umul(zx(z.arg(1), 64), y, pv), umul(zx(z.arg(2), 64), y, pv)))
    for x, y in ((a, b), (b, a)):               # an operand that depends on one flag: a case per value of the flag
        t = flag_leaf(x)
        if t is not None and not isc(y):
            at = lambda k: simp(z3.substitute(x, (t, z3.BitVecVal(k, t.size()))))
            if isc(at(0)) and isc(at(1)): return simp(z3.If(t == 0, at(0) * y, z3.If(t == 1, at(1) * y, umul_uf(a, b, pv))))
    for x, y in ((a, b), (b, a)):               # a power of two: multiplication is a shift
        e = pow2_exp(x)
        if e is not None: return simp(mk_ite(simp(z3.ULT(e[0], e[1])), y << e[0], bv(0)))
    return umul_uf(a, b, pv)


def flag_leaf(x):
    """the only non-arithmetic subterm of x, when it is a one-bit read"""
    ar = (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT)
    leaf = None; todo = [x]; n = 0
    while todo:
        t = todo.pop(); n += 1
        if n > 40: return None
        if isc(t): continue
        if z3.is_app(t) and t.decl().kind() in ar: todo += t.children(); continue
        if leaf is not None and not leaf.eq(t): return None
        leaf = t
    if leaf is None or leaf.eq(x): return None
    if leaf.decl().name() == "bits" and isc(leaf.arg(2)) and cval(leaf.arg(2)) == 1: return leaf
    return None


def umul_uf(a, b, pv):
    if a.sexpr() > b.sexpr(): a, b = b, a
    r = uf("umul64", B64, B64, B64)(a, b)
    pv.fact(r == uf("umul64", B64, B64, B64)(b, a))
    small = lambda x, n: z3.ULE(x, bv(n))
    w = (1 << 32) - 1
    pv.fact(z3.Implies(a == 1, r == b)); pv.fact(z3.Implies(b == 1, r == a))
    pv.fact(z3.Implies(z3.Or(a == 0, b == 0), r == 0))
    pv.fact(z3.Implies(z3.And(a != 0, b != 0, small(a, w), small(b, w)), z3.And(z3.UGE(r, a), z3.UGE(r, b))))
    pv.fact(z3.Implies(z3.And(small(a, 2111), small(b, 2111)), z3.And(small(r, 4456321), *[r != bv(k) for k in (2097153, 4194305, 4194306)])))
    pv.fact(z3.Implies(z3.And(small(a, 65535), small(b, 65535)), small(r, w)))
    return r


def zx(t, w):
    n = t.size()
    if n == w: return t
    if n > w: return simp(z3.Extract(w - 1, 0, t))
    if isc(t): return bv(cval(t), w)
    return simp(z3.ZeroExt(w - n, t))


def sx(t, w):
    n = t.size()
    if n == w: return t
    if n > w: return simp(z3.Extract(w - 1, 0, t))
    return simp(z3.SignExt(w - n, t))


_fresh = itertools.count()
def fresh(name, sort): return z3.Const("%s!%d" % (name, next(_fresh)), sort)
_uf = {}
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf: _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


# ================================================================ element types
class ETy:
    pass


class EScal(ETy):
    def __init__(self, size, signed=False): self.size, self.signed = size, signed
    def comps(self): return [z3.BitVecSort(8 * self.size)]
    def key(self): return "s%d" % self.size
    def bytes(self): return self.size


class EPtr(ETy):
    """smart or raw pointer stored as a handle"""
    def __init__(self, to=None, size=8): self.to = to; self.size = size
    def comps(self): return [B64]
    def key(self): return "p"
    def bytes(self): return self.size


class EVec(ETy):
    def __init__(self, e): self.e = e
    def comps(self): return [B64] + [z3.ArraySort(B64, c) for c in self.e.comps()]
    def key(self): return "v" + self.e.key()
    def bytes(self): return 24


class EArr(ETy):
    """std::array / C array member of n elements"""
    def __init__(self, n, e): self.n, self.e = n, e
    def comps(self): raise Unsupported("array inside vector")
    def key(self): return "a%d%s" % (self.n, self.e.key())
    def bytes(self): return self.n * self.e.bytes()


class EStruct(ETy):
    def __init__(self, size, fields): self.size, self.fields = size, fields  # fields: [(off, ETy)]
    def comps(self): return [c for _, f in self.fields for c in f.comps()]
    def key(self): return "S" + "".join("%d%s" % (o, f.key()) for o, f in self.fields)
    def bytes(self): return self.size


class EMap(ETy):
    """std::map<uint32_t, shared_ptr<to>>"""
    def __init__(self, to=None): self.to = to
    def comps(self): return [z3.ArraySort(B32, BOOL), z3.ArraySort(B32, B64)]
    def key(self): return "m"
    def bytes(self): return 48


class EOpaque(ETy):
    def __init__(self, name, size): self.name, self.size = name, size
    def comps(self): raise Unsupported("opaque type " + self.name)
    def key(self): return "o"
    def bytes(self): return self.size


_sel = {}
def sel(a, i):
    """Select, pushed through stores at constant indices and through if-then-else"""
    if not isc(i): return simp(z3.Select(a, i))
    k = (a.get_id(), i.get_id())
    r = _sel.get(k)
    if r is not None: return r[0]
    if z3.is_store(a):
        j = a.arg(1)
        if j.eq(i): v = a.arg(2)
        elif isc(j): v = sel(a.arg(0), i)
        else: v = simp(z3.Select(a, i))
    elif z3.is_const_array(a): v = a.arg(0)
    elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        v = mk_ite(a.arg(0), sel(a.arg(1), i), sel(a.arg(2), i))
    else: v = simp(z3.Select(a, i))
    _sel[k] = (v, a, i)
    return v


def upd(a, i, v):
    """Store with stores at constant indices kept sorted and unique"""
    if isc(i) and z3.is_store(a) and isc(a.arg(1)):
        j = a.arg(1)
        if j.eq(i): return z3.Store(a.arg(0), i, v)
        if cval(j) > cval(i): return z3.Store(upd(a.arg(0), i, v), j, a.arg(2))
    if isc(i):
        b = a                        # storing what the default value already is at this index
        while z3.is_store(b) and isc(b.arg(1)) and not b.arg(1).eq(i): b = b.arg(0)
        if z3.is_K(b) and b.arg(0).eq(v): return a
    return z3.Store(a, i, v)


class Vec:
    """value of a std::vector: length and one SMT array per scalar component of the element"""
    __slots__ = ("e", "len", "arrs")
    def __init__(self, e, ln, arrs): self.e, self.len, self.arrs = e, ln, tuple(arrs)
    def comps(self): return [self.len] + list(self.arrs)

    @staticmethod
    def empty(e):
        return Vec(e, bv(0), [zero_array(c) for c in e.comps()])

    def load(self, idx):
        return unflat(self.e, [sel(a, simp(idx)) for a in self.arrs])

    def store(self, idx, val):
        cs = flat(self.e, val)
        return Vec(self.e, self.len, [upd(a, idx, c) for a, c in zip(self.arrs, cs)])

    def push(self, val):
        v = self.store(self.len, val)
        return Vec(self.e, simp(self.len + 1), v.arrs)

    def __repr__(self): return "Vec(%s,len=%s)" % (self.e.key(), self.len)


class MapV:
    __slots__ = ("to", "has", "val")
    def __init__(self, to, has, val): self.to, self.has, self.val = to, has, val
    def comps(self): return [self.has, self.val]


def zero_array(sort):
    return z3.K(B64, zero_of(sort))


def zero_of(sort):
    if sort.kind() == z3.Z3_BV_SORT: return bv(0, sort.size())
    if sort.kind() == z3.Z3_BOOL_SORT: return F
    if sort.kind() == z3.Z3_ARRAY_SORT: return z3.K(sort.domain(), zero_of(sort.range()))
    raise Unsupported("zero of sort %s" % sort)


def flat(e, val):
    if isinstance(e, EScal):
        if z3.is_bool(val): val = z3.If(val, bv(1, 8 * e.size), bv(0, 8 * e.size))
        return [zx(val, 8 * e.size)]
    if isinstance(e, EPtr): return [val]
    if isinstance(e, EVec): return [val.len] + list(val.arrs)
    if isinstance(e, EMap): return [val.has, val.val]
    if isinstance(e, EStruct):
        out = []
        for (o, f) in e.fields: out += flat(f, val[o])
        return out
    raise Unsupported("flat " + e.key())


def unflat(e, cs):
    if isinstance(e, (EScal, EPtr)): return cs[0]
    if isinstance(e, EVec): return Vec(e.e, cs[0], cs[1:])
    if isinstance(e, EMap): return MapV(e.to, cs[0], cs[1])
    if isinstance(e, EStruct):
        d = {}; i = 0
        for (o, f) in e.fields:
            n = len(f.comps()); d[o] = unflat(f, cs[i:i + n]); i += n
        return d
    raise Unsupported("unflat " + e.key())


class BitBuf:
    """ghost view of a BitBuffer: stream identity and bit position"""
    __slots__ = ("s", "pos")
    def __init__(self, s, pos): self.s, self.pos = s, pos


class FVal:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t


class Opaque:
    """value the verifier does not look into (strings, streams, control blocks)"""
    __slots__ = ("n",)
    def __init__(self, n=""): self.n = n


# ================================================================ pointers
class Off:
    __slots__ = ("c", "ts")
    def __init__(self, c, ts=()): self.c, self.ts = c, tuple(ts)
    def add(self, c, t=None, stride=1):
        ts = self.ts
        if t is not None:
            if isc(t):
                v = cval(t)
                if v >= 1 << 63: v -= 1 << 64
                c += v * stride
            else:
                ts = list(ts)
                for i, (u, s) in enumerate(ts):
                    if s == stride:
                        nt = simp(u + t)
                        if isc(nt):
                            v = cval(nt)
                            if v >= 1 << 63: v -= 1 << 64
                            c += v * stride; ts.pop(i)
                        else: ts[i] = (nt, s)
                        break
                else: ts.append((t, stride))
        return Off(self.c + c, ts)
    def term(self):
        r = bv(self.c & (2**64 - 1))
        for t, s in self.ts: r = r + t * bv(s)
        return simp(r)
    def same(self, o): return self.c == o.c and len(self.ts) == len(o.ts) and all(a[1] == b[1] and a[0].eq(b[0]) for a, b in zip(self.ts, o.ts))
    def __repr__(self): return "%d%s" % (self.c, "".join("+%s*%d" % (t, s) for t, s in self.ts))


NULLB = ("n",)


class Ptr:
    """guarded set of targets [(cond, base, Off)].
       base: ('r',rid) region; ('n',) null; ('h',term) object known only by handle;
             ('d',Ptr to the vector,elemsize) vector storage; ('g',name) global; ('f',name) function"""
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = tuple(alts)
    @staticmethod
    def mk(base, off=None): return Ptr([(T, base, off or Off(0))])
    @property
    def single(self): return len(self.alts) == 1
    def add(self, c, t=None, stride=1):
        return Ptr([(k, b, o if b == NULLB and False else o.add(c, t, stride)) for k, b, o in self.alts])
    def __repr__(self): return "Ptr" + repr([(str(k)[:20], b if b[0] != 'd' else 'd', o) for k, b, o in self.alts])


NULL = Ptr.mk(NULLB)


def base_eq(a, b):
    if a is b: return True
    if a[0] != b[0]: return False
    if a[0] == "h": return a[1].eq(b[1])
    if a[0] == "d": return ptr_same(a[1], b[1]) and a[2] == b[2]
    if a[0] in ("m", "mp"): return ptr_same(a[1], b[1]) and a[2].eq(b[2])
    return a == b


def ptr_same(p, q):
    if p is q: return True
    return len(p.alts) == len(q.alts) and all(k1.eq(k2) and base_eq(b1, b2) and o1.same(o2) for (k1, b1, o1), (k2, b2, o2) in zip(p.alts, q.alts))


def val_same(a, b):
    if a is b: return True
    if type(a) is not type(b) and not (z3.is_expr(a) and z3.is_expr(b)): return False
    if z3.is_expr(a): return a.eq(b)
    if isinstance(a, Ptr): return ptr_same(a, b)
    if isinstance(a, Vec): return a.len.eq(b.len) and all(x.eq(y) for x, y in zip(a.arrs, b.arrs)) and len(a.arrs) == len(b.arrs)
    if isinstance(a, MapV): return a.has.eq(b.has) and a.val.eq(b.val)
    if isinstance(a, BitBuf): return a.s.eq(b.s) and a.pos.eq(b.pos)
    if isinstance(a, FVal): return a.t.eq(b.t)
    if isinstance(a, Opaque): return True
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(val_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return a.keys() == b.keys() and all(val_same(a[k], b[k]) for k in a)
    return a == b


def merge_val(c, a, b):
    """ite(c,a,b)"""
    if val_same(a, b): return a
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort() != b.sort(): raise Unsupported("merge of different sorts")
        return mk_ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return ptr_ite(c, a, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.e.key() != b.e.key(): raise Unsupported("vec merge")
        return Vec(a.e, mk_ite(c, a.len, b.len), [mk_ite(c, x, y) for x, y in zip(a.arrs, b.arrs)])
    if isinstance(a, MapV) and isinstance(b, MapV):
        return MapV(a.to, mk_ite(c, a.has, b.has), mk_ite(c, a.val, b.val))
    if isinstance(a, BitBuf) and isinstance(b, BitBuf):
        return BitBuf(mk_ite(c, a.s, b.s), mk_ite(c, a.pos, b.pos))
    if isinstance(a, FVal) and isinstance(b, FVal): return FVal(mk_ite(c, a.t, b.t))
    if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return type(a)(merge_val(c, x, y) for x, y in zip(a, b))
    if a is None or b is None: return a if b is None else b
    raise Unsupported("merge %s %s" % (type(a), type(b)))


def ptr_ite(c, a, b):
    alts = []
    for k, bs, o in a.alts: alts.append([mk_and(c, k), bs, o])
    nc = mk_not(c)
    for k, bs, o in b.alts:
        for x in alts:
            if base_eq(x[1], bs) and x[2].same(o):
                x[0] = mk_or(x[0], mk_and(nc, k)); break
            if bs[0] == "h" and x[1][0] == "h" and o.same(x[2]):
                x[1] = ("h", mk_ite(c, x[1][1], bs[1])); x[0] = mk_or(x[0], mk_and(nc, k)); break
        else: alts.append([mk_and(nc, k), bs, o])
    if len(alts) == 1: alts[0][0] = T
    return Ptr([tuple(x) for x in alts])


# ================================================================ state
class State:
    __slots__ = ("pc", "pcs", "mem", "env", "dead")
    def __init__(self): self.pc = (); self.pcs = frozenset(); self.mem = {}; self.env = {}; self.dead = False

    def copy(self):
        s = State(); s.pc = self.pc; s.pcs = self.pcs; s.mem = dict(self.mem); s.env = dict(self.env)
        return s

    def assume(self, c):
        """adds c to the path condition; returns False when it is trivially infeasible"""
        if is_t(c): return True
        if is_f(c): return False
        i = c.get_id()
        if i in self.pcs: return True
        n = mk_not(c)
        if n.get_id() in self.pcs: return False
        if z3.is_and(c):
            for x in c.children():
                if not self.assume(x): return False
            return True
        self.pc = self.pc + (c,); self.pcs = self.pcs | {i}
        return True

    def cond(self): return mk_and(*self.pc)


def decide(st, c):
    """c simplified under the literals of the path condition (cheap, syntactic)"""
    if is_t(c) or is_f(c): return c
    if c.get_id() in st.pcs: return T
    if mk_not(c).get_id() in st.pcs: return F
    if z3.is_not(c):
        return mk_not(decide(st, c.arg(0)))
    if z3.is_and(c):
        return mk_and(*[decide(st, x) for x in c.children()])
    if z3.is_or(c):
        return mk_or(*[decide(st, x) for x in c.children()])
    return c


def common_prefix(pcs):
    n = min(len(p) for p in pcs); k = 0
    while k < n and all(p[k].eq(pcs[0][k]) for p in pcs[1:]): k += 1
    return k


def merge_states(sts, vx=None):
    if len(sts) == 1: return sts[0]
    k = common_prefix([s.pc for s in sts])
    rests = [mk_and(*s.pc[k:]) for s in sts]
    # choose shortest discriminators
    out = State()
    out.pc = sts[0].pc[:k]
    out.pcs = frozenset(x.get_id() for x in out.pc)
    # drop literals that exclude nothing: rest may include side facts (read successes); keep Or of rests
    orr = simp(mk_or(*rests))
    acc = sts[-1]; mem = acc.mem; env = acc.env
    # discriminator per state: first literal whose negation heads another state's rest
    disc = []
    for i, s in enumerate(sts):
        d = s.pc[k] if len(s.pc) > k else T
        others = [t.pc[k] if len(t.pc) > k else T for j, t in enumerate(sts) if j != i]
        if len(sts) == 2 and mk_not(d).eq(others[0]) : disc.append(d)
        elif len(sts) == 2 and is_t(mk_or(d, others[0])): disc.append(rests[i])
        else: disc.append(rests[i])
    for i in range(len(sts) - 2, -1, -1):
        s = sts[i]; c = disc[i]
        neg = z3.is_not(c)
        nm = {}
        keys = mem.keys() | s.mem.keys() if mem.keys() != s.mem.keys() else mem.keys()
        for key in keys:
            a = s.mem.get(key); b = mem.get(key)
            if a is b: nm[key] = a; continue
            if a is None or b is None:
                a2 = a if a is not None else default_cell(s, key, b)
                b2 = b if b is not None else default_cell_mem(mem, key, a)
                if a2 is None or b2 is None:
                    nm[key] = a if a is not None else b
                    continue
                a, b = a2, b2
            if key[1] == "Z":
                nm[key] = tuple(sorted(set(a) & set(b))) if a != b else a
                continue
            nm[key] = merge_val(c, a, b) if not neg else merge_val(c.arg(0), b, a)
        ne = {}
        for key, a in s.env.items():
            b = env.get(key)
            if b is None: continue
            if a is b: ne[key] = a
            else:
                try: ne[key] = merge_val(c, a, b) if not neg else merge_val(c.arg(0), b, a)
                except Unsupported: pass
        mem, env = nm, ne
    out.mem = mem; out.env = env
    if not is_t(orr):
        out.assume(orr)
    return out


def default_cell(st, key, other): return default_cell_mem(st.mem, key, other)


def default_cell_mem(mem, key, other):
    rid, off = key
    if off in ("Z", "arr", "kind", "avec"): return None
    if (rid, "kind") not in mem: return None        # region does not exist on that side
    if z3.is_bv(other):
        z = mem.get((rid, "Z"), ())
        if any(lo <= off and off + other.size() // 8 <= hi for lo, hi in z): return bv(0, other.size())
        return fresh("undef", other.sort())
    return None


# ================================================================ prover
class Prover:
    def __init__(self, timeout_ms=8000):
        self.facts = []; self.factids = set(); self.seqfacts = set()
        self.timeout = timeout_ms
        self.solver = z3.Solver(); self.nq = 0; self.tq = 0.0; self.ntriv = 0
        self.solver.set("timeout", timeout_ms)
        self.cache = {}
        self.synced = 0
        self.deadline = None

    def fact(self, t):
        t = simp(t)
        if is_t(t): return
        i = t.get_id()
        if i in self.factids: return
        self.factids.add(i); self.facts.append(t)

    def check(self, conds, timeout=None):
        """satisfiability of facts & conds -> ('sat',model) | ('unsat',None) | ('unknown',None)"""
        if self.deadline and time.time() > self.deadline: return "unknown", None
        self.nq += 1
        t0 = time.time()
        s = self.solver
        while self.synced < len(self.facts):
            s.add(self.facts[self.synced]); self.synced += 1
        full = timeout or self.timeout
        s.set("timeout", min(full, 700))          # the incremental solver is quick or useless; then a fresh bit-vector/array solver, then the general one
        s.push()
        try:
            for c in conds: s.add(c)
            r = s.check(); s3 = s
            if r == z3.unknown:
                try:
                    s3 = z3.SolverFor("QF_AUFBV"); s3.set("timeout", full * 2)
                    s3.add(*self.facts); s3.add(*conds)
                    r = s3.check()
                except z3.Z3Exception: r = z3.unknown
            if r == z3.unknown:
                s3 = z3.Solver(); s3.set("timeout", full * 2)
                s3.add(*self.facts); s3.add(*conds)
                r = s3.check()
            if r == z3.sat: return "sat", s3.model()
            if r == z3.unsat: return "unsat", None
            return "unknown", None
        finally:
            s.pop()
            self.tq += time.time() - t0

    def prove(self, pc, goal, timeout=None):
        """-> 'proved' | ('failed', model) | 'unknown'"""
        g = simp(goal)
        if is_t(g): self.ntriv += 1; return "proved", None
        for c in pc:
            if c.eq(g): self.ntriv += 1; return "proved", None
        key = (tuple(c.get_id() for c in pc), g.get_id())
        if key in self.cache and self.cache[key][0] == "proved": return self.cache[key]
        r, m = self.check(list(pc) + [mk_not(g)], timeout)
        out = {"unsat": ("proved", None), "sat": ("failed", m), "unknown": ("unknown", None)}[r]
        self.cache[key] = out
        self._keep = getattr(self, "_keep", []); self._keep.append((pc, g))
        return out

    def prove_plain(self, pc, g):
        """prove without the unfoldings of ghost sequences"""
        s = z3.Solver(); s.set("timeout", 4 * self.timeout); self.nq += 1
        s.add(*[f for f in self.facts if f.get_id() not in self.seqfacts]); s.add(*pc); s.add(mk_not(g))
        r = s.check(); return "proved" if r == z3.unsat else "unknown"

    def feasible(self, conds, timeout=2000):
        r, _ = self.check(conds, timeout)
        return r != "unsat"


class Obligation:
    __slots__ = ("kind", "desc", "loc", "status", "model", "t", "goal", "pc", "info")
    def __init__(self, kind, desc, loc, status, model=None, t=0.0, goal=None, pc=(), info=None):
        self.kind, self.desc, self.loc, self.status, self.model, self.t, self.goal, self.pc, self.info = kind, desc, loc, status, model, t, goal, pc, info
