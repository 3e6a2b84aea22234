"""LLVM IR text front end.

Compiles a translation unit of /repo with clang -O0 -g, runs mem2reg, and parses the textual IR.
Nothing is dropped except llvm.dbg.* calls, attributes and debug metadata that is not needed.
"""
import os, re, subprocess, hashlib, threading

CLANG = "clang++-18"
OPT = "opt-18"
REPO = os.environ.get("VERIF_REPO", "/repo")
DEFINES = ["-DFDUMP_DEFINE", "-DFPRINT_ERRORS", "-DRTP_DEFINE"]


class IRError(Exception):
    pass


# ----------------------------------------------------------------- types
class Ty:
    pass


class IntTy(Ty):
    def __init__(self, w): self.w = w
    def __repr__(self): return "i%d" % self.w


class FloatTy(Ty):
    def __init__(self, k): self.k = k
    def __repr__(self): return self.k


class PtrTy(Ty):
    def __repr__(self): return "ptr"


class VoidTy(Ty):
    def __repr__(self): return "void"


class ArrTy(Ty):
    def __init__(self, n, e): self.n, self.e = n, e
    def __repr__(self): return "[%d x %r]" % (self.n, self.e)


class StructTy(Ty):
    def __init__(self, elems, packed=False): self.elems, self.packed = elems, packed
    def __repr__(self): return "{%s}" % ", ".join(map(repr, self.elems))


class NamedTy(Ty):
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name


class OtherTy(Ty):
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name


_ints = {}
def intty(w):
    if w not in _ints: _ints[w] = IntTy(w)
    return _ints[w]
PTR = PtrTy(); VOID = VoidTy()

TOK = re.compile(r'''\s*(
   c"(?:[^"])*" | "(?:[^"])*" | ![0-9]+ | ![A-Za-z_][\w.]*\b | !\{ |
   %"[^"]*" | %[-\w.$]+ | @"[^"]*" | @[-\w.$]+ | \$[-\w.$]+ | \#[0-9]+ |
   \.\.\. | 0x[0-9A-Fa-f]+ | -?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)? | -?[0-9]+ | [A-Za-z_][\w.]* | <\{ | \}> | [][(){}<>,=*:|!]
   )''', re.X)


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("tok: " + s[i:i + 60])
        out.append(m.group(1)); i = m.end()
    return out


class P:
    """token stream"""
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise IRError("expected %s got %s in %s" % (x, y, " ".join(self.t)))

    def type(self):
        t = self.next()
        if re.fullmatch(r"i\d+", t): r = intty(int(t[1:]))
        elif t == "ptr":
            r = PTR
            if self.peek() == "addrspace": raise IRError("addrspace")
        elif t == "void": r = VOID
        elif t in ("float", "double", "x86_fp80", "half", "fp128"): r = FloatTy(t)
        elif t in ("metadata", "label", "token"): r = OtherTy(t)
        elif t[0] == "%": r = NamedTy(t[1:].strip('"'))
        elif t == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]"); r = ArrTy(n, e)
        elif t == "<":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">"); r = OtherTy("<%d x %r>" % (n, e))
        elif t == "{" or t == "<{":
            close = "}" if t == "{" else "}>"
            es = []
            if not self.accept(close):
                while True:
                    es.append(self.type())
                    if self.accept(close): break
                    self.expect(",")
            r = StructTy(es, t == "<{")
        else: raise IRError("type? %s in %s" % (t, " ".join(self.t)))
        # function type suffix:  void (ptr, ...)
        if self.peek() == "(" and isinstance(r, (VoidTy, IntTy, PtrTy, FloatTy, NamedTy, StructTy)) and self._looks_fnty():
            d = 0
            while True:
                x = self.next()
                if x == "(": d += 1
                if x == ")":
                    d -= 1
                    if d == 0: break
        return r

    def _looks_fnty(self):
        # after a type, '(' only occurs in call instructions with explicit function type
        return True


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned", "signext",
               "zeroext", "inreg", "immarg", "writable", "dead_on_unwind", "nofree", "nest", "swiftself", "allocptr", "allocalign",
               "noext"}


def skip_param_attrs(p):
    attrs = {}
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            p.next(); attrs[t] = True
        elif t == "align":
            p.next()
            if p.peek() == "(":
                p.next(); p.next(); p.expect(")")
            else: p.next()
        elif t in ("dereferenceable", "dereferenceable_or_null", "range", "captures", "memory", "nofpclass"):
            p.next(); d = 0
            while True:
                x = p.next()
                if x == "(": d += 1
                if x == ")":
                    d -= 1
                    if d == 0: break
        elif t in ("sret", "byval", "elementtype", "byref", "preallocated", "inalloca"):
            p.next(); p.expect("("); ty = p.type(); p.expect(")"); attrs[t] = ty
        else: break
    return attrs


# ----------------------------------------------------------------- values
class V:
    """operand: kind in local,global,int,null,undef,zero,cexpr,fp,agg,bool,meta"""
    __slots__ = ("k", "v", "ty", "extra")
    def __init__(self, k, v, ty, extra=None): self.k, self.v, self.ty, self.extra = k, v, ty, extra
    def __repr__(self): return "%s:%s" % (self.k, self.v)


def parse_value(p, ty):
    t = p.next()
    if t[0] == "%": return V("local", t[1:].strip('"'), ty)
    if t[0] == "@": return V("global", t[1:].strip('"'), ty)
    if t in ("true", "false"): return V("int", 1 if t == "true" else 0, ty)
    if t == "null": return V("null", None, ty)
    if t in ("undef", "poison"): return V("undef", None, ty)
    if t == "zeroinitializer": return V("zero", None, ty)
    if t.startswith('c"'): return V("str", t[2:-1], ty)
    if t == "getelementptr":
        p.accept("inbounds"); p.expect("(")
        bt = p.type(); p.expect(",")
        args = parse_typed_list(p, ")")
        return V("cexpr", "gep", ty, (bt, args))
    if t in ("ptrtoint", "inttoptr", "bitcast"):
        p.expect("("); t2 = p.type(); v = parse_value(p, t2); p.expect("to"); t3 = p.type(); p.expect(")")
        return V("cexpr", t, ty, (v, t3))
    if t in ("[", "{", "<{"):
        close = {"[": "]", "{": "}", "<{": "}>"}[t]
        els = []
        if not p.accept(close):
            els = parse_typed_list(p, close)
        return V("agg", els, ty)
    if t == "!": return V("meta", None, ty)
    if re.fullmatch(r"-?\d+", t): return V("int", int(t), ty)
    if re.fullmatch(r"0x[0-9A-Fa-f]+", t) or re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?", t): return V("fp", t, ty)
    if t == "sub" or t == "add":
        while p.peek() in ("nuw", "nsw"): p.next()
        p.expect("("); a = parse_typed_list(p, ")"); return V("cexpr", t, ty, a)
    raise IRError("value? %s in %s" % (t, " ".join(p.t)))


def parse_typed_list(p, close):
    out = []
    while True:
        p.accept("inrange")
        ty = p.type(); attrs = skip_param_attrs(p)
        out.append(parse_value(p, ty))
        if p.accept(close): break
        p.expect(",")
    return out


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "x", "dbg", "raw", "flags")
    def __init__(self, op, dst=None, ty=None, a=None, x=None, dbg=None, raw=None, flags=()):
        self.op, self.dst, self.ty, self.a, self.x, self.dbg, self.raw, self.flags = op, dst, ty, a or [], x, dbg, raw, flags
    def __repr__(self): return self.raw or self.op


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "addrspacecast"}
CCONV = {"fastcc", "ccc", "coldcc", "tail", "musttail", "notail"}
DBG = re.compile(r", !dbg !(\d+)")
META_TAIL = re.compile(r", ![a-zA-Z_.]+ !\d+")


def parse_instr(line):
    dbg = None
    m = DBG.search(line)
    if m: dbg = int(m.group(1))
    s = META_TAIL.sub("", line).strip()
    raw = s
    dst = None
    m = re.match(r'%("[^"]*"|[-\w.$]+) = ', s)
    if m:
        dst = m.group(1).strip('"'); s = s[m.end():]
    p = P(tokenize(s))
    op = p.next()
    if op in ("tail", "musttail", "notail"): op = p.next()
    I = lambda **k: Instr(op, dst=dst, dbg=dbg, raw=raw, **k)
    if op == "ret":
        ty = p.type()
        if isinstance(ty, VoidTy): return I(ty=ty)
        return I(ty=ty, a=[parse_value(p, ty)])
    if op == "br":
        if p.accept("label"): return I(x=[p.next()[1:].strip('"')])
        ty = p.type(); c = parse_value(p, ty); p.expect(","); p.expect("label"); a = p.next()[1:].strip('"')
        p.expect(","); p.expect("label"); b = p.next()[1:].strip('"')
        return I(a=[c], x=[a, b])
    if op == "switch":
        ty = p.type(); c = parse_value(p, ty); p.expect(","); p.expect("label"); d = p.next()[1:].strip('"')
        p.expect("["); cases = []
        while not p.accept("]"):
            t2 = p.type(); v = parse_value(p, t2); p.expect(","); p.expect("label"); cases.append((v.v, p.next()[1:].strip('"')))
        return I(a=[c], x=(d, cases), ty=ty)
    if op == "unreachable": return I()
    if op in BIN:
        fl = []
        while p.peek() in ("nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint"): fl.append(p.next())
        ty = p.type(); a = parse_value(p, ty); p.expect(","); b = parse_value(p, ty)
        return I(ty=ty, a=[a, b], flags=tuple(fl))
    if op == "fneg":
        ty = p.type(); return I(ty=ty, a=[parse_value(p, ty)])
    if op in ("icmp", "fcmp"):
        while p.peek() in ("fast", "nnan", "ninf", "nsz", "samesign"): p.next()
        pred = p.next(); ty = p.type(); a = parse_value(p, ty); p.expect(","); b = parse_value(p, ty)
        return I(ty=ty, a=[a, b], x=pred)
    if op in CAST:
        while p.peek() in ("nneg", "nuw", "nsw"): p.next()
        ty = p.type(); a = parse_value(p, ty); p.expect("to"); t2 = p.type()
        return I(ty=t2, a=[a])
    if op == "select":
        while p.peek() in ("fast", "nnan", "ninf", "nsz"): p.next()
        l = []
        for k in range(3):
            ty = p.type(); l.append(parse_value(p, ty))
            if k < 2: p.expect(",")
        return I(ty=l[1].ty, a=l)
    if op == "phi":
        while p.peek() in ("fast", "nnan", "ninf", "nsz"): p.next()
        ty = p.type(); inc = []
        while True:
            p.expect("["); v = parse_value(p, ty); p.expect(","); inc.append((v, p.next()[1:].strip('"'))); p.expect("]")
            if not p.accept(","): break
        return I(ty=ty, x=inc)
    if op == "alloca":
        p.accept("inalloca"); ty = p.type(); n = None
        if p.accept(","):
            if p.peek() != "align":
                t2 = p.type(); n = parse_value(p, t2)
        return I(ty=ty, x=n)
    if op == "load":
        p.accept("atomic"); p.accept("volatile"); ty = p.type(); p.expect(","); t2 = p.type()
        return I(ty=ty, a=[parse_value(p, t2)])
    if op == "store":
        p.accept("atomic"); p.accept("volatile"); ty = p.type(); v = parse_value(p, ty); p.expect(","); t2 = p.type()
        return I(ty=ty, a=[v, parse_value(p, t2)])
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        bt = p.type(); p.expect(",")
        a = []
        while True:
            ty = p.type(); a.append(parse_value(p, ty))
            if not p.accept(","): break
        return I(ty=bt, a=a)
    if op == "extractvalue":
        ty = p.type(); v = parse_value(p, ty); idx = []
        while p.accept(","): idx.append(int(p.next()))
        return I(ty=ty, a=[v], x=idx)
    if op == "insertvalue":
        ty = p.type(); v = parse_value(p, ty); p.expect(","); t2 = p.type(); w = parse_value(p, t2); idx = []
        while p.accept(","): idx.append(int(p.next()))
        return I(ty=ty, a=[v, w], x=idx)
    if op == "freeze":
        ty = p.type(); return I(ty=ty, a=[parse_value(p, ty)])
    if op in ("call", "invoke"):
        while p.peek() in CCONV or p.peek() in ("fast", "nnan", "ninf", "nsz", "contract", "afn", "reassoc", "arcp"): p.next()
        skip_param_attrs(p)
        ty = p.type()
        callee = parse_value(p, PTR)
        p.expect("("); args = []
        if not p.accept(")"):
            while True:
                t2 = p.type()
                if isinstance(t2, OtherTy) and t2.name == "metadata":
                    # metadata operand: skip to , or )
                    d = 0
                    while True:
                        t = p.peek()
                        if d == 0 and t in (",", ")"): break
                        if t in ("(", "{", "!{"): d += 1
                        if t in (")", "}"): d -= 1
                        p.next()
                    args.append(V("meta", None, t2))
                else:
                    skip_param_attrs(p); args.append(parse_value(p, t2))
                if p.accept(")"): break
                p.expect(",")
        x = None
        if op == "invoke":
            while p.peek() != "to": p.next()
            p.expect("to"); p.expect("label"); x = p.next()[1:].strip('"')
        return I(ty=ty, a=args, x=(callee, x))
    if op == "atomicrmw":
        p.accept("volatile"); sub = p.next(); t2 = p.type(); ptr = parse_value(p, t2); p.expect(","); ty = p.type(); v = parse_value(p, ty)
        return I(ty=ty, a=[ptr, v], x=sub)
    return I(x="UNSUPPORTED")


class Block:
    __slots__ = ("name", "ins")
    def __init__(self, name): self.name = name; self.ins = []
    def succs(self):
        t = self.ins[-1]
        if t.op == "br": return list(dict.fromkeys(t.x))
        if t.op == "switch": return list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
        if t.op == "invoke": return [t.x[1]]
        return []


class Function:
    def __init__(self, mod, name, header, body_lines):
        self.mod, self.name, self.header, self._lines = mod, name, header, body_lines
        self._parsed = False

    def parse(self):
        if self._parsed: return self
        h = META_TAIL.sub("", self.header)
        h2 = re.sub(r" !dbg !\d+", "", h)
        m = re.search(r"@(\"[^\"]*\"|[-\w.$]+)\(", h2)
        pre = h2[:m.start()]
        m2 = re.search(r"!dbg !(\d+)", self.header)
        self.dbg = int(m2.group(1)) if m2 else None
        # return type: last type token(s) of pre
        p = P(tokenize(pre.replace("define", "", 1)))
        while True:
            t = p.peek()
            if t in ("dso_local", "linkonce_odr", "internal", "weak_odr", "private", "hidden", "unnamed_addr", "local_unnamed_addr", "weak", "available_externally", "external") or t in CCONV: p.next()
            else:
                n = p.i; skip_param_attrs(p)
                if p.i == n: break
        self.ret = p.type()
        p = P(tokenize(h2[m.end():]))
        self.params = []  # (name, type, attrs)
        self.vararg = False
        if not p.accept(")"):
            while True:
                if p.accept("..."): self.vararg = True
                else:
                    ty = p.type(); at = skip_param_attrs(p)
                    nm = p.next()[1:].strip('"') if p.peek() and p.peek()[0] == "%" else str(len(self.params))
                    self.params.append((nm, ty, at))
                if p.accept(")"): break
                p.expect(",")
        # blocks
        self.blocks = {}; self.order = []
        nparam_unnamed = sum(1 for n, _, _ in self.params if n.isdigit())
        cur = None
        it = iter(self._lines)
        for line in it:
            s = line.strip()
            if not s or s.startswith(";"): continue
            m = re.match(r'("[^"]*"|[-\w.$]+):', s)
            if m and not s.startswith("%") and (line[0] not in " \t"):
                cur = Block(m.group(1).strip('"')); self.blocks[cur.name] = cur; self.order.append(cur.name); continue
            if cur is None:
                cur = Block(str(nparam_unnamed)); self.blocks[cur.name] = cur; self.order.append(cur.name)
            if "@llvm.dbg." in s: continue
            if s.startswith("#dbg_"): continue
            if re.match(r"switch ", s):
                while "]" not in s:
                    s += " " + next(it).strip()
            cur.ins.append(parse_instr(s))
        self._parsed = True
        self.entry = self.order[0]
        return self

    # ------------------------------------------------------------ CFG helpers
    def cfg(self):
        if hasattr(self, "_cfg"): return self._cfg
        self.parse()
        succ = {b: self.blocks[b].succs() for b in self.order}
        pred = {b: [] for b in self.order}
        for b, ss in succ.items():
            for s in ss: pred[s].append(b)
        # RPO
        seen = set(); post = []
        st = [(self.entry, iter(succ[self.entry]))]; seen.add(self.entry)
        while st:
            b, itr = st[-1]
            for s in itr:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        # dominators
        dom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for q in pred[b]:
                    if q in dom:
                        if new is None: new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while idx[x] > idx[y]: x = dom[x]
                                while idx[y] > idx[x]: y = dom[y]
                            new = x
                if new is not None and dom.get(b) != new:
                    dom[b] = new; changed = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idx and dominates(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x); work.extend(q for q in pred[x] if q in idx)
                elif s in idx and idx[s] <= idx[b]:
                    raise IRError("irreducible CFG in " + self.name)
        self._cfg = dict(succ=succ, pred=pred, rpo=rpo, idx=idx, loops=loops)
        return self._cfg


class Module:
    def __init__(self, path, src):
        self.path, self.src = path, src
        self.funcs = {}; self.types = {}; self.globals = {}; self.decls = set(); self.meta = {}
        with open(path) as f: text = f.read()
        lines = text.split("\n")
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}": j += 1
                hdr = l
                m = re.search(r"@(\"[^\"]*\"|[-\w.$]+)\(", l)
                nm = m.group(1).strip('"')
                self.funcs[nm] = Function(self, nm, hdr, lines[i + 1:j])
                i = j
            elif l.startswith("%"):
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)', l)
                self.types[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("!"):
                m = re.match(r"!(\d+) = (.*)", l)
                if m: self.meta[int(m.group(1))] = m.group(2)
            elif l.startswith("declare"):
                m = re.search(r"@(\"[^\"]*\"|[-\w.$]+)\(", l)
                if m: self.decls.add(m.group(1).strip('"'))
            i += 1
        self._tcache = {}; self._lay = {}

    def struct(self, name):
        if name not in self._tcache:
            s = self.types[name]
            self._tcache[name] = None if s == "opaque" else P(tokenize(s)).type()
        return self._tcache[name]

    def resolve(self, ty):
        while isinstance(ty, NamedTy): ty = self.struct(ty.name)
        return ty

    def size_align(self, ty):
        if isinstance(ty, NamedTy):
            if ty.name not in self._lay: self._lay[ty.name] = self.size_align(self.resolve(ty))
            return self._lay[ty.name]
        if isinstance(ty, IntTy):
            b = (ty.w + 7) // 8; a = 1
            while a < b: a *= 2
            return a, min(a, 16)
        if isinstance(ty, PtrTy): return 8, 8
        if isinstance(ty, FloatTy): return {"float": (4, 4), "double": (8, 8), "x86_fp80": (16, 16)}[ty.k]
        if isinstance(ty, ArrTy):
            s, a = self.size_align(ty.e); return s * ty.n, a
        if isinstance(ty, StructTy):
            off = 0; al = 1
            for e in ty.elems:
                s, a = self.size_align(e)
                if ty.packed: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError("size of %r" % ty)

    def size(self, ty): return self.size_align(ty)[0]

    def field_off(self, ty, i):
        ty = self.resolve(ty); off = 0
        for k, e in enumerate(ty.elems):
            s, a = self.size_align(e)
            if ty.packed: a = 1
            off = (off + a - 1) // a * a
            if k == i: return off, e
            off += s
        raise IRError("field idx")

    # ------------------------------------------------------------ debug info
    def mget(self, mid, key):
        s = self.meta.get(mid, "")
        m = re.search(r"\b%s: (\"(?:[^\"])*\"|!\d+|[-\w.]+)" % key, s)
        if not m: return None
        v = m.group(1)
        if v[0] == '"': return v[1:-1]
        if v[0] == "!": return int(v[1:])
        return v

    def line(self, dbg):
        if dbg is None: return None
        return self.mget(dbg, "line")

    def qualname(self, mid):
        n = self.mget(mid, "name") or ""
        sc = self.mget(mid, "scope")
        if sc is not None and sc in self.meta and not self.meta[sc].startswith(("!DIFile", "distinct !DICompileUnit")):
            q = self.qualname(sc)
            return (q + "::" + n) if q else n
        return n

    def structs(self):
        """qualified name -> metadata id of complete struct/class definitions"""
        if hasattr(self, "_structs"): return self._structs
        r = {}
        for mid, s in self.meta.items():
            if s.startswith(("!DICompositeType(tag: DW_TAG_structure_type", "!DICompositeType(tag: DW_TAG_class_type",
                             "distinct !DICompositeType(tag: DW_TAG_structure_type", "distinct !DICompositeType(tag: DW_TAG_class_type")):
                if "flags: DIFlagFwdDecl" in s or "DIFlagFwdDecl" in s: continue
                nm = self.mget(mid, "name")
                if nm is None: continue
                r.setdefault(self.qualname(mid), mid)
        self._structs = r
        return r

    def members(self, mid):
        """list of (name, offset_bytes, size_bytes, basetype id)"""
        els = self.mget(mid, "elements")
        if els is None: return []
        ids = [int(x) for x in re.findall(r"!(\d+)", self.meta[els])]
        out = []
        for e in ids:
            s = self.meta.get(e, "")
            if s.startswith("!DIDerivedType(tag: DW_TAG_member") and "DIFlagStaticMember" not in s:
                off = int(self.mget(e, "offset") or 0) // 8
                size = self.mget(e, "size")
                out.append((self.mget(e, "name"), off, int(size) // 8 if size else None, self.mget(e, "baseType")))
            elif s.startswith("!DIDerivedType(tag: DW_TAG_inheritance"):
                off = int(self.mget(e, "offset") or 0) // 8
                bt = self.mget(e, "baseType")
                for (n, o, sz, b) in self.members(bt): out.append((n, o + off, sz, b))
        return out


_lock = threading.Lock()


def cache_dir():
    d = os.environ.get("VERIF_CACHE") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build")
    os.makedirs(d, exist_ok=True)
    return d


def headers_hash():
    h = hashlib.sha256()
    inc = os.path.join(REPO, "include")
    for f in sorted(os.listdir(inc)):
        h.update(f.encode()); h.update(open(os.path.join(inc, f), "rb").read())
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".h") or f.endswith(".in"):
            h.update(f.encode()); h.update(open(os.path.join(REPO, "src", f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()


def config_inc():
    d = os.path.join(cache_dir(), "cfg"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "config.h")
    src = os.path.join(REPO, "src", "config.h.in")
    txt = open(src).read() if os.path.exists(src) else ""
    txt = re.sub(r"@[A-Za-z_]*MAJOR@", "0", txt); txt = re.sub(r"@[A-Za-z_]*@", "0", txt)
    txt = re.sub(r"#cmakedefine (\w+).*", r"#define \1 0", txt)
    if not os.path.exists(f) or open(f).read() != txt:
        tmp = f + ".%d.%d" % (os.getpid(), threading.get_ident())
        open(tmp, "w").write(txt); os.replace(tmp, f)
    return d


def compile_tu(name, hh=None):
    """name: basename without .cc.  returns path of the mem2reg'd .ll for the current tree"""
    src = os.path.join(REPO, "src", name + ".cc")
    hh = hh or headers_hash()
    h = hashlib.sha256((hh + name).encode() + open(src, "rb").read()).hexdigest()[:24]
    out = os.path.join(cache_dir(), "ir_%s_%s.ll" % (name, h))
    if os.path.exists(out): return out
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    cmd = [CLANG, "-std=c++14", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-fno-exceptions"] + DEFINES + \
          ["-I" + os.path.join(REPO, "include"), "-I" + config_inc(), "-w", "-S", "-emit-llvm", src, "-o", tmp + "0"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0: raise IRError("clang failed on %s: %s" % (src, r.stderr[-800:]))
    r = subprocess.run([OPT, "-passes=mem2reg", "-S", tmp + "0", "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0: raise IRError("opt failed: " + r.stderr[-400:])
    os.unlink(tmp + "0")
    os.replace(tmp, out)
    return out


class Program:
    """All translation units of the library, loaded lazily."""
    def __init__(self):
        self.hh = headers_hash()
        self.names = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cc"))
        self.mods = {}

    def compile_all(self, names=None):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            return dict(zip(names or self.names, ex.map(lambda n: compile_tu(n, self.hh), names or self.names)))

    def mod(self, name):
        if name not in self.mods:
            self.mods[name] = Module(compile_tu(name, self.hh), name)
            self.mods[name].prog = self
        return self.mods[name]

    def all_mods(self):
        self.compile_all()
        return [self.mod(n) for n in self.names]

    def find(self, sym, prefer=None):
        """function definition by mangled name"""
        order = ([prefer] if prefer else []) + [n for n in self.mods if n != prefer] + [n for n in self.names if n not in self.mods]
        for n in order:
            m = self.mod(n)
            if sym in m.funcs: return m.funcs[sym]
        return None


_dm = {}
def demangle(names):
    todo = [n for n in names if n not in _dm]
    if todo:
        r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(todo) + "\n", capture_output=True, text=True)
        for a, b in zip(todo, r.stdout.split("\n")): _dm[a] = b
    return [_dm[n] for n in names]


def demangle1(n): return demangle([n])[0]
