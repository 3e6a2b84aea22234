"""Printing under contract (P36): every fdump method is executed symbolically on an object that satisfies its parser's contract.

The object is an opaque handle whose fields equal the fields the specification gives an accepted input (the parser's postcondition, proved under the
other properties).  Obligations, for every path: no absent part is touched and no index is out of range; what is printed as `name: value' is the field
of that name, elements of a list are the elements of the field of that name, in order and all of them; every syntax element the specification reads
into a field of its own has been printed when the method returns; nothing printed except white space depends on the indentation; a nested
object is printed only when it is an accepted parser result (and then by its own fdump, proved here under the same contract)."""
import re, time
import z3
import ir, stl, verify, invloop, specrun, contracts, dsl
from sym import *
from specrun import SHandle, SVec, SEl, WVal, SpecRun, wf_handle, ensures_of
from dit import struct_info
from execu import Exec
from loops import loop_line

STK = ("%stack", "")
FMT = re.compile(rb"%[-+ #0]*(\*|\d+)?(?:\.\d+)?(hh|h|ll|l|z|j|t)?([diouxXcsp%])")
WIDTH = {b"": 4, b"hh": 4, b"h": 4, b"l": 8, b"ll": 8, b"z": 8, b"j": 8, b"t": 8}


class PrintExec(Exec):
    """virtual calls on handles: the only virtual function the printers call is fdump"""
    def do_call(self, fn, ins, st):
        callee = ins.x[0]
        if callee.k != "global":
            p = self.val(st, callee)
            if isinstance(p, Ptr) and p.single and p.alts[0][1][0] == "h": p = p.alts[0][1][1]
            if z3.is_expr(p) and z3.is_app(p) and p.decl().name().startswith("mem8_") and p.num_args() == 1 and p.arg(0).decl().name() == "mem8_0":
                self.cur_loc = self.loc(ins) if ins.dbg else self.cur_loc
                args = [self.val(st, a) for a in ins.a if a.k != "meta"]
                if len(args) != 3: raise Unsupported("indirect call")
                self.printer.child(st, None, args)
                return [st]
        return super().do_call(fn, ins, st)


def select_indices(t):
    out = []; seen = set(); work = [t]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).sort() == B64: out.append(x.arg(1))
            work += x.children()
    return out


class TwoProver(Prover):
    """most obligations do not need to know how the object came about: they are tried without the parser's postcondition first"""
    def __init__(self, *a):
        super().__init__(*a); self.light = Prover(*a); self.on = False; self.anyidx = []; self.inst = {}
    def fact(self, t):
        super().fact(t)
        if self.on: self.light.fact(t)
    def instantiate(self, *ts):
        # a fact about every index is used at the indices at hand
        for i in {j.get_id(): j for t in ts for j in select_indices(t)}.values():
            if i.get_id() in self.inst: continue
            self.inst[i.get_id()] = i
            for f in self.anyidx: self.fact(z3.substitute(f, (specrun.ANY, i)))
    def prove(self, pc, goal, timeout=None):
        if self.anyidx: self.instantiate(goal, *pc)
        if self.on:
            r = self.light.prove(pc, goal, 1500)
            if r[0] == "proved": return r
        return super().prove(pc, goal, timeout)
    def feasible(self, conds, timeout=2000):
        if self.on: return self.light.feasible(conds, timeout)
        return super().feasible(conds, timeout)


# printed without regard to how the object came about (its lists are only iterated over)
SIMPLE = {"scaling_list_data"}


class Printer:
    def __init__(self, V, name, deadline=None, timeout=8000):
        self.V, self.name, self.sp = V, name, V.specs[name]
        self.timeout, self.deadline = timeout, deadline
        self.tainted = 0; self.invs = []; self.full = False
        self.unmatched = set(); self.texts = set(); self.names = {}; self.stacks = {(): 0}; self.stackv = [()]

    # ------------------------------------------------------------ set up
    def run(self):
        V, sp = self.V, self.sp
        R = verify.Result(self.name); t0 = time.time(); self.R = R
        pv = TwoProver(self.timeout); self.pv = pv
        if self.deadline: pv.deadline = time.time() + self.deadline
        def body():
            mod, sym = V.symbol(sp.state + "::fdump(", sp.attrs.get("file"))
            R.symbol = sym; R.file = mod.src
            ex = PrintExec(V.prog, pv, mod.src, self.table(mod, sym), stl.models); R.ex = ex
            ex.printer = self; ex.thm = self
            fn = mod.funcs[sym]; fn.parse(); ex.fn, ex.fr_mod = fn, mod
            S = z3.Const("S", B64); p0 = z3.Const("p0", B64)
            pv.fact(z3.ULE(p0, specrun.tot(S))); pv.fact(z3.ULT(specrun.tot(S), bv(1 << 32))); pv.fact(specrun.tot(S) & 7 == 0)
            sargs = {}
            for n, ty, arg in sp.params:
                if ty in ("state", "sref"): h = z3.Const("arg_" + n, B64); pv.fact(h != 0); sargs[n] = SHandle(h, arg)
                elif ty == "opt": sargs[n] = SHandle(z3.Const("arg_" + n, B64), arg)
                elif ty == "vec":
                    e = contracts.cached_ety(ex, arg).e
                    v = Vec(e, z3.Const("arg_%s_len" % n, B64), [z3.Const("arg_%s_a%d" % (n, i), z3.ArraySort(B64, c)) for i, c in enumerate(e.comps())])
                    pv.fact(z3.ULT(v.len, bv(1 << 32))); sargs[n] = SVec(v)
                elif ty == "world":
                    si = struct_info(mod, arg)
                    sargs[n] = WVal(arg, {f: MapV(si.fields[f][1].to, z3.Const("w_%s_has" % f, z3.ArraySort(B32, BOOL)), z3.Const("w_%s_val" % f, z3.ArraySort(B32, B64))) for f in si.order})
                elif ty == "opts": t = z3.Const("arg_" + n, B64); pv.fact(t & bv(0x0101010101) == t); sargs[n] = t
                else: t = z3.Const("arg_" + n, B64 if ty != "bool" else BOOL); sargs[n] = simp(z3.If(t, bv(1), bv(0))) if ty == "bool" else t
                if ty == "uint": pv.fact(z3.ULT(sargs[n], bv(1 << 32)))
            spec = SpecRun(V.specs, V.defs, mod, pv, sp, S, p0, sargs)
            self.spec = spec; R.spec = spec; ex.spec = None; ex.loopctx = [None]
            st = State()
            env0 = {n: sargs[n] for n in sargs}; env0["%pos"] = p0
            for e in spec.requires: pv.fact(spec.assume_require(e, env0))
            for (f, line, desc, g, _w) in spec.ok:
                if self.name not in SIMPLE: pv.fact(f)
            saved = spec.pol; spec.pol = ("assume", T)
            for (g, e, line) in spec.ensures:
                if e.k == "fn" and e.a[0] == "wf_world": continue
                f = spec.bool(e, spec.env); pv.fact(f)
                if any(t.eq(specrun.ANY) for t in select_indices(f)): pv.anyidx.append(f)
            spec.pol = saved
            h = z3.Const("this_object", B64); pv.fact(h != 0); self.h = h; self.si = struct_info(mod, sp.state); self.ex = ex
            for n in spec.fields:
                o, e = spec.si.fields[n]; dc = mk_or(*[g for (nm, g) in spec.dontcare if nm == n]) if any(nm == n for nm, g in spec.dontcare) else F
                try: f = self.link(h, o, e, spec.env[n])
                except Unsupported: continue
                if self.name not in SIMPLE: pv.fact(mk_or(dc, f))
                if isinstance(e, EPtr): wf_handle(spec, spec.env[n].t)
                if isinstance(e, EPtr) and e.to and self.polymorphic(e.to):      # a live object has a vtable
                    t = spec.hread(h, o, e).t; pv.fact(uf("mem8_0", B64, B64)(t) != 0); pv.fact(uf("mem8_0", B64, B64)(spec.env[n].t) != 0)
            cargs = []; self.indent = z3.Const("indent_level", B32)
            for i, (pn, pty, at) in enumerate(fn.params):
                if i == 0: cargs.append(Ptr.mk(("h", h)))
                elif i == 1: cargs.append(Ptr.mk(("r", ex.new_region(st, "outfp", 512))))
                elif i == 2: cargs.append(self.indent)
                elif hasattr(pty, "w"):
                    same = [n for n, ty, a in sp.params if ty in ("uint",)]
                    if pty.w == 32 and same: cargs.append(z3.Extract(31, 0, sargs[same[0]]))
                    else: cargs.append(z3.Const("print_arg_%d" % i, z3.BitVecSort(pty.w)))
                else: raise Unsupported("parameter of fdump")
            self.options = [c for c in cargs[3:]]
            for a in self.options:
                if z3.is_const(a) and a.decl().name().startswith("print_arg") and a.size() == 40: pv.fact(a & bv(0x0101010101, 40) == a)
            st.mem[STK] = bv(0)
            for n in spec.fields: st.mem[("%pr", n)] = F; st.mem[("%cnt", n)] = bv(0)
            ex.loop_invariants = self.loop_inv
            if not pv.feasible(list(st.pc)): raise Unsupported("no accepted input")
            pv.on = True; pv.light.deadline = pv.deadline
            rets = ex.call_fn(fn, cargs, st)
            n = 0
            for s, rv in rets:
                if not pv.feasible(list(s.pc)): continue
                n += 1; self.complete(s)
            R.reach = dict(ok=n)
            if not n: raise Unsupported("no feasible return")
        V.guarded(R, pv, t0, body)
        R.tainted = self.tainted
        return R

    def polymorphic(self, q):
        m = self.ex.fr_mod.structs().get(q)
        return m is not None and self.ex.fr_mod.mget(m, "vtableHolder") is not None

    def link(self, h, o, e, sv):
        sp = self.spec; v = sp.hread(h, o, e)
        if isinstance(e, EScal): return simp(v == sv)
        if isinstance(e, EPtr): return simp(v.t == sv.t)
        if isinstance(e, EVec): return mk_and(simp(v.v.len == sv.v.len), *[simp(a == b) for a, b in zip(v.v.arrs, sv.v.arrs)])
        if isinstance(e, EMap): return mk_and(v.has == sv.has, v.val == sv.val)
        if isinstance(e, EArr): return mk_and(*[self.link(h, o + i * e.e.bytes(), e.e, sp.wide(e.e, sv.v.load(bv(i)))) for i in range(e.n)])
        if isinstance(e, EStruct): return mk_and(*[self.link(h, o + o2, f, sv.d[o2]) for o2, f in e.fields])
        raise Unsupported("link")

    # ------------------------------------------------------------ contracts of the callees
    def table(self, mod, own):
        t = {}
        names = list(dict.fromkeys(list(mod.funcs) + list(mod.decls)))
        for n, d in zip(names, ir.demangle(names)):
            if d.startswith("h265nal::fdump_indent_level("): t[n] = self.k_none
            elif re.match(r"h265nal::indent_level_(incr|decr)\(", d): t[n] = self.k_indent
            elif d.startswith("h265nal::profileTypeToString("): t[n] = self.k_profile
            elif d.startswith("h265nal::NaluChecksum::fdump("): t[n] = self.k_checksum
            elif "::fdump(" in d and "{lambda" not in d and "$_" not in d and "::operator()" not in d and n != own: t[n] = self.k_child(d.split("::fdump(")[0])
        t["fprintf"] = self.k_fprintf
        for n in ("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1Ev", "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED1Ev"): t[n] = self.k_none
        t["_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv"] = self.k_cstr
        return t
    def k_none(self, ex, st, args, ins): return [(st, None)]
    def k_indent(self, ex, st, args, ins): return [(st, uf("indent", B32, B32)(args[0]))]
    def k_cstr(self, ex, st, args, ins):
        rid = ex.new_region(st, "text", 64); self.texts.add(rid)
        return [(st, Ptr.mk(("r", rid)))]
    def k_profile(self, ex, st, args, ins):
        o, e = self.si.fields["profile_type"]
        ex.oblige(st, zx(args[0], 64) == self.spec.hread(self.h, o, e), "print", "the profile named is the stored one")
        if ("%pr", "profile_type") in st.mem: st.mem[("%pr", "profile_type")] = T
        return [(st, None)]
    def k_checksum(self, ex, st, args, ins):
        this = ex.aptr(args[0]); ex.nonnull(st, this, "checksum"); n = simp(args[2])
        q = ex.aptr(args[1])
        if not q.single or q.alts[0][1][0] != "r": raise Unsupported("checksum printed elsewhere")
        size = ex.region_info[q.alts[0][1][1]]["size"]; self.texts.add(q.alts[0][1][1])
        ex.oblige(st, z3.And(z3.ULE(zx(n, 64) + q.alts[0][2].term(), bv(size or 0))), "pre", "the text buffer is as long as announced")
        if ("%pr", "checksum") in st.mem: st.mem[("%pr", "checksum")] = T
        return [(st, None)]

    def k_child(self, q):
        def f(ex, st, args, ins):
            self.child(st, q, args); return [(st, None)]
        return f

    def child(self, st, q, args):
        """the fdump of another object: it must be an accepted parser result"""
        ex, spec = self.ex, self.spec
        this = ex.aptr(args[0])
        for _, b, _ in this.alts:
            if b[0] == "h":
                for n in spec.fields:
                    e = spec.si.fields[n][1]
                    if isinstance(e, EVec) and isinstance(e.e, EPtr):
                        for i in self.indices(b[1]): specrun.wf_touch(spec, spec.env[n].v.arrs[0], i)
        ex.nonnull(st, this, "the nested object exists")
        h = ex.handle(st, this)
        ex.called_contracts.add("fdump of " + (q or "the SEI payload"))
        wf_handle(spec, h)
        # which field is it?
        hit = None
        for n in spec.fields:
            o, e = spec.si.fields[n]
            if isinstance(e, EPtr) and (q is None or e.to == q) and self.same(st, h, spec.hread(self.h, o, e).t): hit = (n, None); break
            if isinstance(e, (EVec,)) and isinstance(e.e, EPtr) and e.e.to == q:
                v = spec.hread(self.h, o, e).v
                for i in self.indices(h):
                    if self.same(st, h, v.arrs[0][i]): hit = (n, i); ex.oblige(st, z3.ULT(i, v.len), "bounds", "index of the nested object"); break
                if hit: break
            if isinstance(e, EVec) and isinstance(e.e, EVec) and isinstance(e.e.e, EPtr) and e.e.e.to == q: hit = (n, True)
        if hit is None: raise Unsupported("nested object is not part of the printed one")
        n, i = hit
        if i is True: self.R.notes = getattr(self.R, "notes", []) or []
        elif i is not None:
            ex.oblige(st, mk_or(i == st.mem[("%cnt", n)], i == 0), "print", "elements of %s are printed in order" % n)
            st.mem[("%cnt", n)] = simp(i + 1)
        st.mem[("%pr", n)] = T
        if len(args) > 3 and q:
            sp2 = specrun.wf_syntax(spec, q)
            for a, (pn, ty, _) in zip(args[3:], [p for p in (sp2.params if sp2 else []) if p[1] == "uint"]):
                self.typed(st, n, i, pn, a)

    def typed(self, st, n, i, pn, a):
        """the NAL unit type a payload is printed with is the one it was parsed with"""
        spec, ex = self.spec, self.ex
        cand = []
        for m in spec.fields:
            o, e = spec.si.fields[m]
            if isinstance(e, EPtr):
                si = struct_info(ex.fr_mod, e.to) if e.to else None
                if si and pn in si.fields: o2, e2 = si.fields[pn]; cand.append(spec.hread(spec.hread(self.h, o, e).t, o2, e2))
            if isinstance(e, EScal) and m in (pn, "fu_type"): cand.append(spec.hread(self.h, o, e))
            if isinstance(e, EVec) and isinstance(e.e, EPtr) and i is not None:
                si = struct_info(ex.fr_mod, e.e.to)
                if si and pn in si.fields: o2, e2 = si.fields[pn]; cand.append(spec.hread(spec.hread(self.h, o, e).v.arrs[0][i], o2, e2))
        cs = [c for c in cand if z3.is_expr(c)]
        # an RTP fragmentation unit has its own type; an aggregation packet one header per unit
        pref = [c for c in cs if self.same(st, zx(a, 64), c)]
        want = pref[0] if pref else (cs[-1] if cs else None)
        if want is None: raise Unsupported("no %s to print with" % pn)
        ex.oblige(st, zx(a, 64) == want, "print", "%s is printed with the type it was parsed with" % n)

    def same(self, st, a, b, light=True):
        a, b = simp(a), simp(b)
        return a.eq(b) or (self.pv.light.prove(st.pc, a == b, 1500) if light else self.pv.prove(st.pc, a == b, 2000))[0] == "proved"

    def indices(self, t): return select_indices(t)

    # ------------------------------------------------------------ fprintf
    def fmt(self, ex, p):
        p = ex.aptr(p)
        if not p.single or p.alts[0][1][0] != "g": raise Unsupported("format is not a literal")
        g = ex.fr_mod.globals.get(p.alts[0][1][1])
        return bytes(ex_str(ex, p))

    def stack(self, st):
        v = simp(st.mem[STK])
        if not isc(v): raise Unsupported("nesting of the text depends on the path")
        return self.stackv[cval(v)]
    def setstack(self, st, s):
        if s not in self.stacks: self.stacks[s] = len(self.stackv); self.stackv.append(s)
        st.mem[STK] = bv(self.stacks[s])

    def k_fprintf(self, ex, st, args, ins):
        fmt = self.fmt(ex, args[1]); va = list(args[2:])
        toks = []; pos = 0
        for m in FMT.finditer(fmt):
            if m.group(3) == b"%": continue
            toks.append(("t", fmt[pos:m.start()])); pos = m.end()
            if m.group(1) == b"*": raise Unsupported("width argument")
            if not va: ex.oblige(st, F, "print", "a conversion without an argument"); return [(st, bv(0, 32))]
            a = va.pop(0); toks.append(("v", m.group(3), m.group(2) or b"", a))
        toks.append(("t", fmt[pos:]))
        toks = [("t", self.literal(ex, st, tk[3])) if tk[0] == "v" and tk[1] == b"s" else tk for tk in toks]
        cur = ""; uuid = []
        for tk in toks:
            if tk[0] == "t" and tk[1] is None: cur = ""
            elif tk[0] == "t":
                for x in re.findall(r"[{}]|[^{}]+", tk[1].decode("latin1")):
                    if x == "{":
                        nm = clean(cur); s = self.stack(st)
                        if not nm and s: nm = s[-1]
                        self.setstack(st, s + (nm,)); cur = ""
                        if ("%pr", nm) in st.mem: st.mem[("%pr", nm)] = T
                    elif x == "}":
                        s = self.stack(st)
                        if not s: ex.oblige(st, F, "print", "a closing bracket too many"); return [(st, bv(0, 32))]
                        self.setstack(st, s[:-1]); cur = ""
                    else: cur += x
            else:
                a = tk[3]
                if not z3.is_expr(a): raise Unsupported("printed value")
                if z3.is_bool(a): a = z3.If(a, bv(1, 32), bv(0, 32))
                ex.oblige(st, z3.BoolVal(a.size() == 8 * WIDTH[tk[2]]), "print", "conversion and argument have the same size")
                if self.mentions(a): ex.oblige(st, F, "print", "a printed value depends on the indentation")
                if cur.endswith("0x"): cur = cur[:-2]
                if cur.rstrip().endswith(":"):
                    nm = clean(cur); cur = ""
                    if nm == "uuid_iso_iec_11578": uuid = [a]; continue
                elif cur.endswith("["): cur += "#"; continue            # index in the name
                elif cur == "-" and uuid: uuid.append(a); cur = ""; continue
                elif not cur.strip() or cur.strip() == ",": nm = self.stack(st)[-1] if self.stack(st) else ""
                else: raise Unsupported("text %r" % cur)
                self.value(st, nm, a)
        if uuid:
            want = []
            for n in ("uuid_iso_iec_11578_1", "uuid_iso_iec_11578_2"):
                o, e = self.spec.si.fields[n]; want.append(self.spec.hread(self.h, o, e)); st.mem[("%pr", n)] = T
            x = z3.Concat(*want)
            parts = [z3.Extract(127, 96, x), z3.Extract(95, 80, x), z3.Extract(79, 64, x), z3.Extract(63, 48, x), z3.Extract(47, 0, x)]
            good = len(uuid) == 5 and all(v.size() == 64 for v in uuid)
            ex.oblige(st, mk_and(*[v == zx(p, 64) for v, p in zip(uuid, parts)]) if good else F, "print", "the UUID printed is the stored one, in its 4-2-2-2-6 form")
        return [(st, bv(0, 32))]

    def literal(self, ex, st, p):
        """the text a %s conversion inserts: a literal, or (std::string::c_str, the checksum buffer) text without meaning here"""
        if not isinstance(p, Ptr): raise Unsupported("argument of %s")
        p = ex.aptr(p)
        if not p.single: raise Unsupported("argument of %s is one of several")
        if p.alts[0][1][0] == "g": return bytes(ex_str(ex, p))
        if p.alts[0][1][0] == "r" and p.alts[0][1][1] in self.texts: return None
        raise Unsupported("argument of %s is not a literal")

    def mentions(self, t):
        seen = set(); work = [t]
        while work:
            x = work.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.eq(self.indent): return True
            if z3.is_app(x): work += x.children()
        return False

    def value(self, st, nm, a):
        ex, spec = self.ex, self.spec
        if nm not in spec.si.fields and nm + "s" in spec.si.fields: nm += "s"
        if nm not in spec.si.fields: self.unmatched.add(nm); return
        o, e = spec.si.fields[nm]
        if nm not in spec.fields: self.unmatched.add(nm); return
        w = a.size()
        if isinstance(e, EScal):
            v = uf("mem%d_%d" % (e.size, o), B64, z3.BitVecSort(8 * e.size))(self.h)
            v = (sx if e.signed else zx)(v, w) if 8 * e.size <= w else None
            if v is None: ex.oblige(st, F, "print", "%s is printed in full" % nm); return
            ex.oblige(st, a == v, "print", "the value printed as %s is the stored one" % nm)
            st.mem[("%pr", nm)] = T; return
        if isinstance(e, (EVec, EArr)):
            depth = 0; x = e
            while isinstance(x, (EVec, EArr)): x = x.e; depth += 1
            if not isinstance(x, EScal): raise Unsupported("printed element of " + nm)
            top = spec.hread(self.h, o, e).v
            ix = []
            for i in self.indices(a):
                if not any(i.eq(j) for j in ix): ix.append(i)
            def term(v, ee, idx):
                for d, i in enumerate(idx):
                    el = v.load(i)
                    ee = ee.e
                    if d == len(idx) - 1: return el
                    v = el
            import itertools
            cands = list(itertools.permutations(ix, depth)) or []
            if isinstance(e, EArr) and not cands: cands = [(bv(k),) for k in range(e.n)] if depth == 1 else []
            good = None
            for light, idx in [(l, i) for l in (True, False) for i in cands]:
                try: t = term(top, e, idx)
                except Exception: continue
                if not z3.is_expr(t): continue
                if z3.is_bool(t): t = z3.If(t, bv(1, 8), bv(0, 8))
                t = (sx if x.signed else zx)(t, w) if t.size() <= w else t
                if t.size() != w: continue
                if self.same(st, a, t, light): good = idx; break
            if good is None: ex.oblige(st, F, "print", "the value printed under %s is one of its elements" % nm); return
            v = top
            for d, i in enumerate(good):
                ex.oblige(st, z3.ULT(i, v.len), "print", "the value printed under %s is one of its elements" % nm)
                if d < depth - 1: v = v.load(i)
            if depth == 1:
                ex.oblige(st, mk_or(good[0] == st.mem[("%cnt", nm)], good[0] == 0), "print", "elements of %s are printed in order" % nm)
                st.mem[("%cnt", nm)] = simp(good[0] + 1)
            st.mem[("%pr", nm)] = T; return
        self.unmatched.add(nm)

    # ------------------------------------------------------------ loops and the end
    def loop_inv(self, fn, header, st):
        consts = {}
        for n in self.spec.fields:
            o, e = self.spec.si.fields[n]
            if isinstance(e, EVec): consts["len(%s)" % n] = self.spec.hread(self.h, o, e).v.len
            elif isinstance(e, EScal) and re.match(r"num|.*length|.*minus1|.*count", n): consts[n] = self.spec.hread(self.h, o, e)
        # lengths of inner vectors in scope
        for k, v in list(st.env.items()):
            if isinstance(v, Ptr) and v.single and v.alts[0][1][0] == "d":
                try: w = self.ex.get_vec(st, v.alts[0][1][1]); consts["inner %s" % k] = w.len
                except Exception: pass
        return PInv(consts=consts)

    def complete(self, st):
        ex, spec = self.ex, self.spec
        ex.cur_loc = "%s (return)" % self.name
        if self.stack(st) != (): ex.oblige(st, F, "print", "brackets are balanced")
        for c in st.pc:
            if self.mentions(c): ex.oblige(st, F, "print", "what is printed does not depend on the indentation"); break
        done = set()
        for r in spec.root.reads:
            n = r.name
            if n in spec.fields and isinstance(spec.si.fields[n][1], EScal) and (n, r.guard.get_id()) not in done:
                done.add((n, r.guard.get_id()))
                ex.oblige(st, mk_or(mk_not(r.guard), st.mem[("%pr", n)]), "print", "%s is printed when it was read" % n)
        for n in spec.fields:
            o, e = spec.si.fields[n]; asked = self.asked(n)
            if isinstance(e, EPtr):
                ex.oblige(st, mk_or(mk_not(asked), spec.hread(self.h, o, e).t == 0, st.mem[("%pr", n)]), "print", "%s is printed when present" % n)
            elif isinstance(e, EVec) and n in self.readvecs():
                v = spec.hread(self.h, o, e).v; g = mk_or(v.len == 0, *[mk_not(x) for x in [mk_or(*self.readvecs()[n])]])
                if isinstance(e.e, EVec) and isinstance(e.e.e, EPtr): continue        # an absent unit is not printed (bounded check)
                if isinstance(e.e, (EVec, EArr)): ex.oblige(st, mk_or(g, st.mem[("%pr", n)]), "print", "%s is printed unless empty" % n)
                else: ex.oblige(st, mk_or(g, st.mem[("%cnt", n)] == v.len), "print", "all elements of %s are printed" % n)
            if n in OPTION and self.name == "nal_unit" and ("%pr", n) in st.mem and isinstance(e, EScal):
                ex.oblige(st, st.mem[("%pr", n)] == asked, "print", "%s is printed exactly when asked for" % n)

    def asked(self, n):
        """the parsing options select what is printed about the unit itself"""
        if self.name != "nal_unit" or n not in OPTION: return T
        w = [a for a in self.options if z3.is_expr(a) and a.size() == 40]
        return z3.Extract(OPTION[n], OPTION[n], w[0]) == 1 if w else T

    def readvecs(self):
        """vector fields whose elements are read from the stream -> under which conditions"""
        if not hasattr(self, "_rv"):
            self._rv = {}
            def walk(L, g):
                for r in L.reads:
                    if r.name: self._rv.setdefault(r.name.split("[")[0], []).append(g if g is not None else r.guard)
                for M in L.loops: walk(M, M.guard if g is None else g)
            walk(self.spec.root, None)
        return self._rv


OPTION = dict(offset=0, length=8, parsed_length=16, checksum=24)


class PInv(invloop.Inv):
    """iterators stay inside their vector; counters advance together"""
    def pool(self, entry, scal):
        out = []; num = invloop.num
        val = lambda k, s: num(k.get(s))
        for i, k in enumerate(scal):
            x0 = val(k, entry); v = k.get(entry)
            if isinstance(v, Ptr):
                try: ln = self.ex.get_vec(entry, v.alts[0][1][1]).len
                except Exception: ln = None
                if ln is not None: out.append(("%r <= size" % k, lambda s, k=k, c=ln: z3.ULE(val(k, s), c)))
            elif k.kind == "env":
                for n, c in self.consts.items(): out.append(("%r <= %s" % (k, n), lambda s, k=k, c=c: z3.ULE(val(k, s), c)))
            for q in scal:
                if q.kind == "mem" and q.k[0] == "%cnt" and k.kind == "env" and not isinstance(v, Ptr) and "len(%s)" % q.k[1] in self.consts:
                    ln = self.consts["len(%s)" % q.k[1]]
                    for n, c in [("0", x0)] + [(n, c) for n, c in self.consts.items() if not n.startswith(("len(", "inner "))]:
                        out.append(("%r <= %s or all of %s printed" % (k, n, q.k[1]), lambda s, k=k, q=q, c=c, ln=ln: mk_or(z3.ULE(val(k, s), c), ln == 0, val(q, s) == ln)))
                if q.kind == "mem" and q.k[0] == "%cnt" and q is not k:
                    out.append(("%r is %r once started" % (q, k), lambda s, k=k, q=q, x0=x0: mk_or(val(k, s) == x0, val(q, s) == val(k, s))))
            for j, q in enumerate(scal):
                if j <= i: continue
                y0 = val(q, entry)
                out.append(("%r-%r0 = %r-%r0" % (k, k, q, q), lambda s, k=k, q=q, x0=x0, y0=y0: val(k, s) - x0 == val(q, s) - y0))
        return out


def lhs(s): return s.a[0][0][1]


def clean(s):
    return re.sub(r"\[.*?\]", "", s).strip().rstrip(":").strip()


def ex_str(ex, p):
    """bytes of the literal p points to"""
    out = []; b, o = p.alts[0][1], p.alts[0][2]
    if o.ts: raise Unsupported("format is not a literal")
    st = State()
    for i in range(400):
        v = simp(ex.read_global(st, b[1], Off(o.c + i), 1, ir.intty(8)))
        if not isc(v): raise Unsupported("format is not a literal")
        if cval(v) == 0: return out
        out.append(cval(v))
    raise Unsupported("format too long")


FIRM = re.compile(r"the value printed as|object pointer is not null .the nested|.* is printed when it was read|brackets are balanced|conversion and argument|a conversion without|what is printed does not depend|.* is printed exactly when|a closing bracket")


def task(names, kind=None, tier="quick", seed=1):
    """printing theorems of the named structures; a concrete failing input is looked for by the exploration tasks of P36"""
    V = verify.Verifier()
    out = dict(violations=[], undecided=[], obligations=0, discharged=0, cases=0, distinct=0, tq=0, modelled=set(), called=set(), functions=[])
    for n in names:
        P = Printer(V, n, 400 if tier == "quick" else 700); R = P.run()
        done = sum(1 for o in R.obls if o.status == "proved")
        out["obligations"] += len(R.obls); out["discharged"] += done; out["tq"] += R.tq
        out["modelled"] |= set(R.modelled); out["called"] |= set(R.called)
        und = R.undecided or (None if R.obls else "no obligations")
        st = "undecided" if und else "failed" if R.failed else "undecided" if R.unknown else "proved"
        out["functions"].append(dict(name="printing of " + n, status=st, obligations=len(R.obls), discharged=done, symbolic_cases=(R.reach or {}).get("ok", 0), queries=R.nq, seconds=round(R.time, 1)))
        if und: out["undecided"].append("printing of %s: %s" % (n, und))
        elif R.failed:
            firm = [x for x in R.failed if not P.tainted or FIRM.match(x.desc)]       # these do not depend on what a loop counted
            o = (firm or R.failed)[0]; what = "printing of %s: %s" % (n, o.desc)
            if not firm: out["undecided"].append("obligation not discharged after a loop abstraction: " + what)
            else: out["violations"].append(dict(what=what, loc=str(o.loc), failed=[dict(kind=x.kind, desc=x.desc, loc=str(x.loc)) for x in R.failed[:10]], soft=0))
        elif R.unknown: out["undecided"].append("printing of %s: %d obligations undecided, first: %s" % (n, len(R.unknown), R.unknown[0].desc))
    out["modelled"] = sorted(out["modelled"]); out["called"] = sorted(out["called"])
    return out


if __name__ == "__main__":
    import sys, os
    V = verify.Verifier() if hasattr(verify, "Verifier") else None
    for n in sys.argv[1:]:
        t = time.time(); P = Printer(V, n, float(os.environ.get("VC_DEADLINE", "200"))); R = P.run()
        c = {}
        for o in R.obls: c[o.status] = c.get(o.status, 0) + 1
        print(n, c, R.undecided or "", "tainted=%d" % P.tainted, "unmatched=%s" % sorted(P.unmatched), "%.1fs" % (time.time() - t))
        for o in R.obls:
            if o.status != "proved": print("   ", o.status, o.kind, o.desc, o.loc)
