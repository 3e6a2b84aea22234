"""Per-function verification: code (LLVM IR of the current tree) against its specification."""
import sys, time, z3, re, os
import ir, stl, dsl, dit
from sym import *
from execu import Exec
import specrun, contracts
from specrun import SpecRun, SHandle, SVec, WVal
from specrun import ubool
from dit import struct_info


class Result:
    def __init__(self, name): self.name = name; self.obls = []; self.undecided = None; self.inlined = set(); self.modelled = set(); self.called = set(); self.loops = []; self.time = 0; self.tq = 0; self.nq = 0; self.notes = []; self.reach = None
    @property
    def failed(self): return [o for o in self.obls if o.status == "failed"]
    @property
    def unknown(self): return [o for o in self.obls if o.status == "unknown"]
    @property
    def status(self):
        if self.failed: return "failed"
        if self.undecided or self.unknown: return "undecided"
        return "proved" if self.obls else "undecided"


def local(d):
    """a lambda or a member of a local class: never the function itself"""
    return "::$_" in d or "{lambda" in d or "::'lambda" in d


class Verifier:
    def __init__(self, prog=None):
        self.prog = prog or ir.Program()
        self.specs, self.defs = dsl.load_specs()
        self.symcache = {}

    def match(self, m, names, prefix):
        out = []
        for d, n in zip(ir.demangle(names), names):
            if local(d): continue
            if d.startswith(prefix) or (" " + prefix in d and "(" not in d.split(" " + prefix)[0]): out.append(n)
        return out

    def symbol(self, prefix, hint=None):
        """(module, mangled symbol) of the definition whose demangled name starts with prefix"""
        if prefix in self.symcache: return self.symcache[prefix]
        mods = [self.prog.mod(hint)] if hint in self.prog.names else []
        hits = []
        for ms in (mods, None):
            for m in (ms if ms is not None else self.prog.all_mods()):
                hits += [(m, n) for n in self.match(m, list(m.funcs), prefix)]
            if hits: break
        own = [(m, n) for m, n in hits if "linkonce" not in m.funcs[n].header] or hits
        if not own: raise Unsupported("function not found: " + prefix)
        self.symcache[prefix] = own[0]
        return own[0]

    def contract_table(self, mod):
        t = dict(contracts.BITBUFFER)
        names = list(mod.funcs) + list(mod.decls)
        names = [n for n in names if "h265nal" in n and ("Parser" in n or "h265nal" in n)]
        dms = ir.demangle(names)
        for sp in self.specs.values():
            if sp.cpp and sp.kind == "syntax":
                for d, n in zip(dms, names):
                    if local(d): continue
                    if d.startswith(sp.cpp): t[n] = contracts.c_spec(sp, None)
                    elif "(h265nal::BitBuffer*" in sp.cpp and d.startswith(sp.cpp[:sp.cpp.index("(")] + "(unsigned char const*, unsigned long"): t[n] = contracts.c_entry(sp)
        return t

    def verify_syntax(self, name, deadline=None, timeout=8000):
        sp = self.specs[name]
        R = Result(name); t0 = time.time()
        pv = Prover(timeout)
        if deadline: pv.deadline = time.time() + deadline
        self.last = R
        try:
            mod, sym = self.symbol(sp.cpp, sp.attrs.get("file"))
            R.symbol = sym; R.file = mod.src
            table = self.contract_table(mod); table.pop(sym, None)
            ex = Exec(self.prog, pv, mod.src, table, stl.models)
            R.ex = ex
            fn = mod.funcs[sym]; fn.parse()
            ex.fn, ex.fr_mod = fn, mod
            S = z3.Const("S", B64); p0 = z3.Const("p0", B64)
            pv.fact(z3.ULE(p0, specrun.tot(S))); pv.fact(z3.ULT(specrun.tot(S), bv(1 << 32))); pv.fact(specrun.tot(S) & 7 == 0)
            st = State()
            sret_rid = ex.new_region(st, "sret", 16)
            bb_rid = ex.new_region(st, "bitbuffer", 32)
            st.mem[(bb_rid, 0)] = BitBuf(S, p0)
            cargs = [Ptr.mk(("r", sret_rid)), Ptr.mk(("r", bb_rid))]
            sargs = {}
            meth = 1 if sp.attrs.get("method") else 0
            if meth: cargs.insert(1, Ptr.mk(("r", ex.new_region(st, "this", 8))))
            for (n, ty, arg), (pn, pty, at) in zip(sp.params, fn.params[2 + meth:]):
                if ty == "state":
                    h = z3.Const("arg_" + n, B64); cargs.append(Ptr.mk(("h", h))); sargs[n] = SHandle(h, arg)
                elif ty == "vec":
                    e = contracts.cached_ety(ex, arg).e
                    v = Vec(e, z3.Const("arg_%s_len" % n, B64), [z3.Const("arg_%s_a%d" % (n, i), z3.ArraySort(B64, c)) for i, c in enumerate(e.comps())])
                    pv.fact(z3.ULT(v.len, bv(1 << 32)))
                    rid = ex.new_region(st, "vec_" + n, 24); st.mem[(rid, 0)] = v
                    cargs.append(Ptr.mk(("r", rid))); sargs[n] = SVec(v)
                elif ty == "world":
                    rid = ex.new_region(st, "world_" + n, 1 << 20); p = Ptr.mk(("r", rid)); cargs.append(p)
                    si = struct_info(mod, arg)
                    w = WVal(arg, {f: MapV(si.fields[f][1].to, z3.Const("w_%s_has" % f, z3.ArraySort(B32, BOOL)), z3.Const("w_%s_val" % f, z3.ArraySort(B32, B64))) for f in si.order})
                    contracts.write_world(ex, st, p, w); sargs[n] = w; R.world = (p, arg)
                elif ty == "opts":
                    t = z3.Const("arg_" + n, z3.BitVecSort(pty.w)); pv.fact(t & bv(0x0101010101, pty.w) == t)
                    cargs.append(t); sargs[n] = zx(t, 64)
                elif ty == "bool":
                    b = z3.Const("arg_" + n, BOOL); cargs.append(b); sargs[n] = simp(z3.If(b, bv(1), bv(0)))
                else:
                    w = pty.w if hasattr(pty, "w") else 64
                    t = z3.Const("arg_" + n, z3.BitVecSort(w))
                    cargs.append(t); sargs[n] = sx(t, 64) if ty == "sint" else zx(t, 64)
            if len(cargs) != len(fn.params): raise Unsupported("signature of %s changed" % sp.cpp)
            spec = SpecRun(self.specs, self.defs, mod, pv, sp, S, p0, sargs)
            R.spec = spec
            ex.array_locals = "'local'" in repr(sp.body)
            ex.spec = spec; ex.loopctx = [spec.root]
            # preconditions
            env0 = {n: sargs[n] for n in sargs}; env0["%pos"] = p0
            for e in spec.requires:
                c = spec.assume_require(e, env0); st.assume(c)
            # field map: the state object is the region whose constructor runs first for the return type
            ex.state_qual = sp.state
            self.hook_fieldmap(ex, spec)
            rets = ex.call_fn(fn, cargs, st)
            R.reach = self.compare(ex, spec, rets, sret_rid, bb_rid, getattr(R, 'world', None), p0)
        except Unsupported as e: R.undecided = "unsupported: " + str(e)
        except Misaligned as e: R.undecided = "loop not matched: " + str(e)
        except ir.IRError as e: R.undecided = "ir: " + str(e)
        except z3.Z3Exception as e: R.undecided = "solver: " + str(e)[:200]
        except RecursionError: R.undecided = "recursion limit"
        except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get("VC_DEBUG"): raise
            R.undecided = "internal: %s %s" % (type(e).__name__, str(e)[:200])
        if "ex" in R.__dict__:
            ex = R.ex
            R.obls = ex.obls; R.inlined = ex.inlined; R.modelled = ex.modelled; R.called = ex.called_contracts; R.loops = ex.matched_loops; R.notes = ex.notes
        R.time = time.time() - t0; R.tq = pv.tq; R.nq = pv.nq
        return R

    def verify(self, name, deadline=None):
        return self.verify_function(name, deadline) if self.specs[name].kind == "function" else self.verify_syntax(name, deadline)

    def verify_function(self, name, deadline=None, timeout=8000):
        """function of kind 'function': result (or *out) equals the specification's result"""
        sp = self.specs[name]
        R = Result(name); t0 = time.time(); self.last = R
        pv = Prover(timeout)
        if deadline: pv.deadline = time.time() + deadline
        def body():
            mod, sym = self.symbol(sp.cpp, sp.attrs.get("file"))
            R.symbol = sym; R.file = mod.src
            table = self.contract_table(mod); table.pop(sym, None)
            ex = Exec(self.prog, pv, mod.src, table, stl.models); R.ex = ex
            fn = mod.funcs[sym]; fn.parse(); ex.fn, ex.fr_mod = fn, mod
            st = State(); cargs = []; sargs = {}
            for (n, ty, arg), (pn, pty, at) in zip(sp.params, fn.params):
                if ty == "state":
                    h = z3.Const("arg_" + n, B64); pv.fact(h != 0); cargs.append(Ptr.mk(("h", h))); sargs[n] = SHandle(h, arg)
                elif ty == "sptr":
                    h = z3.Const("arg_" + n, B64); pv.fact(h != 0); rid = ex.new_region(st, "sp_" + n, 16)
                    st.mem[(rid, 0)] = Ptr.mk(("h", h)); st.mem[(rid, 8)] = NULL
                    cargs.append(Ptr.mk(("r", rid))); sargs[n] = SHandle(h, arg)
                elif ty == "bool":
                    b = z3.Const("arg_" + n, BOOL); cargs.append(b); sargs[n] = simp(z3.If(b, bv(1), bv(0)))
                else:
                    t = z3.Const("arg_" + n, z3.BitVecSort(pty.w)); cargs.append(t); sargs[n] = sx(t, 64) if ty == "sint" else zx(t, 64)
            outs = [x.split(":")[0] for x in sp.attrs.get("outs", "").split()]; orids = []
            for x in outs:
                orids.append(ex.new_region(st, "out_" + x, 8)); cargs.append(Ptr.mk(("r", orids[-1])))
            if len(cargs) != len(fn.params): raise Unsupported("signature of %s changed" % sp.cpp)
            S = z3.Const("S", B64)
            spec = SpecRun(self.specs, self.defs, mod, pv, sp, S, bv(0), sargs); R.spec = spec
            ex.array_locals = False
            ex.spec = spec; ex.loopctx = [spec.root]; ex.state_qual = None
            for e in spec.requires: st.assume(spec.assume_require(e, dict(sargs)))
            for (f, line, desc, g, _w) in spec.ok: st.assume(f)          # inputs outside the domain of the function
            rets = ex.call_fn(fn, cargs, st)
            n = 0
            for (s, rv) in rets:
                n += 1
                exp = spec.env["result"]
                if z3.is_bool(exp): exp = ubool(exp)
                for x, rid in zip(outs, orids):
                    ov = s.mem.get((rid, 0))
                    if ov is None: raise Unsupported("output not written")
                    self.post(ex, s, sx(ov, 64) == spec.env[x], "output %s is the specified value" % x, info="result")
                if z3.is_bool(rv): v = ubool(rv)
                else: v = sx(rv, 64) if sp.attrs.get("ret") == "sint" else zx(rv, 64)
                self.post(ex, s, v == exp, "result is the specified value", info="result")
            R.reach = dict(ok=n)
        self.guarded(R, pv, t0, body)
        return R

    def guarded(self, R, pv, t0, body):
        try: body()
        except Unsupported as e: R.undecided = "unsupported: " + str(e)
        except Misaligned as e: R.undecided = "loop not matched: " + str(e)
        except ir.IRError as e: R.undecided = "ir: " + str(e)
        except z3.Z3Exception as e: R.undecided = "solver: " + str(e)[:200]
        except RecursionError: R.undecided = "recursion limit"
        except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get("VC_DEBUG"): raise
            R.undecided = "internal: %s %s" % (type(e).__name__, str(e)[:200])
        if "ex" in R.__dict__:
            ex = R.ex
            R.obls = ex.obls; R.inlined = ex.inlined; R.modelled = ex.modelled; R.called = ex.called_contracts; R.loops = ex.matched_loops; R.notes = ex.notes
        R.time = time.time() - t0; R.tq = pv.tq; R.nq = pv.nq

    def hook_fieldmap(self, ex, spec):
        si = spec.si
        size = int(spec.mod.mget(si.mid, "size")) // 8
        orig = ex.new_region
        state = {"rid": None}
        def new_region(st, tag, sz=None):
            rid = orig(st, tag, sz)
            if sz == size and tag in ("new", "shared") and state["rid"] is None:
                state["rid"] = rid
                for n in spec.fields:
                    o, e = si.fields[n]
                    if not isinstance(e, (EStruct, EArr)):
                        ex.fieldmap[(rid, o)] = n; ex.fieldmap_names.add(n)
            return rid
        ex.new_region = new_region

    # ---------------------------------------------------------------- postcondition
    def compare(self, ex, spec, rets, sret_rid, bb_rid, world=None, p0=None):
        pv = ex.pv
        nnull = nok = 0
        okf = spec.ok_formula()
        for (st, rv) in rets:
            p = st.mem.get((sret_rid, 0))
            if p is None: raise Unsupported("no return value")
            for c, b, o in p.alts:
                s = st.copy()
                if not s.assume(c): continue
                if b == NULLB:
                    nnull += 1
                    # without Seek this is the class invariant and history constraint of BitBuffer (proved by vc/bytes.py)
                    if "noend" not in spec.sp.attrs and ex.used_seek:
                        q = s.mem[(bb_rid, 0)].pos
                        self.post(ex, s, z3.And(z3.ULE(p0, q), z3.ULE(q, specrun.tot(spec.S))), "the stream position stays inside the buffer (rejection)", info="endrange")
                    self.post(ex, s, mk_not(okf), "null is returned only for input the specification rejects", info="reject")
                    if world:
                        self.world_post(ex, spec, s, world, True)
                        for (g, e, line) in spec.ensures:
                            if e.k == "fn" and e.a[0] == "wf_world":
                                self.post(ex, s, spec.bool(e, {e.a[1][0].a[0]: contracts.read_world(ex, s, *world)}), "stored sets stay well formed [spec line %d]" % line, info="ensure")
                    continue
                if b[0] == "h": raise Unsupported("returns a foreign object")
                nok += 1
                for (f, line, desc, g, _w) in spec.ok:
                    self.post(ex, s, f, "accepted only if %s [spec line %d]" % (desc, line), info="accept")
                for n in spec.fields:
                    self.field(ex, spec, s, b[1], n)
                if world: self.world_post(ex, spec, s, world, False)
                if "noend" not in spec.sp.attrs:
                    bbv = s.mem[(bb_rid, 0)]
                    self.post(ex, s, bbv.pos == spec.pos, "stream position after the structure", info="end")
                    if ex.used_seek: self.post(ex, s, z3.And(z3.ULE(p0, spec.pos), z3.ULE(spec.pos, specrun.tot(spec.S))), "the stream position stays inside the buffer", info="endrange")
                for (g, e, line) in spec.ensures:
                    self.post(ex, s, spec.bool(e, spec.env), "exported fact [spec line %d]" % line, info="ensure")
        return dict(null=nnull, ok=nok)

    def world_post(self, ex, spec, st, world, rejected):
        got = contracts.read_world(ex, st, *world)
        exp = spec.env[spec.world]
        if rejected:
            for (f, line, desc, g, w) in reversed(spec.ok):
                if w is None: return
                exp = spec.merge(f, exp, w)
        for n in exp.d:
            a, b = got.d[n], exp.d[n]
            self.post(ex, st, simp(mk_and(a.has == b.has, a.val == b.val)), "stored %s sets are as specified%s" % (n, " (rejected input)" if rejected else ""), info="world:" + n)

    def post(self, ex, st, goal, desc, info=None):
        g = simp(goal)
        t0 = time.time()
        r, m = ex.pv.prove(st.pc, g)
        ex.obls.append(Obligation("post", desc, None, r, m, time.time() - t0, g, st.pc, info))

    def field(self, ex, spec, st, rid, n):
        o, e = spec.si.fields[n]
        sv = spec.env[n]
        dc = [g for (nm, g) in spec.dontcare if nm == n]
        try: f = self.field_eq(ex, spec, st, rid, o, e, sv)
        except Unsupported as u: raise Unsupported("field %s: %s" % (n, u))
        if dc: f = mk_or(f, *dc)
        self.post(ex, st, f, "field %s has the specified value" % n, info="field:" + n)

    def field_eq(self, ex, spec, st, rid, o, e, sv):
        if isinstance(e, EScal):
            v = ex.read_cell(st, ("r", rid), Off(o), e.size, ir.intty(8 * e.size))
            if z3.is_bool(v): v = z3.If(v, bv(1, 8), bv(0, 8))
            return simp((sx(v, 64) if e.signed else zx(v, 64)) == sv)
        if isinstance(e, EPtr):
            v = ex.read_cell(st, ("r", rid), Off(o), 8, ir.PTR)
            return simp(ex.handle(st, v) == sv.t)
        if isinstance(e, EVec):
            v = ex.get_vec(st, Ptr.mk(("r", rid), Off(o)), e.e)
            return self.vec_eq(v, sv.v)
        if isinstance(e, EArr):
            fs = []
            for i in range(e.n):
                x = spec.wide(e.e, sv.v.load(bv(i)))
                fs.append(self.field_eq(ex, spec, st, rid, o + i * e.e.bytes(), e.e, x))
            return mk_and(*fs)
        if isinstance(e, EStruct):
            return mk_and(*[self.field_eq(ex, spec, st, rid, o + o2, f, sv.d[o2]) for o2, f in e.fields])
        if isinstance(e, EMap):
            v = stl.map_get(ex, st, Ptr.mk(("r", rid), Off(o)), e.to)
            return mk_and(v.has == sv.has, v.val == sv.val)
        raise Unsupported("field type")

    def vec_eq(self, a, b):
        if a.e.key() != b.e.key(): raise Unsupported("vector element types differ: %s %s" % (a.e.key(), b.e.key()))
        return mk_and(simp(a.len == b.len), *[simp(x == y) for x, y in zip(a.arrs, b.arrs)])


def model_hints(R, o):
    """field / argument values of a failed obligation's model, as generator hints"""
    h = {}
    def put(n, t, signed=False):
        v = o.model.eval(t, model_completion=True)
        if z3.is_bv_value(v):
            x = v.as_signed_long() if signed else v.as_long()
            h.setdefault(n, [])
            if x not in h[n]: h[n].append(x)
    sp = R.spec
    for n in sp.fields:
        v = sp.env.get(n)
        if z3.is_expr(v) and z3.is_bv(v): put(n, v, True)
    for r in sp.root.reads:
        if r.name and r.kind in ("u", "f", "i"):
            pass
    for n, v in sp.args.items():
        if z3.is_expr(v) and z3.is_bv(v): put(n, v, True)
    return h


def magic(R):
    """constants compared against in the functions the verification went through"""
    out = set()
    if "ex" not in R.__dict__: return []
    ex = R.ex; names = set(R.inlined) | {getattr(R, "symbol", "")}
    for n in names:
        if "h265nal" not in n: continue
        for m in ex.prog.mods.values():
            f = m.funcs.get(n)
            if f is None: continue
            for l in f._lines:
                if " icmp " in l or "switch " in l or re.match(r"\s+i\d+ \d+, label", l):
                    for x in re.findall(r"(?<![%\w!.])(\d+)(?![\w.])", l.split("!dbg")[0]):
                        v = int(x)
                        if v > 8: out |= {v, v + 1, v - 1}
    return sorted(out)[:400]


def main():
    V = Verifier()
    for n in sys.argv[1:]:
        R = V.verify(n, deadline=float(os.environ.get("VC_DEADLINE", "300")))
        print("== %s: %s  obligations=%d failed=%d unknown=%d  %.1fs solver %.1fs (%d queries) rets=%s" % (n, R.status, len(R.obls), len(R.failed), len(R.unknown), R.time, R.tq, R.nq, R.reach))
        if R.undecided: print("   UNDECIDED", R.undecided)
        for x in R.notes: print("   note", x)
        for o in (R.failed + R.unknown)[:int(os.environ.get("VC_SHOW", "12"))]:
            print("   %s: %s %s @%s" % (o.status, o.kind, o.desc, o.loc))
            if os.environ.get("VC_MODEL") and o.model is not None:
                print("      pc:", [str(simp(c))[:300] for c in o.pc][-12:]); print("      goal:", str(o.goal)[:600])
        for l in R.loops: print("   loop", l[:3], l[3][:6])


if __name__ == "__main__": main()
