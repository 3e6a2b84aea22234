"""Code loops against specification loops.  A code loop is either unrolled concretely (its header decides every
iteration on constants) or matched with a loop instance of the specification: the relation between code variables and
specification variables is guessed from entry values and field names, checked inductively (Houdini), and the loop is then
replaced by the specification's post constants.  All of it is re-proved on every run."""
import z3
import ir
from sym import *


def subst_val(v, sub):
    if v is None or not sub: return v
    if z3.is_expr(v): return z3.substitute(v, *sub)
    if isinstance(v, Vec): return Vec(v.e, z3.substitute(v.len, *sub), [z3.substitute(a, *sub) for a in v.arrs])
    if isinstance(v, MapV): return MapV(v.to, z3.substitute(v.has, *sub), z3.substitute(v.val, *sub))
    if isinstance(v, BitBuf): return BitBuf(z3.substitute(v.s, *sub), z3.substitute(v.pos, *sub))
    if isinstance(v, FVal): return FVal(z3.substitute(v.t, *sub))
    if isinstance(v, Ptr):
        out = []
        for c, b, o in v.alts:
            if b[0] == "h": b = ("h", z3.substitute(b[1], *sub))
            elif b[0] == "d": b = ("d", subst_val(b[1], sub), b[2])
            elif b[0] in ("m", "mp"): b = (b[0], subst_val(b[1], sub), z3.substitute(b[2], *sub))
            out.append((z3.substitute(c, *sub), b, Off(o.c, [(z3.substitute(t, *sub), s) for t, s in o.ts])))
        return Ptr(out)
    if isinstance(v, list): return [subst_val(x, sub) for x in v]
    return v


class LoopTry:
    pass


def bitbuf_cells(st):
    return [k for k, v in st.mem.items() if isinstance(v, BitBuf)]


def do_loop(ex, fn, header, st):
    ctx = ex.loopctx[-1]
    cfg = fn.cfg(); region = cfg["loops"][header]
    why = []
    if ctx is not None and not isinstance(ctx, str):
        me = (fn.name, header, ex.probe_tok())
        rank = lambda L: 0 if L.matched == me else 1 if not L.matched else 2
        for L in sorted(ctx.loops, key=rank):
            snap = ex.snapshot(); was = L.matched
            try:
                r = match_loop(ex, fn, header, region, st, L)
                if r is not None: return r
            except Misaligned as m:
                why.append(str(m))
            except Unsupported as m:
                if "budget" in str(m): raise
                why.append(str(m))
            ex.restore(snap); L.matched = was         # obligations of a failed attempt do not count
    r = unroll(ex, fn, header, region, st)
    if r is not None: return r
    inv = ex.loop_invariants(fn, header, st) if hasattr(ex, "loop_invariants") else None
    if inv is not None:
        return inv_loop(ex, fn, header, region, st, inv)
    raise Misaligned("loop at %s of %s: %s" % (loop_line(ex, fn, header), ir.demangle1(fn.name)[:80], "; ".join(why) or "no counterpart in the specification"))


def loop_line(ex, fn, header):
    for b in [header]:
        for ins in fn.blocks[b].ins:
            if ins.dbg is not None: return ex.fr_mod.line(ins.dbg)
    return "?"


def unroll(ex, fn, header, region, st, limit=None):
    limit = limit or ex.unroll_limit.get(fn.name, 130)
    snap = ex.snapshot()
    allex, allrets = [], []
    cur = st.copy()
    n = 0
    strict = fn.name not in ex.unroll_limit
    while True:
        # does the header decide on constants?
        if strict:
            ex.probing += 1
            try:
                hs = ex.run_block(fn, header, cur.copy())
            finally: ex.probing -= 1
            tos = {t for (_, t, _) in hs}
            if len(tos) > 1 and any(t not in region for t in tos):
                ex.restore(snap); return None
        n += 1
        if n > limit:
            ex.restore(snap)
            return None
        exits, rets, backs = ex.run_region(fn, region, {header: [cur]}, header)
        allex += exits; allrets += rets
        if not backs: return allex, allrets, None
        ss = [s for s, _ in backs]
        cur = merge_states(ss) if len(ss) > 1 else ss[0]
        if not strict and not ex.pv.feasible(list(cur.pc)): return allex, allrets, None


# ------------------------------------------------------------------ matching
def code_of(ex, spec_val, code_entry):
    """code-side value that represents the specification value"""
    from specrun import SHandle, SVec
    if isinstance(code_entry, BitBuf): return BitBuf(code_entry.s, spec_val)
    if isinstance(code_entry, Vec) and isinstance(spec_val, SVec):
        if code_entry.e.key() != spec_val.e.key(): return None
        return Vec(code_entry.e, spec_val.v.len, spec_val.v.arrs)
    if isinstance(code_entry, Ptr):
        if isinstance(spec_val, SHandle): return Ptr.mk(("h", spec_val.t))
        return None
    if z3.is_expr(code_entry) and z3.is_bv(code_entry) and z3.is_expr(spec_val):
        return zx(spec_val, code_entry.size())
    if z3.is_expr(code_entry) and z3.is_bool(code_entry) and z3.is_expr(spec_val):
        return simp(spec_val != 0)
    return None


def eq_code(ex, st, a, b):
    """formula: two code values are equal"""
    if isinstance(a, BitBuf): return simp(a.pos == b.pos)
    if isinstance(a, Vec):
        return mk_and(simp(a.len == b.len), *[simp(x == y) for x, y in zip(a.arrs, b.arrs)])
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        try: return simp(ex.handle(st, a) == ex.handle(st, b))
        except Unsupported: return F
    if isinstance(a, MapV): return mk_and(simp(a.has == b.has), simp(a.val == b.val))
    if isinstance(a, FVal): return simp(a.t == b.t)
    return simp(a == b)


def match_loop(ex, fn, header, region, st, L):
    pv = ex.pv
    # 1. the entry positions agree
    bbs = bitbuf_cells(st)
    if "%pos" in L.head:
        ok = False
        for k in bbs:
            b = st.mem[k]
            if not b.s.eq(ex.spec.S): continue
            if pv.prove(st.pc, b.pos == L.entry["%pos"], 15000)[0] == "proved": ok = True; posk = k
        if not ok: raise Misaligned("entry position differs from specification line %s" % L.line)
    if pv.prove(st.pc, L.guard, 3000)[0] != "proved": raise Misaligned("guard of specification line %s not implied" % L.line)
    phis = [i.dst for i in fn.blocks[header].ins if i.op == "phi"]
    fieldmap = ex.fieldmap       # (rid,off) -> spec name
    rel = {}                     # thing -> list of candidate spec exprs
    choice = {}
    cands = {}
    used = set()

    def spec_things():
        return list(L.head.items())

    def candidates(key, val):
        out = []
        if isinstance(val, BitBuf):
            if val.s.eq(ex.spec.S) and "%pos" in L.head: return [("spec", "%pos")]
            return []
        if key[0] == "cell" and key[1] in fieldmap and fieldmap[key[1]] in L.head:
            return [("spec", fieldmap[key[1]])]
        if isinstance(val, MapV):
            from specrun import WVal
            for n, w in L.entry.items():
                if isinstance(w, WVal):
                    for f, m in w.d.items():
                        if m.to == val.to and pv.prove(st.pc, eq_code(ex, st, val, m), 2000)[0] == "proved": out.append(("w", n, f))
            return out
        order = sorted(L.head, key=lambda n: (0 if not n in ex.fieldmap_names else 1, n))
        for n in order:
            if n == "%pos": continue
            hv = code_of(ex, L.entry[n], val)
            if hv is None: continue
            try: e = eq_code(ex, st, val, hv)
            except z3.Z3Exception: continue
            if is_f(e): 
                # constant displacement
                if z3.is_expr(val) and z3.is_bv(val) and z3.is_expr(hv) and isc(simp(val - hv)) : out.append(("off", n, simp(val - hv)))
                continue
            if pv.prove(st.pc, e, 2000)[0] == "proved": out.append(("spec", n))
        return out

    def headval(key, val):
        c = cands[key]; i = choice[key]
        if i < len(c):
            r = c[i]
            if r[0] == "w": return L.head[r[1]].d[r[2]]
            hv = code_of(ex, L.head[r[1]], val)
            if r[0] == "off": hv = simp(hv + r[2])
            return hv
        return havoc(ex, val, key)

    def stepval(key, val):
        c = cands[key]; i = choice[key]
        if i < len(c):
            r = c[i]
            if r[0] == "w": return L.step[r[1]].d[r[2]]
            hv = code_of(ex, L.step[r[1]], val)
            if r[0] == "off": hv = simp(hv + r[2])
            return hv
        return None

    tracked = {}
    for p in phis: tracked[("phi", p)] = st.env[p]
    for k, n in fieldmap.items():
        if n in L.head and k in st.mem: tracked[("cell", k)] = st.mem[k]
    for k in bbs:
        if "%pos" in L.head and st.mem[k].s.eq(ex.spec.S): tracked[("cell", k)] = st.mem[k]
    from specrun import WVal
    if any(isinstance(v, WVal) for v in L.head.values()):          # the parser state, updated by the loop
        for k, v in st.mem.items():
            if isinstance(v, MapV) and isinstance(k[1], int): tracked[("cell", k)] = v
    for k, v in list(tracked.items()):
        cands[k] = candidates(k, v); choice[k] = 0
    dead = set()           # cells unknown at entry, written by the body

    heads = {}
    def build():
        h = st.copy()
        for key, v in tracked.items():
            hv = headval(key, v); heads[key] = hv
            if key[0] == "phi": h.env[key[1]] = hv
            else: h.mem[key[1]] = hv
        for k in dead: h.mem.pop(k, None)
        return h

    hnames = {str(t) for n in L.head for t in ex.spec.parts(L.head[n]) if z3.is_const(t)}
    def weight(v):
        """how many of the loop's variables a step value depends on"""
        if not z3.is_expr(v): return 99, 0
        seen, todo, out = set(), [v], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (str(t) in hnames or str(t).startswith("hv_")): out.add(str(t))
            todo += t.children()
        return len(out), len(seen)

    def run(h):
        ex.loopctx.append(L)
        for l2 in L.loops: l2.matched = 0
        try: return ex.run_region(fn, region, {header: [h]}, header)
        finally: ex.loopctx.pop()

    for attempt in range(30):
        snap = ex.snapshot()
        ex.probing += 1
        err = None
        try:
            h = build()
            try:
                h.assume(T)
                exits, rets, backs = run(h.copy())
            except Misaligned as m: err = m
        finally:
            ex.probing -= 1
        ex.restore(snap)
        if err is not None:
            # an inner loop does not align under this choice: advance an ambiguous choice
            k = next((k for k in tracked if choice[k] + 1 < len(cands[k])), None)
            if k is None: raise err
            choice[k] += 1
            continue
        changed = False
        for (s, frm) in backs:
            for k, v in s.mem.items():
                if k[1] in ("kind", "H", "iter"): continue
                if ("cell", k) in tracked: continue
                old = h.mem.get(k)
                if old is None:
                    if k[0] not in ex.region_info or (k[0], "kind") in st.mem:
                        if k in dead: continue
                        if isinstance(k[1], int) and k in st.mem: pass
                        dead.add(k); changed = False or changed
                    continue
                if old is v or val_same(old, v): continue
                if k[1] == "Z": continue
                tracked[("cell", k)] = st.mem[k]
                cands[("cell", k)] = candidates(("cell", k), st.mem[k]); choice[("cell", k)] = 0
                changed = True
        if changed: continue
        failing = []
        for key, v in tracked.items():
            if choice[key] >= len(cands[key]): continue
            for (s, frm) in backs:
                bv_ = s.env[key[1]] if key[0] == "phi" else s.mem.get(key[1])
                sv = stepval(key, v)
                ok = False
                if bv_ is not None:
                    try: ok = pv.prove(list(s.pc), eq_code(ex, s, bv_, sv), 6000)[0] == "proved"
                    except (Unsupported, z3.Z3Exception): ok = False
                if not ok: failing.append((key, v, weight(bv_))); break
        # an ambiguous choice is revised before anything is given up, and first the one whose step depends on least
        alt = [f for f in failing if choice[f[0]] + 1 < len(cands[f[0]])]
        if alt:
            k = min(alt, key=lambda f: f[2])[0]; choice[k] += 1; changed = True; continue
        for key, v, _ in failing:
            choice[key] += 1; changed = True
            if key[0] == "cell" and (key[1] in fieldmap and fieldmap[key[1]] in L.head):
                ex.note("loop of specification line %s: field %s is not updated as specified" % (L.line, fieldmap[key[1]]))
                raise Misaligned("field %s differs after an iteration (specification line %s)" % (fieldmap[key[1]], L.line))
            if isinstance(v, BitBuf):
                raise Misaligned("bit position differs after an iteration (specification line %s)" % L.line)
        if not changed: break
    else: raise Misaligned("no stable relation for specification line %s" % L.line)

    # every specification loop variable that is a state field must be related
    for n in L.head:
        if n in ex.fieldmap_names and not any(fieldmap.get(k[1]) == n and choice[k] < len(cands[k]) for k in tracked if k[0] == "cell"):
            raise Misaligned("field %s is not maintained by the code loop" % n)
    # 2. recorded run
    h = build()
    exits, rets, backs = run(h)
    bok = mk_and(*[x[0] for x in L.body_ok])
    for (s, frm) in backs:
        r = pv.prove(s.pc, L.cond)[0]
        if r != "proved": raise Misaligned("the code iterates where the specification's loop (line %s) ends" % L.line)
        for (f, line, desc, g, _w) in L.body_ok:
            if pv.prove(s.pc, f)[0] != "proved": raise Misaligned("iteration continues although: %s (specification line %s)" % (desc, line))
    norm, rej = [], []
    for (s, frm, to) in exits:
        if pv.prove(s.pc, mk_not(L.cond))[0] == "proved": norm.append((s, frm, to)); continue
        if pv.prove(s.pc, mk_and(L.cond, mk_not(bok)))[0] == "proved": rej.append((s, frm, to)); continue
        raise Misaligned("loop exit is neither the specified end nor a specified rejection (specification line %s)" % L.line)
    rr = []
    for (s, v) in rets:
        if pv.prove(s.pc, mk_and(L.cond, mk_not(bok)))[0] != "proved": raise Misaligned("return inside loop is not a specified rejection (specification line %s)" % L.line)
        if s.assume(mk_not(L.loop_ok)): rr.append((s, v))
    out = []
    for (s, frm, to) in norm:
        s2 = State(); s2.pc = (); s2.pcs = frozenset()
        okp = True
        for c in s.pc:
            if not s2.assume(simp(z3.substitute(c, *L.sub))): okp = False; break
        if not okp: continue
        if not s2.assume(L.loop_ok): continue
        s2.mem = {k: subst_val(v, L.sub) if not isinstance(v, (str, tuple)) else v for k, v in s.mem.items()}
        s2.env = {k: subst_val(v, L.sub) for k, v in s.env.items()}
        out.append((s2, frm, to))
    for (s, frm, to) in rej:
        if s.assume(mk_not(L.loop_ok)): out.append((s, frm, to))
    L.matched = (fn.name, header, ex.probe_tok())
    if not ex.probing:
        import variant
        pairs = sorted([(str(k[1]), heads[k], (lambda b, k=k: (b.env if k[0] == "phi" else b.mem)[k[1]])) for k in tracked], key=lambda t: not isinstance(t[1], BitBuf))
        v = variant.find(ex, pairs, [b for b, _ in backs])
        ex.obls.append(Obligation("term", "the loop of specification line %s ends: %s" % (L.line, v or "no variant found"), ex.cur_loc, "proved" if v else "unknown", None, 0.0, T, ()))
        ex.matched_loops.append((ir.demangle1(fn.name), loop_line(ex, fn, header), L.line, [str(x)[:120] for x in L.invs], v))
    return out, rr, None


def havoc(ex, v, key):
    nm = "hv_%s" % (key[1] if isinstance(key[1], str) else "%s_%s" % key[1])
    if z3.is_expr(v): return fresh(nm, v.sort())
    if isinstance(v, Vec): return Vec(v.e, fresh(nm, B64), [fresh(nm, a.sort()) for a in v.arrs])
    if isinstance(v, BitBuf): return BitBuf(v.s, fresh(nm, B64))
    if isinstance(v, MapV): return MapV(v.to, fresh(nm, v.has.sort()), fresh(nm, v.val.sort()))
    if isinstance(v, FVal): return FVal(fresh(nm, FSORT))
    if isinstance(v, Opaque): return v
    if isinstance(v, Ptr): return Ptr.mk(("h", fresh(nm, B64)))
    raise Unsupported("havoc")


def inv_loop(ex, fn, header, region, st, inv):
    import invloop
    return invloop.run(ex, fn, header, region, st, inv)
