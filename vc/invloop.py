"""Loops cut with an inductive invariant.  The theorem supplies ghost terms and the shape of the facts it needs; the relations between the
code's own variables and the ghosts are guessed from a template pool and pruned to an inductive subset (Houdini).  Everything is re-proved
on every run; a pool without a sufficient invariant leaves the function undecided."""
import z3
from sym import *
import loops as L


class Key:
    def __init__(self, kind, k): self.kind, self.k = kind, k
    def get(self, st): return st.env.get(self.k) if self.kind == "env" else st.mem.get(self.k)
    def set(self, st, v):
        if self.kind == "env": st.env[self.k] = v
        else: st.mem[self.k] = v
    def __repr__(self): return "%s" % (self.k if self.kind == "env" else "%s@%s" % self.k,)


def havoc(v, nm):
    if z3.is_expr(v): return fresh("hv_" + nm, v.sort())
    if isinstance(v, Vec): return Vec(v.e, fresh("hvlen_" + nm, B64), [fresh("hvarr_" + nm, a.sort()) for a in v.arrs])
    if isinstance(v, MapV): return MapV(v.to, fresh("hv_" + nm, v.has.sort()), fresh("hv_" + nm, v.val.sort()))
    if isinstance(v, Opaque): return v
    if isinstance(v, Ptr):
        if not v.single: raise Unsupported("loop changes a pointer with several targets")
        b, o = v.alts[0][1], v.alts[0][2]
        if b[0] == "d" and len(b) > 2 and b[2] > 1 and o.c % b[2] == 0 and all(s % b[2] == 0 for _, s in o.ts): return Ptr.mk(b, Off(0, [(fresh("hvix_" + nm, B64), b[2])]))
        if b[0] in ("r", "d"): return Ptr.mk(b, Off(0, [(fresh("hvoff_" + nm, B64), 1)]))
        if b[0] == "h": return Ptr.mk(("h", fresh("hvh_" + nm, B64)))
    raise Unsupported("loop changes a value of kind %s" % type(v).__name__)


def same(a, b):
    try: return val_same(a, b)
    except Exception: return False


def num(v):
    """64-bit view of a loop variable (None when it has none)"""
    if isinstance(v, Ptr) and v.single and v.alts[0][1][0] == "d" and len(v.alts[0][1]) > 2 and v.alts[0][1][2] > 1:          # iterator: the element index
        es, o = v.alts[0][1][2], v.alts[0][2]
        if o.c % es == 0 and all(s % es == 0 for _, s in o.ts):
            r = bv(o.c // es & (2 ** 64 - 1))
            for t, s in o.ts: r = r + t * bv(s // es)
            return simp(r)
    if isinstance(v, Ptr): return v.alts[0][2].term() if v.single and v.alts[0][1][0] in ("r", "d") else None
    if z3.is_expr(v) and z3.is_bv(v): return zx(v, 64) if v.size() <= 64 else None
    return None


def set_all(ex, entry, h, keys, inv):
    """arbitrary values for everything the loop changes; the two cells of a bit buffer's position move together"""
    joint = {}
    for bb in getattr(inv, "bufs", ()):
        a, b = (bb.rid, bb.lay.off), (bb.rid, bb.lay.bit)
        if any(k.kind == "mem" and k.k in (a, b) for k in keys):
            import bytesvc as BT
            o, c = BT.cells_at(ex, fresh("hvpos", B64)); h.mem[a] = o; h.mem[b] = c; joint[a] = joint[b] = 1
    for i, k in enumerate(keys):
        if k.kind == "mem" and k.k in joint: continue
        k.set(h, havoc(k.get(entry), str(i)))
    return joint


def ite_conds(g):
    """conditions of the if-then-else terms of g, outermost first"""
    out = []; seen = set(); work = [g]
    while work:
        t = work.pop(0)
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE and not (is_t(t.arg(0)) or is_f(t.arg(0))): out.append(t.arg(0))
            work += t.children()
    return out


def split_prove(ex, pc, g, depth=5):
    """prove, by cases on the conditions inside the goal when the solver does not decide it at once"""
    r, m = ex.pv.prove(pc, g, 3000 if depth else ex.thm.timeout)
    if r != "unknown" or not depth: return r
    cs = ite_conds(g)
    if not cs: return ex.pv.prove(pc, g, ex.thm.timeout)[0]
    c = cs[0]
    for v, lit in ((T, c), (F, mk_not(c))):
        if not ex.pv.feasible(pc + [lit]): continue
        r = split_prove(ex, pc + [lit], simp(z3.substitute(g, (c, v))), depth - 1)
        if r != "proved": return r
    return "proved"


def oblige(ex, st, g, kind, desc):
    """obligation discharged with case splitting"""
    g = simp(g)
    r = "proved" if is_t(g) else split_prove(ex, list(st.pc), g)
    if ex.probing: return
    ex.obls.append(Obligation(kind, desc, ex.cur_loc, r, None, 0.0, g, st.pc)); st.assume(g)


def run(ex, fn, header, region, st, inv):
    """inv(ex, entry, keys) -> object with .facts(state) [(name, Bool)] required facts candidates, .pool(state, scalars) templates"""
    entry = st
    phis = [ins.dst for ins in fn.blocks[header].ins if ins.op == "phi"]
    CNT = "%iterations"; entry.env[CNT] = bv(0)              # ghost: finished iterations
    keys = [Key("env", p) for p in phis] + [Key("env", CNT)]
    def bump(backs):
        for b, _ in backs: b.env[CNT] = simp(b.env[CNT] + 1) if CNT in b.env else None
        return backs
    ex.thm.tainted = getattr(ex.thm, "tainted", 0) + 1
    # which cells does an iteration change?
    for _ in range(6):
        h = entry.copy()
        set_all(ex, entry, h, keys, inv)
        before = dict(h.mem)
        ex.probing += 1; snap = ex.snapshot()
        try: exits, rets, backs = ex.run_region(fn, region, {header: [h.copy()]}, header)
        finally: ex.probing -= 1; ex.restore(snap)
        new = []
        for s, _f in backs:
            for k, v in s.mem.items():
                if k in before and not same(before[k], v) and not any(q.kind == "mem" and q.k == k for q in keys + new): new.append(Key("mem", k))
        if not new: break
        keys += new
    else: raise Unsupported("loop frame does not stabilise")
    # a phi that the loop does not change needs no havoc
    h = entry.copy()
    set_all(ex, entry, h, keys, inv)
    jc = {c for bb in getattr(inv, "bufs", ()) for c in ((bb.rid, bb.lay.off), (bb.rid, bb.lay.bit))}
    scal = [k for k in keys if (k.k != CNT or getattr(inv, 'count', False)) and not (k.kind == "mem" and k.k in jc) and num(k.get(entry)) is not None and num(k.get(h)) is not None]
    I = inv(ex, entry, keys)
    cands = []
    def add(name, f):
        cands.append((name, f))
    pool = I.pool(entry, scal)
    for c in pool: add(*c)
    def prove(s, g): return split_prove(ex, list(s.pc), simp(g)) == "proved"
    alive = []
    for name, f in cands:
        try: g = simp(f(entry))
        except (Unsupported, KeyError, AttributeError): continue
        if prove(entry, g): alive.append((name, f))
    rounds = 0
    while True:
        rounds += 1
        if rounds > 40: raise Unsupported("invariant search does not converge")
        s = h.copy()
        ok = True
        for name, f in alive: ok = s.assume(simp(f(s))) and ok
        for t in I.instances(s, scal): pass
        ex.probing += 1; snap = ex.snapshot()
        try: exits, rets, backs = ex.run_region(fn, region, {header: [s]}, header)
        finally: ex.probing -= 1; ex.restore(snap)
        keep = []; bump(backs)
        backs = [b for b, _ in backs if ex.pv.feasible(list(b.pc))]
        for name, f in alive:
            good = True
            for b in backs:
                for t in I.instances(b, scal): pass
                if not prove(b, f(b)): good = False; break
            if good: keep.append((name, f))
        if len(keep) == len(alive): break
        alive = keep
    ex.thm.invs = getattr(ex.thm, "invs", []) + [[n for n, _ in alive]]
    if os_debug(): print("  invariant of %s/%s: %s" % (fn.name[:40], header, "; ".join(n for n, _ in alive)))
    miss = [n for n in I.required() if n not in {a for a, _ in alive}]
    if miss: raise Unsupported("no inductive invariant found for the loop at line %s (%s)" % (L.loop_line(ex, fn, header), "; ".join(miss)))
    # final run with the invariant assumed, obligations recorded
    s = h.copy()
    for name, f in alive: s.assume(simp(f(s)))
    seen = set()
    def nowrap(x):
        """the indices at which ghost sequences were unfolded are not 2^64 - 1 in this state"""
        ex.wraps = {}; I.instances(x, scal); todo = [v for k, v in ex.wraps.items() if k not in seen]; seen.update(v.get_id() for v in todo)
        if not todo: return
        g = z3.And([v != z3.BitVecVal(-1, 64) for v in todo])
        ex.obls.append(Obligation("loop", "the indices of ghost sequences do not wrap", ex.cur_loc, ex.pv.prove_plain(list(x.pc), g), None, 0.0, g, x.pc))
    nowrap(entry)
    nowrap(s)
    exits, rets, backs = ex.run_region(fn, region, {header: [s]}, header); bump(backs)
    for b, _f in backs:
        nowrap(b)
        if not ex.pv.feasible(list(b.pc)): continue
        for name, f in alive: oblige(ex, b, f(b), "loop", "the invariant is kept: " + name)
    for name, f in alive: ex.oblige(entry, f(entry), "loop", "the invariant holds on entry: " + name)
    if not ex.probing:
        import variant
        v = variant.find(ex, [(repr(k), num(k.get(h)), (lambda b, k=k: num(k.get(b)))) for k in keys if k.k != CNT] + [(n, g(h), g) for n, g in getattr(inv, "ghosts", {}).items()], [b for b, _ in backs], 8000)
        ex.obls.append(Obligation("term", "the loop ends: %s" % (v or "no variant found"), ex.cur_loc, "proved" if v else "unknown", None, 0.0, T, s.pc))
        if os_debug(): print("  ends because", v)
    for e in exits:
        nowrap(e[0])
        if CNT in e[0].env: e[0].mem[(CNT, "")] = e[0].env[CNT]
    return exits, rets, None


def os_debug():
    import os
    return os.environ.get("VC_INV")


class Inv:
    """ghosts: {name: f(state) -> 64-bit term} varying; consts: {name: term}; facts: [(name, f(state))] extra candidates, the names in
       `req` must survive; inst(ex, term): adds the definition instances at a term; over: scalars at which ghost folds are instantiated"""
    def __init__(self, ghosts=None, consts=None, facts=(), req=(), inst=None, scale=(1,), fold=None, bufs=(), count=False):
        self.ghosts, self.consts, self._facts, self.req, self.inst, self.scale, self.fold, self.bufs, self.count = ghosts or {}, consts or {}, list(facts), list(req), inst, scale, fold, bufs, count
    def __call__(self, ex, entry, keys):
        self.ex, self.entry, self.keys = ex, entry, keys
        return self
    def required(self): return self.req + (["class invariant"] if self.bufs else [])
    def terms(self, st, scal):
        out = []
        for k in scal:
            v = k.get(st); t = num(v) if v is not None else None
            if t is not None: out.append(t)
        for g in self.ghosts.values():
            out.append(g(st))
        return out
    def instances(self, st, scal):
        if self.inst is None: return ()
        for t in self.terms(st, scal): self.inst(self.ex, simp(t))
        return ()
    def pool(self, entry, scal):
        out = list(self._facts)
        import bytesvc as BT
        for bb in self.bufs: out.append(("class invariant", lambda s, bb=bb: BT.inv_of(bb.cell(s, bb.lay.off), bb.cell(s, bb.lay.bit), bb.C)))
        self.instances(entry, scal)
        val = lambda k, s: num(k.get(s))
        g0 = {n: g(entry) for n, g in self.ghosts.items()}
        for i, k in enumerate(scal):
            x0 = val(k, entry)
            for n, g in self.ghosts.items():
                for m in self.scale:
                    out.append(("%r-%r0 = (%s-%s0)/%d" % (k, k, n, n, m), lambda s, k=k, g=g, n=n, x0=x0, m=m: (val(k, s) - x0) * m == g(s) - g0[n]))
                    out.append(("%r0-%r = (%s-%s0)/%d" % (k, k, n, n, m), lambda s, k=k, g=g, n=n, x0=x0, m=m: (x0 - val(k, s)) * m == g(s) - g0[n]))
            for n, c in self.consts.items():
                out.append(("%r <= %s" % (k, n), lambda s, k=k, c=c: z3.ULE(val(k, s), c)))
                out.append(("%r >= %s" % (k, n), lambda s, k=k, c=c: z3.UGE(val(k, s), c)))
            out.append(("%r >= %r0" % (k, k), lambda s, k=k, x0=x0: z3.UGE(val(k, s), x0)))
            for j, q in enumerate(scal):
                if j <= i: continue
                y0 = val(q, entry)
                out.append(("%r-%r0 = %r-%r0" % (k, k, q, q), lambda s, k=k, q=q, x0=x0, y0=y0: val(k, s) - x0 == val(q, s) - y0))
                out.append(("%r-%r0 = %r0-%r" % (k, k, q, q), lambda s, k=k, q=q, x0=x0, y0=y0: val(k, s) - x0 == y0 - val(q, s)))
        for n, g in self.ghosts.items():
            for n2, c in self.consts.items():
                out.append(("%s <= %s" % (n, n2), lambda s, g=g, c=c: z3.ULE(g(s), c)))
                out.append(("%s >= %s" % (n, n2), lambda s, g=g, c=c: z3.UGE(g(s), c)))
        if self.fold:
            for k in scal: out += [(nm.replace("@", repr(k)), lambda s, k=k, f=f: f(s, val(k, s))) for nm, f in self.fold]
        return out
