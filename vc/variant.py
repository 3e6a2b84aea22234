"""Termination: a loop ends when some quantity strictly increases (or decreases), as an unsigned number, on every way back to its head."""
import z3
from sym import *


def num(v):
    if isinstance(v, BitBuf): return v.pos
    if z3.is_expr(v) and z3.is_bv(v): return v
    if isinstance(v, Ptr) and v.single: return v.alts[0][2].term()
    return None


def find(ex, pairs, backs, timeout=2500):
    """pairs: [(name, value at the head, f(state) -> value at the end of an iteration)] -> description of a variant or None"""
    pv = ex.pv; backs = [b for b in backs if pv.feasible(list(b.pc))]
    if not backs: return "the body is left in the first iteration"
    todo = []
    for n, h, f in pairs:
        a = num(h)
        if a is None: continue
        vs = []
        for b in backs:
            try: x = num(f(b))
            except (KeyError, AttributeError, Unsupported): x = None
            if x is None or x.sort() != a.sort(): vs = None; break
            vs.append(x)
        if vs is None or any(simp(a).eq(simp(x)) for x in vs): continue
        todo.append((n, a, vs))
    for n, a, vs in todo:
        for word, op in (("increases", lambda x: z3.ULT(a, x)), ("decreases", lambda x: z3.ULT(x, a)), ("increases (signed)", lambda x: a < x), ("decreases (signed)", lambda x: x < a)):
            if all(pv.prove(list(b.pc), op(x), timeout)[0] == "proved" for b, x in zip(backs, vs)): return "%s %s" % (n, word)
    return None


def callgraph():
    """{function: callees} over everything the library defines; an indirect call in the library may reach every virtual method of the library"""
    import ir, re
    prog = ir.Program(); edges = {}; own = set(); virt = set(); ind = set(); based = set(); allti = set()
    for m in prog.all_mods():
        for g, body in m.globals.items():
            if g.startswith("_ZTI"):
                allti.add(g); b = [x for x in re.findall(r"@(_ZTI[-\w.$]+)", body)]
                if b: based |= set(b) | {g}
            if g.startswith("_ZTV"): virt |= set(re.findall(r"@([-\w.$]+)", body))
        for n, f in m.funcs.items():
            if n in edges: continue
            e = set()
            for l in f._lines:
                if l.lstrip().startswith(("call void @llvm.dbg", "tail call void @llvm")): continue
                e |= set(re.findall(r"@([-\w.$]+)", l))
                if re.search(r"\b(call|invoke)\b[^@]*? %[-\w.$]+\(", l): ind.add(n)
            edges[n] = e
    names = list(edges); dm = dict(zip(names, ir.demangle(names)))
    for n in names:
        d = dm[n]
        d0 = re.sub(r"\(anonymous namespace\)", "anon", d).split("(")[0]
        if re.match(r"(.* )?(h265nal|anon)::", d0) and not d0.startswith(("void std::", "std::", "bool std::")) and "std::" not in d0.split("<")[0]: own.add(n)
    dtor = {n for n in names if re.search(r"D[0-9]Ev$|_M_dispose|_M_destroy|_M_release|_M_deallocate|_M_erase|C[0-9]E", n)}
    vm = {v for v in virt if v in own and v not in dtor}
    out = {}
    for n in names:
        if n in dtor: continue
        e = {x for x in edges[n] if x in edges and x not in dtor}
        if n in ind and n in own:
            # a method of a polymorphic class without bases or derived classes is not what its own virtual calls reach: they go to members of other types
            alone = {v for v in vm if v == n and "_ZTIN" + re.match(r"_ZNK?(.*)", n).group(1).rsplit("5fdump", 1)[0] + "E" in allti - based}
            e |= vm - alone
        out[n] = e
    return out, own - dtor, dm


def cycles(graph, own):
    """strongly connected components that contain a function of the library"""
    idx = {}; low = {}; st = []; on = set(); out = []; c = 0
    for root in graph:
        if root in idx: continue
        work = [(root, iter(sorted(graph[root])))]; idx[root] = low[root] = c; c += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in graph: continue
                if w not in idx:
                    idx[w] = low[w] = c; c += 1; st.append(w); on.add(w); work.append((w, iter(sorted(graph[w])))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    if (len(comp) > 1 or v in graph[v]) and any(w in own for w in comp): out.append(comp)
    return out


def task(kind=None, tier="quick", seed=1):
    """no function of the library calls itself, directly or through others: with a variant for every loop, every call ends"""
    g, own, dm = callgraph()
    cy = cycles(g, own)
    out = dict(violations=[], undecided=[], obligations=len(own), discharged=len(own) - len({w for c in cy for w in c if w in own}), cases=0, distinct=0, tq=0, modelled=[], called=[],
               functions=[dict(name="call graph of the library is free of cycles (%d functions)" % len(own), status="undecided" if cy else "proved", obligations=len(own), discharged=len(own), symbolic_cases=1, queries=0, seconds=0)])
    for c in cy: out["undecided"].append("recursion: " + ", ".join(dm[w].split("(")[0] for w in c if w in own)[:300])
    return out
