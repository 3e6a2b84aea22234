"""Names (P27, P34): the functions that turn a value into its name are executed symbolically for every value at once.  The text a std::string is
given is a ghost value (which literal it was last assigned); obligation on every return: it was given one, and a literal is returned exactly for
the values that carry that name in the tables (ops.NAMES, ops.PROFILE_NAMES; for profiles, case, punctuation and word order do not matter)."""
import re, time
import z3
import stl, verify, ops
from sym import *
from execu import Exec
from printvc import ex_str

STR = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"


def enumerators(mod, name):
    """value -> enumerators of the enumeration, from the debug information"""
    for mid, s in mod.meta.items():
        if "DW_TAG_enumeration_type" in s and mod.mget(mid, "name") == name:
            out = {}
            for e in (int(x) for x in re.findall(r"!(\d+)", mod.meta[mod.mget(mid, "elements")])):
                out.setdefault(int(mod.mget(e, "value")), []).append(mod.mget(e, "name"))
            return out
    raise Unsupported("enumeration %s not found" % name)


class Names:
    def __init__(self, V, cpp, arg, width, allowed):
        self.V, self.cpp, self.argi, self.width, self.allowed = V, cpp, arg, width, allowed
        self.lits = []

    def rid(self, p):
        if not (isinstance(p, Ptr) and p.single and p.alts[0][1][0] == "r" and not p.alts[0][2].ts): raise Unsupported("string object")
        return (p.alts[0][1][1], p.alts[0][2].c)

    def text(self, ex, p):
        p = ex.aptr(p) if isinstance(p, Ptr) else p
        if not isinstance(p, Ptr): raise Unsupported("text is not a literal")
        r = None
        for g, b, o in reversed(p.alts):
            if b[0] != "g": raise Unsupported("text is not a literal")
            t = bytes(ex_str(ex, Ptr([(T, b, o)]))).decode("latin-1")
            if t not in self.lits: self.lits.append(t)
            v = bv(1 + self.lits.index(t)); r = v if r is None else simp(z3.If(g, v, r))
        return r

    def k_set(self, ex, st, args, ins):
        r = self.rid(args[0]); st.mem[("%text", r)] = self.text(ex, args[1])
        return [(st, args[0])]

    def k_nothing(self, ex, st, args, ins): return [(st, None)]

    def run(self, deadline=200):
        V = self.V; R = verify.Result(self.cpp); t0 = time.time(); pv = Prover(8000); pv.deadline = t0 + deadline
        def body():
            mod, sym = V.symbol("h265nal::" + self.cpp, "h265_common"); R.symbol = sym; R.file = mod.src
            t = {STR + "aSEPKc": self.k_set, STR + "C1EPKcRKS3_": self.k_set, STR + "C2EPKcRKS3_": self.k_set, STR + "6assignEPKc": self.k_set,
                 "_ZNSt15__new_allocatorIcED2Ev": self.k_nothing, "_ZNSaIcED1Ev": self.k_nothing, "_ZNSaIcEC1Ev": self.k_nothing, "_ZNSaIcED2Ev": self.k_nothing, "_ZNSaIcEC2Ev": self.k_nothing}
            ex = Exec(V.prog, pv, mod.src, t, stl.models); R.ex = ex; ex.spec = None; ex.loopctx = [None]
            fn = mod.funcs[sym]; fn.parse(); ex.fn, ex.fr_mod = fn, mod
            if len(fn.params) != 2: raise Unsupported("signature changed")
            st = State(); cargs = [None, None]; v = z3.Const("value", z3.BitVecSort(fn.params[self.argi][1].w)); cargs[self.argi] = v
            rid = ex.new_region(st, "name", 32); cargs[1 - self.argi] = Ptr.mk(("r", rid)); st.mem[("%text", (rid, 0))] = bv(0)
            if v.size() < self.width: raise Unsupported("signature changed")
            rets = ex.call_fn(fn, cargs, st); n = 0
            allowed = self.allowed(mod)                              # text -> (values, or None for every other value)
            for s, rv in rets:
                if not pv.feasible(list(s.pc)): continue
                n += 1; g = s.mem[("%text", (rid, 0))]
                ex.oblige(s, g != 0, "name", "a name is given")
                for i, t in enumerate(self.lits):
                    if not pv.feasible(list(s.pc) + [g == i + 1]): continue
                    ok = allowed(t, v)
                    ex.oblige(s, z3.Implies(g == i + 1, ok), "name", "%r is the name of the value it is given for" % t)
            R.reach = dict(ok=n)
            if not n: raise Unsupported("no feasible return")
        V.guarded(R, pv, t0, body)
        return R


def nal_names(mod):
    def ok(t, v):
        if t == "unknown": return z3.UGE(v, 64)
        return mk_or(*[v == i for i, n in enumerate(ops.NAMES) if n == t])
    return ok


def profile_names(mod):
    en = enumerators(mod, "ProfileType"); want = dict(l.split(" ", 1) for l in ops.PROFILE_NAMES.strip().split("\n"))
    if any(len(x) > 1 for x in en.values()): raise Unsupported("two profiles share a value")
    words = {k: sorted(ops.profile_words(want.get(x[0], x[0]))) for k, x in en.items()}
    if len(set(map(tuple, words.values()))) != len(words): raise Unsupported("two profiles share a name in the table")
    def ok(t, v):
        w = sorted(ops.profile_words(t))
        if w == ["unknown"]: return mk_and(*[v != k for k in en])
        return mk_or(*[v == k for k in en if words[k] == w])
    return ok


THEOREMS = {"NalUnitTypeToString": ("NalUnitTypeToString", 1, 8, nal_names), "profileTypeToString": ("profileTypeToString(", 0, 8, profile_names)}


def task(names, tier="quick", seed=1):
    V = verify.Verifier()
    out = dict(violations=[], undecided=[], obligations=0, discharged=0, cases=0, distinct=0, tq=0, modelled=set(), called=set(), functions=[])
    for n in names:
        R = Names(V, *THEOREMS[n]).run(); done = sum(1 for o in R.obls if o.status == "proved")
        out["obligations"] += len(R.obls); out["discharged"] += done; out["tq"] += R.tq; out["modelled"] |= set(R.modelled); out["called"] |= set(R.called)
        und = R.undecided or (None if R.obls else "no obligations")
        out["functions"].append(dict(name="names of " + n, status="undecided" if und else "failed" if R.failed else "undecided" if R.unknown else "proved", obligations=len(R.obls), discharged=done, symbolic_cases=(R.reach or {}).get("ok", 0), queries=R.nq, seconds=round(R.time, 1)))
        if und: out["undecided"].append("names of %s: %s" % (n, und))
        elif R.failed:
            o = R.failed[0]
            out["violations"].append(dict(what="names of %s: %s" % (n, o.desc), loc=str(o.loc), failed=[dict(kind=x.kind, desc=x.desc, loc=str(x.loc)) for x in R.failed[:10]], soft=0))
        elif R.unknown: out["undecided"].append("names of %s: %d obligations undecided" % (n, len(R.unknown)))
    out["modelled"] = sorted(out["modelled"]); out["called"] = sorted(out["called"])
    return out


if __name__ == "__main__":
    import json, sys
    r = task(sys.argv[1:] or list(THEOREMS)); print(json.dumps(r, indent=1)[:3000])
