#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]
Decides one property on /repo's current tree: every function of the property is verified against its contract
(all obligations regenerated from the LLVM IR of the current source), then cross-checked on the real code.
exit 0: held (or undecided parts covered by the labelled bounded stand-in); exit 1: VIOLATION line."""
import sys, os, time, json, traceback, re, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
ctx = mp.get_context("fork")


# ------------------------------------------------------------------ worker pool: one process per task, hard timeout
def _entry(conn, fn, args):
    try: r = ("ok", fn(*args))
    except BaseException as e: r = ("err", "%s: %s\n%s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:]))
    try: conn.send(r)
    except BaseException as e: conn.send(("err", "result not transferable: %s" % e))
    conn.close()


def run_tasks(tasks, jobs=8, t_end=None):
    """tasks: list of (key, fn, args, timeout).  Returns {key: (status, value)}"""
    out = {}; todo = list(tasks); live = []
    while todo or live:
        while todo and len(live) < jobs:
            key, fn, args, to = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_entry, args=(b, fn, args)); p.start(); b.close()
            live.append((key, p, a, time.time() + to))
        done = []
        for it in live:
            key, p, a, dl = it
            if a.poll(0):
                try: out[key] = a.recv()
                except EOFError: out[key] = ("err", "worker died")
                p.join(5); done.append(it)
            elif not p.is_alive(): out[key] = ("err", "worker died (exit %s)" % p.exitcode); done.append(it)
            elif time.time() > dl or (t_end and time.time() > t_end):
                p.kill(); p.join(); out[key] = ("timeout", None); done.append(it)
        for it in done: live.remove(it); it[2].close()
        if not done: time.sleep(0.02)
    return out


# ------------------------------------------------------------------ tasks
SAFE = ("null", "bounds", "assert", "shift", "overflow", "div", "ub", "term")


def summarize(R):
    d = dict(name=R.name, status=R.status, undecided=R.undecided, n=len(R.obls), discharged=sum(1 for o in R.obls if o.status == "proved"),
             failed=[dict(kind=o.kind, desc=o.desc, loc=str(o.loc), info=str(o.info)) for o in R.failed],
             unknown=[dict(kind=o.kind, desc=o.desc, loc=str(o.loc)) for o in R.unknown],
             time=R.time, tq=R.tq, nq=R.nq, notes=R.notes[:10], reach=R.reach, loops=len(R.loops),
             inlined=sorted(R.inlined), modelled=sorted(R.modelled), called=sorted(R.called), unaligned=0, hints=[], kinds={})
    if "ex" in R.__dict__: d["unaligned"] = getattr(R.ex, "unaligned", 0)
    for o in R.obls: d["kinds"][o.kind] = d["kinds"].get(o.kind, 0) + 1
    return d


def t_proof(name, deadline):
    import verify
    V = verify.Verifier()
    R = V.verify(name, deadline)
    d = summarize(R)
    for o in R.failed[:6]:
        if o.model is not None and "spec" in R.__dict__:
            try: d["hints"].append(verify.model_hints(R, o))
            except Exception as e: d["hints_err"] = str(e)[:200]
    d["magic"] = verify.magic(R)
    return d


def t_bounded(names_n, seed, budget, hints):
    """bounded differential runs of some specified functions"""
    import bounded
    B = bounded.Bounded(seed=seed); out = {}
    for name, n in names_n:
        t = time.time()
        h = [None]
        r = B.run(name, n, hints, budget)
        out[name] = dict(cases=r["cases"], ran=r["ran"], accepted=r["accepted"], distinct=r["distinct"], time=time.time() - t,
                         bad=[(l, j) for c, l, j in r["bad"][:200]], ub=[(l, u) for c, l, u in r["ub"][:50]], sample=r.get("sample"))
    return out


def t_driver():
    import bounded
    B = bounded.Bounded(); B.build(); return True


def t_ir():
    import ir
    ir.Program().compile_all(); return True


def demo_line(l): return l if len(l) < 3000 else l[:3000] + "..."


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\w+) fn=(\S+) match=\"(.*?)\" (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


# ------------------------------------------------------------------ main
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.samples = {}
        self.viol = []         # (what, replay dict, no_input)
        self.known_hit = {}
        self.known = known_findings(prop)
        self.log = []

    def replay_path(self, d):
        dr = os.path.join(ROOT, "build", "replay"); os.makedirs(dr, exist_ok=True)
        p = os.path.join(dr, "%s_%d.json" % (self.prop, len(self.viol)))
        json.dump(d, open(p, "w"), indent=1); return p

    def violation(self, what, d, no_input=False):
        if len(self.viol) >= 6: return
        d = dict(d); d["property"] = self.prop; d["what"] = what
        p = self.replay_path(d)
        self.viol.append((what, p, no_input))

    def concrete(self, fn, line, desc):
        """mismatch of the real code: known or violation"""
        for kf, rx, txt in self.known:
            if kf == fn and rx.search(desc):
                self.known_hit[(kf, rx.pattern)] = txt; return False
        self.violation("%s: %s" % (fn, desc), dict(function=fn, driver_line=line, difference=desc, replay="python3-vt vc/replay.py <this file>"))
        return True

    def main(self):
        import props
        t0 = time.time()
        cfg = props.PROPS[self.prop]
        quick = self.tier == "quick"
        t_end = t0 + (800 if quick else 3000)
        fns = list(cfg.get("fns", []))
        bnd = dict(cfg.get("bounded", {}))
        for f in fns: bnd.setdefault(f, 600)
        for f in cfg.get("nobounded", []): bnd.pop(f, None)
        need_drv = bool(bnd) or cfg.get("driver")
        # 1. build what is needed from the current tree
        b = run_tasks([("ir", t_ir, (), 400)] + ([("drv", t_driver, (), 600)] if need_drv else []))
        for k, v in b.items():
            if v[0] != "ok":
                print("note: build step %s: %s" % (k, str(v[1])[-800:])); self.log.append("%s build failed" % k)
        drv = need_drv and b["drv"][0] == "ok"
        # 2. deductive verification of every function, and the cross-check run
        dl = cfg.get("deadline", 420 if quick else 1500)
        tasks = [(("proof", f), t_proof, (f, dl), dl + 60) for f in fns]
        extra = cfg.get("tasks", [])          # (key, module, func, args)
        for key, mod, func, args in extra:
            tasks.append((("extra", key), t_extra, (mod, func, args, self.tier, self.seed), dl + 60))
        mult = 1 if quick else 25
        if drv:
            for f, n in bnd.items():
                tasks.append((("bounded", f), t_bounded, ([(f, n * mult)], self.seed * 1000003 + hash_(f), 40 if quick else 600, None), 120 if quick else 1200))
        res = run_tasks(tasks, 8, t_end)
        proofs = {}; undecided = []; hints = {}; failed = {}
        for f in fns:
            s, v = res[("proof", f)]
            if s != "ok":
                undecided.append((f, "verifier %s%s" % (s, ": " + v.splitlines()[0] if v else ""))); continue
            proofs[f] = v
            drop = cfg.get("not_judged", {}).get(f, ())          # obligation kinds that are no part of this property; named in the evidence
            if drop:
                n = len(v["failed"]) + len(v["unknown"])
                v["failed"] = [o for o in v["failed"] if o["kind"] not in drop]; v["unknown"] = [o for o in v["unknown"] if o["kind"] not in drop]
                v["n"] -= n - len(v["failed"]) - len(v["unknown"]); self.not_judged = True
                self.log.append("%s: %d undischarged obligations of kind %s are not judged under this property (see assumptions)" % (f, n - len(v["failed"]) - len(v["unknown"]), "/".join(drop)))
                if v["status"] == "failed" and not v["failed"] and not v["unknown"]: v["status"] = "proved"
            if cfg.get("safety"):                  # only memory-safety and arithmetic obligations are judged here
                n = len(v["failed"]); v["failed"] = [o for o in v["failed"] if o["kind"] in SAFE]; v["unknown"] = [o for o in v["unknown"] if o["kind"] in SAFE]
                if n and not v["failed"]: v["status"] = "undecided"; v["undecided"] = v["undecided"] or "an obligation of the functional contract fails, so the safety argument is incomplete"
            if v["status"] == "proved" and not (v["reach"] and v["reach"].get("ok")) and v["reach"] is not None:
                v["status"] = "undecided"; v["undecided"] = "vacuous: no accepting path"
            if v["status"] == "failed" and not v["undecided"]: failed[f] = v
            elif v["status"] != "proved": undecided.append((f, v["undecided"] or "%d obligations undecided, first: %s %s" % (len(v["unknown"]), v["unknown"][0]["kind"], v["unknown"][0]["desc"]) if v["unknown"] or v["undecided"] else "no obligations"))
        bres = {}
        def take(key, r):
            for f, d in r.items():
                t = bres.setdefault(f, dict(cases=0, ran=0, accepted=0, distinct=0, bad=0, ub=0))
                for k in ("cases", "ran", "accepted", "distinct"): t[k] += d[k]
                t["bad"] += len(d["bad"]); t["ub"] += len(d["ub"]); self.samples.setdefault(f, d.get("sample"))
                seen = set()
                for l, j in d["bad"]:
                    if cfg.get("safety") and not j.startswith("the call does not return"): continue
                    k = re.sub(r"\d+", "#", j)
                    if k in seen: continue
                    seen.add(k); self.concrete(f, l, j)
                if cfg.get("ub"):
                    for l, u in d["ub"][:3]: self.concrete(f, l, "undefined behaviour: " + u)
        for k, (s, v) in res.items():
            if k[0] == "bounded":
                if s == "ok": take(k, v)
                else: self.log.append("bounded run of %s: %s %s" % (k[1], s, (v or "")[:300]))
        ext = {}
        for key, mod, func, args in extra:
            s, v = res[("extra", key)]
            if s != "ok": undecided.append((key, "task %s %s" % (s, (v or "")[-600:]))); continue
            ext[key] = v
            for w in v.get("violations", []):
                if cfg.get("safety") and w.get("driver_line") and not w["what"].startswith(("the call does not return", "undefined behaviour")): continue
                if w.get("input") is not None or w.get("driver_line"):
                    if any(kf == key and rx.search(w["what"]) for kf, rx, t in self.known): self.known_hit[(key, w["what"])] = w["what"]
                    else: self.violation("%s: %s" % (key, w["what"]), w)
                else: failed[key] = dict(failed=[dict(kind="obligation", desc=w["what"], loc=w.get("loc", ""), info="")], unaligned=w.get("soft", 0), hints=[], magic=[], detail=w)
            for w in v.get("undecided", []): undecided.append((key, w))
        # 3. failed or undecided: directed search for a failing input on the real code
        esc = [f for f in list(failed) + [u[0] for u in undecided] if f in bnd and drv]
        if esc and not self.viol:
            more = []
            for f in dict.fromkeys(esc):
                v = proofs.get(f) or failed.get(f) or {}
                hs = v.get("hints") or []
                mg = v.get("magic") or []
                left = max(60, min(240 if quick else 900, t_end - time.time() - 60))
                for i in range(8 if len(esc) == 1 else 3):
                    h = dict(hs[i % len(hs)]) if hs and i % 2 == 0 else {}
                    if mg: h["*"] = mg
                    more.append((("bounded", f, i), t_bounded, ([(f, 6000 if quick else 40000)], self.seed * 7919 + i * 31 + hash_(f), left / 3, h), left))
            r2 = run_tasks(more, 8, t_end)
            for k, (s, v) in r2.items():
                if s == "ok": take(k, v)
        # 4. verdict on failed obligations without a concrete input
        concrete_fns = " ".join(v[0] for v in self.viol)
        for f, v in failed.items():
            if f + ":" in concrete_fns: continue
            if v.get("unaligned") or props.SOFT.get(f):
                undecided.append((f, "failed obligation after loss of correspondence: %s" % v["failed"][0]["desc"])); continue
            if self.viol: continue
            o = v["failed"][0]
            self.violation("%s: %s %s (%s)" % (f, o["kind"], o["desc"], o["loc"]), dict(function=f, failed_obligations=v["failed"][:20], detail=v.get("detail"), hints=[{k: x for k, x in h.items()} for h in v.get("hints", [])][:2]), True)
        # 5. report
        nobl = sum(v["n"] for v in proofs.values()) + sum(v.get("obligations", 0) for v in ext.values())
        ndis = sum(v["discharged"] for v in proofs.values()) + sum(v.get("discharged", 0) for v in ext.values())
        for f, v in proofs.items():
            print("%-34s %-9s obligations=%d discharged=%d %.1fs" % (f, v["status"], v["n"], v["discharged"], v["time"]))
        for k, v in ext.items(): print("%-34s obligations=%s discharged=%s bounded_cases=%s" % (k, v.get("obligations", 0), v.get("discharged", 0), v.get("cases", 0)))
        for f, d in bres.items(): print("%-34s bounded cross-check: ran=%d accepted=%d mismatches=%d" % (f, d["ran"], d["accepted"], d["bad"]))
        for f, u in undecided: print("UNDECIDED %s: %s  [bounded stand-in only]" % (f, str(u)[:300]))
        for l in self.log: print("note:", l[:400])
        for (k, m), t in self.known_hit.items(): print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, t))
        self.evidence(cfg, proofs, ext, bres, undecided, nobl, ndis, time.time() - t0, fns, bnd)
        for what, p, ni in self.viol:
            print("  violated: " + what[:400])
            print("VIOLATION property=%s replay=%s%s" % (self.prop, p, " no-failing-input-found" if ni else ""))
        print("%s %s: %d obligations, %d discharged, %d undecided functions, %.0fs" % (self.prop, self.tier, nobl, ndis, len(undecided), time.time() - t0))
        return 1 if self.viol else 0

    def evidence(self, cfg, proofs, ext, bres, undecided, nobl, ndis, wall, fns, bnd):
        import props
        modelled = sorted({m for v in proofs.values() for m in v["modelled"]} | {m for v in ext.values() for m in v.get("modelled", [])})
        called = sorted({m for v in proofs.values() for m in v["called"]} | {m for v in ext.values() for m in v.get("called", [])})
        inl = sorted({m for v in proofs.values() for m in v["inlined"]})
        trusted = list(props.TRUSTED) + list(cfg.get("trusted", []))
        if modelled: trusted.append("library functions replaced by models in the verifier: " + ", ".join(m[:90] for m in modelled))
        und = dict((f, str(u)[:300]) for f, u in undecided)
        cov = dict(obligations=nobl, discharged=ndis, checker_cmd="python3-vt vc/check.py %s --tier %s" % (self.prop, self.tier), trusted_base=trusted,
                   functions_under_contract=[dict(function=f, status=v["status"], obligations=v["n"], discharged=v["discharged"], kinds=v["kinds"], solver_s=round(v["tq"], 2), queries=v["nq"], wall_s=round(v["time"], 2), matched_loops=v["loops"], accepting_and_rejecting_paths=v["reach"], undecided=v["undecided"]) for f, v in proofs.items()],
                   other_obligations={k: {a: b for a, b in v.items() if a not in ("violations", "modelled", "called")} for k, v in ext.items()},
                   back_end="z3 %s (bit-vectors, arrays, uninterpreted functions)" % z3ver(), solver_s=round(sum(v["tq"] for v in proofs.values()) + sum(v.get("tq", 0) for v in ext.values()), 2),
                   callees_used_through_their_contract=called, helper_functions_inlined=len(inl),
                   undecided_functions=und,
                   bounded_stand_in=dict(functions=sorted(set(bres)), note="differential runs of the real code (ASan/UBSan build) against the concrete interpretation of the same contract; labelled bounded, never counted as proved", per_function=bres),
                   evaluations=sum(d["ran"] for d in bres.values()) + sum(v.get("cases", 0) for v in ext.values()),
                   distinct_nontrivial=sum(min(d["distinct"], d["accepted"]) for d in bres.values()) + sum(v.get("distinct", 0) for v in ext.values()),
                   rule="inputs generated from the contract itself (valid, range-violating, truncated, bit-flipped); non-trivial = accepted by the contract, distinct = different command lines",
                   samples=([v["samples"][0][:1500] for v in ext.values() if v.get("samples")] + [x for x in self.samples.values() if x])[:4] or [props.SAMPLE],
                   explanation=cfg.get("explanation", "deductive verification of the listed functions against contracts; undecided functions are only covered by the bounded stand-in"))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=cfg.get("level", "proof"), coverage=cov,
                  assumptions=list(props.ASSUMPTIONS) + list(cfg.get("assumptions", [])), wall_s=round(wall, 2), violations=len(self.viol))
        d = os.path.join(ROOT, "evidence"); os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)


def t_extra(mod, func, args, tier, seed):
    return getattr(__import__(mod), func)(*args, tier=tier, seed=seed)


def hash_(s):
    h = 0
    for c in s: h = (h * 131 + ord(c)) % 1000003
    return h


def z3ver():
    try:
        import z3; return z3.get_version_string()
    except Exception: return "?"


def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try: rc = Check(prop, tier, seed).main()
    except BaseException as e:
        traceback.print_exc(); print("check error:", e); rc = 3
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__": main()
