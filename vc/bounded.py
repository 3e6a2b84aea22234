"""Bounded differential run: the real parser (driver) against the concrete interpretation of its specification.
Used (1) to replay failed obligations on the real code, (2) as the labelled bounded stand-in for what is not proved."""
import os, random, time, json, re
import dsl, driver, conc
from conc import *


class Case:
    __slots__ = ("name", "args", "data", "start", "exp", "why", "line", "pos", "post", "trace")


def parse_dom(s):
    d = {}
    for x in (s or "").split(","):
        if "=" in x:
            n, v = x.split("=", 1)
            if ".." in v:
                a, b = v.split(".."); d[n.strip()] = ("r", int(a, 0), int(b, 0))
            else: d[n.strip()] = ("c", [int(y, 0) for y in v.split("|")])
    return d


def gen_st_rps(B, depth):
    """arguments of st_ref_pic_set: the sets already parsed for the same parameter set"""
    r = B.rnd; q = B.specs["st_ref_pic_set"].state
    n = r.choice((1, 2, 3, 4, 6)); k = r.randrange(n + 1); sets = VL(("p", q)); mp = r.choice((15, 15, 16, 3))
    i = 0
    tries = 0
    while len(sets) < k and tries < 200:
        tries += 1
        g = conc.Gen(r); g.bad = 0; g.flagp = r.choice((0.3, 0.6))
        try: sets.append(B.I.run("st_ref_pic_set", g, dict(stRpsIdx=len(sets), num_short_term_ref_pic_sets=n, sets=sets, max_num_pics=mp)))
        except (Reject, TooBig): pass
    num = n
    if r.random() < 0.02: num = r.choice((64, 65, 100))
    return dict(stRpsIdx=len(sets), num_short_term_ref_pic_sets=num, sets=sets, max_num_pics=mp)


class LineSet:
    """the constrained reads met so far, with how often each was broken on purpose"""
    def __init__(self, d): self.d = d
    def add(self, k): self.d.setdefault(k, 0)


def copy_world(w): return Obj(w.q, {k: dict(v) for k, v in w.d.items()})


class Bounded:
    def __init__(self, specs=None, defs=None, seed=1, types=None):
        if specs is None: specs, defs = dsl.load_specs()
        self.specs, self.defs = specs, defs
        self.T = types or driver.Types()
        self.I = conc.Interp(specs, defs, self.T)
        self.rnd = random.Random(seed)
        self.exe = None
        self.hooks = {"st_ref_pic_set": gen_st_rps}
        self.limits = {}
        self.base_hints = {}
        for sp in specs.values():
            for x in (sp.attrs.get("hints") or "").split():
                n, v = x.split("="); self.base_hints.setdefault(n, []).extend(int(y, 0) for y in v.split("|"))
        self.by_state = {sp.state: n for n, sp in specs.items() if sp.kind == "syntax" and sp.state}

    def build(self):
        if not self.exe: self.exe = driver.build(self.T, self.specs)
        return self.exe

    # ---------------------------------------------------------------- arguments
    def gen_obj(self, q, depth=0):
        """a state object as its own parser could have produced it"""
        n = self.by_state.get(q)
        if n is None: return self.rand_obj(q)
        for _ in range(200):
            g = conc.Gen(self.rnd, self.base_hints); g.flagp = self.rnd.choice((0.2, 0.5, 0.8)); g.bad = 0
            try: return self.I.run(n, g, self.gen_args(n, depth + 1))
            except (Reject, TooBig): continue
        raise SpecError("cannot generate " + q)

    def rand_obj(self, q):
        o = conc.default(self.T, ("s", q))
        for n, t in self.T.fields[q]:
            if t[0] == "u": o.d[n] = conc.wrap(t, self.rnd.choice((0, 0, 1, 1, 2, 3, self.rnd.randrange(64), self.rnd.getrandbits(8 * t[1]))))
        return o

    def gen_world(self, depth=0):
        """stored parameter sets that refer to each other, as earlier NAL units could have left them"""
        r = self.rnd; q = "h265nal::H265BitstreamParserState"
        if getattr(self, "worlds", None) and r.random() < 0.8: return copy_world(r.choice(self.worlds))
        w = Obj(q, {n: {} for n, t in self.T.fields[q]})
        for fld, key in (("vps", "vps_video_parameter_set_id"), ("sps", "sps_seq_parameter_set_id"), ("pps", "pps_pic_parameter_set_id")):
            qn = dict(self.T.fields[q])[fld][1]
            for _ in range(r.choice((0, 1, 1, 2)) if fld != "pps" else r.choice((0, 1, 2, 3))):
                try: o = self.gen_obj(qn, depth)
                except SpecError: continue
                if fld == "pps" and w.d["sps"] and r.random() < 0.9: o.d["pps_seq_parameter_set_id"] = r.choice(list(w.d["sps"]))
                w.d[fld][o.d[key]] = o
        self.worlds = (getattr(self, "worlds", None) or [])[-30:] + [w]
        return copy_world(w)

    def fresh(self, name, args):
        return {n: copy_world(args[n]) if ty == "world" else args[n] for n, ty, a in self.specs[name].params}

    def gen_args(self, name, depth=0):
        sp = self.specs[name]; out = {}
        if name in self.hooks: return self.hooks[name](self, depth)
        dom = parse_dom(sp.attrs.get("args"))
        reqs = [s.a[0] for s in sp.body if s.k == "require"]
        for _ in range(100):
            for n, ty, arg in sp.params:
                if ty in ("state", "sref", "sptr"): out[n] = self.gen_obj(arg, depth)
                elif ty == "world": out[n] = self.gen_world(depth)
                elif ty == "opt": out[n] = None if self.rnd.random() < 0.3 else self.gen_obj(arg, depth)
                elif ty == "vec": out[n] = self.gen_vec(name, n, arg, out)
                elif n in dom:
                    d = dom[n]; out[n] = self.rnd.randint(d[1], d[2]) if d[0] == "r" else self.rnd.choice(d[1])
                elif ty == "bool" or n.lower().endswith("flag"): out[n] = self.rnd.randrange(2)
                elif ty == "opts": out[n] = sum(self.rnd.randrange(2) << (8 * k) for k in range(5))
                elif ty == "sint": out[n] = self.rnd.choice((0, 1, -1, 2, -2, 5, -7))
                else: out[n] = self.rnd.choice((0, 0, 1, 1, 2, 3, 4, 6, 7, 8, 15, 17))
            f = conc.Frame(self.I, sp, conc.Gen(self.rnd), self.fresh(name, out), {}, 0)
            try:
                if all(f.num(e) for e in reqs): return out
            except SpecError: pass
        raise SpecError("no arguments for " + name)

    def gen_vec(self, name, n, arg, out):
        h = self.hooks.get(name + "." + n)
        if h: return h(self, out)
        q = re.search(r"unique_ptr<([\w:]+)", arg)
        m = re.search(r"vector<\s*(?:std::)?(uint\d+_t|unsigned \w+|bool)", arg)
        if q and "vector" in arg:
            return VL(("p", q.group(1)), [self.gen_obj(q.group(1)) for _ in range(self.rnd.randrange(5))])
        return VL(("u", 4, False, False), [self.rnd.randrange(16) for _ in range(self.rnd.randrange(6))])

    # ---------------------------------------------------------------- cases
    def expect(self, name, args, data, start):
        st = conc.Stream(data, start)
        a2 = self.fresh(name, args)
        self.post = {n: a2[n] for n, ty, a in self.specs[name].params if ty == "world"}
        try:
            o = self.I.run(name, st, a2); return o, None, st.pos
        except Reject as r: return None, str(r), st.pos

    def gen_stream(self, name, args, hints, mode, minlen=0, forgive=False):
        r = self.rnd
        h = dict(self.base_hints)
        if hints: h.update(hints)
        g = conc.Gen(r, h, mode); g.flagp = r.choice((0.1, 0.35, 0.5, 0.65, 0.9))
        if forgive:
            g.forgive = True; g.bad = 0; g.lines = self.limits.setdefault(name, {}); g.lines = LineSet(g.lines)
            ls = self.limits[name]
            if ls:
                lo = min(ls.values()); g.viol = r.choice([k for k, v in ls.items() if v <= lo + 1]); ls[g.viol] += 1
        start = r.choice((0, 0, 0, 1, 3, 5, 7, 8)) if "start" not in self.specs[name].attrs else 0
        for _ in range(start): g.put(r.getrandbits(1), 1)
        ok = True
        try: self.I.run(name, g, self.fresh(name, args))
        except Reject: ok = False
        except TooBig: return None, start, False
        return g, start, ok

    def make(self, name, n, hints=None, budget=60, want_ok=0.75):
        sp = self.specs[name]; out = []; r = self.rnd; t0 = time.time()
        acc = 0
        tries = 0
        args = None
        while len(out) < n and time.time() - t0 < budget and tries < 12 * n + 100:
            tries += 1
            try:
                if args is None or not sp.state or r.random() < 0.5 or all(p[1] == "uint" for p in sp.params): args = self.gen_args(name)
            except SpecError: raise
            c = Case(); c.name = name; c.args = args; c.line = None; c.pos = 0; c.post = {}
            if sp.kind == "function":
                c.data = b""; c.start = 0
                try:
                    c.exp = self.I.run(name, conc.Stream(b""), dict(args)); c.why = None; c.post = dict(self.I.outs)
                    out.append(c)
                except Reject: pass
                except TooBig: pass
                continue
            mode = 1 if r.random() < 0.15 else 0
            forgive = r.random() < 0.3
            if forgive: mode = 0
            try: g, start, ok = self.gen_stream(name, args, hints, mode, forgive=forgive)
            except SpecError as e:
                if forgive: continue
                raise
            except (IndexError, KeyError, ValueError, OverflowError, ZeroDivisionError, AttributeError, TypeError, RecursionError):
                if forgive: continue
                raise
            if g is None: continue
            if not ok and mode == 0 and r.random() < want_ok: continue
            data = g.bytes()
            x = r.random()
            if forgive and g.broken: pass
            elif x < 0.10 and len(data) > 0:                     # truncation
                data = data[:r.randrange(len(data) + 1)] if r.random() < 0.5 else data[:-1]
            elif x < 0.16 and len(data) > 0:                   # bit flips
                b = bytearray(data)
                for _ in range(r.choice((1, 1, 2))): b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                data = bytes(b)
            elif x < 0.7 and not g.ended:
                data += bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 8))))
            if start > len(data) * 8: continue
            c.data, c.start = data, start
            self.I.trace = []
            try: c.exp, c.why, c.pos = self.expect(name, args, data, start)
            except TooBig: continue
            c.trace = self.I.trace; self.I.trace = None
            c.post = self.post
            out.append(c)
        return out

    def line(self, c):
        sp = self.specs[c.name]; o = [c.name]
        for n, ty, arg in sp.params:
            v = c.args[n]
            if ty in ("state", "sref", "sptr", "world"): conc.ser(self.T, ("s", arg), v, o)
            elif ty == "opt": conc.ser(self.T, ("p", arg), v, o)
            elif ty == "vec": conc.ser(self.T, driver.ctext(arg.replace("uint32_t", "unsigned int").replace("uint8_t", "unsigned char")), v, o)
            else: o.append(str(int(v)))
        if sp.kind == "syntax":
            o.append(c.data.hex() or "-"); o.append(str(c.start))
        return " ".join(o)

    def judge(self, c, res):
        """None if the real code agrees with the specification, else a description"""
        sp = self.specs[c.name]
        if res.crash: return "the call does not return: " + res.crash
        if res.out is None: return None           # not run
        if "unknown" in res.out or "bad" in res.out: return None
        got = res.out["r"]
        if sp.kind == "function":
            for n, w in c.post.items():
                d = conc.diff(w, res.out["o_" + n], n)
                if d: return d
            return conc.diff(c.exp, got, "result")
        for n, w in c.post.items():
            d = conc.diff(w, res.out["post_" + n])
            if d: return "stored parameter sets: " + d
        if c.exp is None:
            return None if got is None else "input must be rejected (%s) but was accepted" % c.why
        if got is None: return "valid input was rejected"
        d = conc.diff(c.exp, got)
        if d: return d
        if "noend" not in sp.attrs and sp.attrs.get("form") != "data" and res.out["pos"] != c.pos: return "end position: expected bit %d, got %d" % (c.pos, res.out["pos"])
        return None

    def run(self, name, n, hints=None, budget=60):
        self.build()
        cases = self.make(name, n, hints, budget)
        lines = [self.line(c) for c in cases]
        res = driver.run_cases(self.exe, lines, timeout=budget * 2)
        bad = []; ub = []
        ran = 0
        for c, l, x in zip(cases, lines, res):
            if x.out is None and not x.crash: continue
            ran += 1
            j = self.judge(c, x)
            if j: bad.append((c, l, j))
            if x.ub: ub.append((c, l, x.ub))
        acc = sum(1 for c in cases if c.exp is not None)
        return dict(cases=len(cases), ran=ran, accepted=acc, distinct=len(set(lines)), bad=bad, ub=ub, sample=next((l[:1500] for c, l in zip(cases, lines) if c.exp is not None), None))


if __name__ == "__main__":
    import sys
    B = Bounded(seed=int(os.environ.get("VERIF_SEED", "1")))
    n = int(os.environ.get("N", "1000"))
    for name in sys.argv[1:] or [k for k, s in B.specs.items() if s.cpp]:
        t = time.time()
        try: r = B.run(name, n)
        except (conc.SpecError, RecursionError) as e: print(name, "SPEC ERROR", str(e)[:300]); continue
        print("%-28s cases=%d ran=%d accepted=%d bad=%d ub=%d %.1fs" % (name, r["cases"], r["ran"], r["accepted"], len(r["bad"]), len(r["ub"]), time.time() - t))
        seen = {}
        for c, l, j in r["bad"]:
            k = re.sub(r"\d+", "#", j)
            seen.setdefault(k, []).append((l, j))
        for k, v in list(seen.items())[:8]: print("    %dx %s | %s" % (len(v), v[0][1], v[0][0][-200:]))
        seen = {}
        for c, l, j in r["ub"]: seen.setdefault(re.sub(r"-?\d+ ", "# ", j), []).append(l)
        for k, v in list(seen.items())[:5]: print("    UB %dx %s" % (len(v), k))
        un = set()
