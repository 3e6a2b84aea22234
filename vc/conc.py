"""Concrete interpretation of the specifications (the oracle for replay and for the bounded stand-ins), and a generator of
bit streams driven by the specification."""
import random, math
import dsl
from driver import Types


class Reject(Exception):
    def __init__(self, why, line=None): super().__init__(why); self.line = line


class SpecError(Exception): pass
class TooBig(Exception): pass


class Obj:
    __slots__ = ("q", "d")
    def __init__(self, q, d): self.q, self.d = q, d
    def __repr__(self): return "<%s %r>" % (self.q.split("::")[-1], self.d)


class VL(list):
    """typed vector"""
    __slots__ = ("t",)
    def __init__(self, t, it=()): super().__init__(it); self.t = t


def wrap(t, v):
    if isinstance(v, bool): v = int(v)
    if t[0] == "u" and isinstance(v, int):
        w = 8 * t[1]; v &= (1 << w) - 1
        if t[2] and v >> (w - 1): v -= 1 << w
        if t[3]: v = 1 if v else 0
    return v


def default(T, t):
    k = t[0]
    if k == "u": return 0
    if k in ("p", "o"): return None
    if k == "v": return VL(t[1])
    if k == "a": return VL(t[2], [default(T, t[2]) for _ in range(t[1])])
    if k == "m": return {}
    if k == "s": return Obj(t[1], {n: default(T, f) for n, f in T.fields[t[1]] if f[0] != "o"})
    raise SpecError("default " + str(t))


class Stream:
    """reader"""
    def __init__(self, data, start=0, total=None):
        self.total = len(data) * 8 if total is None else total
        self.n = int.from_bytes(data, "big"); self.bl = len(data) * 8; self.pos = start; self.data = data
    def bits(self, pos, n): return (self.n >> (self.bl - pos - n)) & ((1 << n) - 1) if n else 0
    def u(self, n, name=None, rng=None):
        if n < 0 or self.pos + n > self.total: raise Reject("out of data")
        v = self.bits(self.pos, n); self.pos += n; return v
    def ue(self, name=None, rng=None):
        p = self.pos; z = 0
        while p < self.total and self.bits(p, 1) == 0 and z < 33: z += 1; p += 1
        if z > 31 or p + z + 1 > self.total: raise Reject("bad ue")
        v = self.bits(p, z + 1) - 1; self.pos = p + z + 1; return v
    def se(self, name=None, rng=None):
        k = self.ue(); return (k + 1) // 2 if k & 1 else -(k // 2)
    def skip(self, n):
        if self.pos + n > self.total: raise Reject("skip")
        self.pos += n
    def more(self):
        r = self.total - self.pos
        if r == 0: return False
        if r > 8: return True
        return self.bits(self.pos, r) != 1 << (r - 1)
    def trailing(self):
        if self.pos >= self.total: raise Reject("no trailing bits")
        if self.bits(self.pos, 1) != 1: raise Reject("stop bit")
        self.pos += 1
        while self.pos & 7:
            if self.pos >= self.total: raise Reject("trailing")
            if self.bits(self.pos, 1): raise Reject("alignment bit")
            self.pos += 1
    def trailing_opt(self):
        if self.pos >= self.total: return
        self.pos += 1
        if self.bits(self.pos - 1, 1) != 1: return
        while self.pos & 7 and self.pos < self.total:
            self.pos += 1
            if self.bits(self.pos - 1, 1): return
    def peek(self, n):
        if self.pos + n > self.total: return 0
        return self.bits(self.pos, n)
    def seek(self, p): self.pos = p
    def more_data(self): return self.pos < self.total
    def checksum(self):
        d = self.data[(self.pos + 7) // 8:]; d += b"\0" * (-len(d) % 4)
        s = sum(int.from_bytes(d[i:i + 4], "big") for i in range(0, len(d), 4))
        while s >> 32: s = (s >> 32) + (s & 0xffffffff)
        return VL(("u", 1, False, False), list((~s & 0xffffffff).to_bytes(4, "big")))


class Gen:
    """writer with random choices; same interface as Stream"""
    def __init__(self, rnd, hints=None, mode=0, maxbits=60000):
        self.r = rnd; self.v = 0; self.nb = 0; self.hints = hints or {}; self.mode = mode; self.maxbits = maxbits; self.ended = False; self.more_n = 0
        self.total = 1 << 40; self.bad = 0.004 if mode == 0 else 0.03; self.magic = self.hints.get("*", ())
    rp = None              # re-reading what was generated
    @property
    def pos(self): return self.nb if self.rp is None else self.rp
    @pos.setter
    def pos(self, x): pass
    def seek(self, p): self.rp = p if p < self.nb else None
    def more_data(self): return self.more()
    def checksum(self): return None
    def put(self, v, n):
        self.v = (self.v << n) | (v & ((1 << n) - 1)); self.nb += n
        if self.nb > self.maxbits: raise TooBig()
    def u(self, n, name=None, rng=None):
        if n < 0: raise Reject("neg")
        if n > 4096: raise TooBig()
        if self.rp is not None:
            if self.rp + n > self.nb: raise TooBig()
            v = self.bits(self.rp, n); self.rp += n
            if self.rp == self.nb: self.rp = None
            return v
        v = self.pick(name, 0, (1 << n) - 1, rng, n); self.put(v, n); return v
    # one constraint of the specification is broken on purpose and the rest of the stream is generated as if it held
    viol = None; forgive = False; broken = False; force = False
    def aim(self, key):
        if self.lines is not None: self.lines.add(key)
        if self.viol == key and not self.broken and self.r.random() < 0.6: self.force = True
    lines = None
    def pick(self, name, lo, hi, rng, n):
        r = self.r; x = r.random()
        if self.force:
            self.force = False
            c = [v for v in (rng[1] + 1, rng[1] + 1, rng[0] - 1, rng[1] + 2, rng[1] + r.randrange(1, 40), hi) if lo <= v <= hi and not rng[0] <= v <= rng[1]]
            if n is not None and n <= 32: c += [v for v in (r.randint(lo, hi), r.randint(lo, hi)) if not rng[0] <= v <= rng[1]]
            if c: return r.choice(c)
        hs = self.hints.get(name)
        if hs and x < 0.8:
            v = r.choice(hs)
            if lo <= v <= hi: return v
        a, b = rng if rng else (lo, hi)
        a = max(a, lo); b = min(b, hi)
        if a > b: a, b = lo, hi
        if rng and r.random() < self.bad:
            v = r.choice([b + 1, a - 1, b + 2, hi])
            if lo <= v <= hi: return v
        if hi == 1:
            p = self.flagp; return 1 if r.random() < p else 0
        if self.magic and r.random() < 0.05:
            v = r.choice(self.magic) 
            if a <= v <= b: return v
        x = r.random()
        if rng:
            if x < 0.12: return b if b - a < 70 or r.random() < 0.3 else a + r.randrange(8)
            if x < 0.35: return a
            if x < 0.8: return min(b, a + r.choice((0, 0, 1, 1, 2, 3, 4)))
            return r.randint(a, b) if b - a < 200 or r.random() < 0.5 else a + r.randrange(17)
        if n is not None and n <= 8:
            return r.randint(a, b) if x < 0.5 else r.choice((a, a, b, a + 1 if a < b else a, r.randint(a, b)))
        if n is not None:
            return r.choice((a, b, r.randint(a, b), r.randint(a, b), min(b, r.randrange(10))))
        # unranged exp-golomb
        if x < 0.35: return a
        if x < 0.90: return min(b, a + r.choice((1, 1, 2, 2, 3, 4, 5, 7)))
        if x < 0.96: return min(b, r.randrange(40))
        return r.choice((b, b - 1, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, r.randint(a, b)))
    flagp = 0.5
    def ue(self, name=None, rng=None):
        v = self.pick(name, 0, (1 << 32) - 2, rng, None)
        self.putue(v); return v
    def putue(self, v):
        x = v + 1; n = x.bit_length(); self.put(0, n - 1); self.put(x, n)
    def se(self, name=None, rng=None):
        r = self.r
        hs = self.hints.get(name)
        M = (1 << 31) - 1
        if self.force:
            self.force = False
            c = [v for v in (rng[1] + 1, rng[0] - 1, rng[1] + r.randrange(1, 40), rng[0] - r.randrange(1, 40)) if -M <= v <= M]
            if c: v = r.choice(c); self.putue(2 * v - 1 if v > 0 else -2 * v); return v
        if hs and r.random() < 0.6: v = max(-M, min(M, r.choice(hs)))
        elif rng and r.random() > self.bad:
            v = r.choice((rng[0], rng[1], 0 if rng[0] <= 0 <= rng[1] else rng[0], r.randint(*rng), r.randint(*rng)))
        else:
            v = r.choice((0, 0, 1, -1, 2, -3, 7, -12, 26, -26)) if r.random() < 0.95 else r.choice((M, -M, 128, -129, r.randint(-M, M)))
        self.putue(2 * v - 1 if v > 0 else -2 * v); return v
    def skip(self, n):
        for _ in range(0, n, 8):
            self.put(self.r.getrandbits(8), min(8, n - _))
    def more(self):
        if self.ended: return False
        self.more_n += 1
        return self.r.random() < (0.6 if self.more_n < 12 else 0.2)
    def trailing(self):
        self.put(1, 1)
        while self.nb & 7: self.put(0, 1)
        self.ended = True
    trailing_opt = trailing
    def peek(self, n): return self.r.getrandbits(min(n, 32)) if n else 0
    def bits(self, p, n): return (self.v >> (self.nb - p - n)) & ((1 << n) - 1)
    def bytes(self, tail=b""):
        v, nb = self.v, self.nb
        pad = -nb % 8
        return ((v << pad) | (self.r.getrandbits(pad) if pad and not self.ended else 0)).to_bytes((nb + pad) // 8, "big") + tail


class Interp:
    def __init__(self, specs, defs, types):
        self.specs, self.defs, self.T = specs, defs, types; self.cov = {}; self.trace = None

    # run a syntax on a stream: returns (Obj or raises Reject)
    def run(self, name, st, args, depth=0):
        if depth > 30: raise TooBig()
        sp = self.specs[name]
        env = {}; fields = []
        if sp.state:
            if sp.state not in self.T.fields: raise SpecError("no struct " + sp.state)
            for n, t in self.T.fields[sp.state]:
                if t[0] == "o": continue
                env[n] = default(self.T, t); fields.append((n, t))
        for n, ty, a in sp.params: env[n] = args[n]
        f = Frame(self, sp, st, env, dict(fields), depth)
        f.block(sp.body)
        if sp.kind == "function":
            self.outs = {x.split(":")[0]: f.env[x.split(":")[0]] for x in sp.attrs.get("outs", "").split()}
            return f.env["result"]
        o = Obj(sp.state, {n: f.env[n] for n, _ in fields})
        f.obj = o
        self.last_dontcare = f.dontcare
        for n in f.dontcare: o.d[n] = DONTCARE
        return o


DONTCARE = object()


class Frame:
    def __init__(self, I, sp, st, env, ft, depth): self.I, self.sp, self.st, self.env, self.ft, self.depth = I, sp, st, env, ft, depth; self.dontcare = set(); self.steps = 0

    def block(self, body):
        for s in body: self.stmt(s)

    def num(self, e):
        v = self.ev(e)
        if v is True or v is False: return int(v)
        if isinstance(v, int): return v
        if v is None: return 0
        if isinstance(v, (Obj, VL)): return 1
        raise SpecError("number expected %r" % (v,))

    def ev(self, e):
        k = e.k; a = e.a
        if k == "num": return a[0]
        if k == "var":
            n = a[0]
            if n in self.env: return self.env[n]
            if n in self.I.defs and not self.I.defs[n][0]: return self.ev(self.I.defs[n][1])
            th = self.env.get("this")
            if isinstance(th, Obj) and n in th.d: return th.d[n]
            raise SpecError("%s: unknown %s (line %s)" % (self.sp.file, n, e.line))
        if k == "bin":
            op = a[0]
            if op == "&&": return bool(self.num(a[1])) and bool(self.num(a[2]))
            if op == "||": return bool(self.num(a[1])) or bool(self.num(a[2]))
            x, y = self.num(a[1]), self.num(a[2])
            if op == "+": return x + y
            if op == "-": return x - y
            if op == "*": return x * y
            if op == "/":
                if y == 0: return 0
                q = abs(x) // abs(y); return q if (x < 0) == (y < 0) else -q
            if op == "%":
                if y == 0: return x
                r = abs(x) % abs(y); return -r if x < 0 else r
            if op == "<<":
                return x << y if y < 200 else 0
            if op == ">>": return x >> min(y, 300)
            if op == "&": return x & y
            if op == "|": return x | y
            if op == "^": return x ^ y
            if op == "==": return x == y
            if op == "!=": return x != y
            if op == "<": return x < y
            if op == "<=": return x <= y
            if op == ">": return x > y
            if op == ">=": return x >= y
        if k == "un":
            x = self.num(a[1])
            return (not x) if a[0] == "!" else (-x if a[0] == "-" else ~x)
        if k == "cond": return self.ev(a[1]) if self.num(a[0]) else self.ev(a[2])
        if k == "dot":
            x = self.ev(a[0])
            if x is None: raise SpecError("null.%s line %s" % (a[1], e.line))
            if isinstance(x, Obj): return x.d[a[1]]
            raise SpecError("dot %s" % a[1])
        if k == "idx":
            x = self.ev(a[0]); i = self.num(a[1])
            if isinstance(x, dict): return x.get(i & 0xffffffff)
            if not 0 <= i < len(x): raise SpecError("index %d of %d line %s" % (i, len(x), e.line))
            return x[i]
        if k == "fn": return self.fn(e)
        raise SpecError("expr " + k)

    def fn(self, e):
        n, args = e.a
        if n == "min": return min(self.num(args[0]), self.num(args[1]))
        if n == "max": return max(self.num(args[0]), self.num(args[1]))
        if n == "abs": return abs(self.num(args[0]))
        if n == "mul": return (self.num(args[0]) * self.num(args[1])) & (2**64 - 1)
        if n == "ceil_log2":
            x = self.num(args[0]); return (x - 1).bit_length() if x > 0 else 0
        if n in ("wf_each", "wf_world"): return True
        if n == "ceil_div":
            x, y = self.num(args[0]) & 0xffffffff, self.num(args[1]) & 0xffffffff; return -(-x // y) if y else 0
        if n == "len": return len(self.ev(args[0]))
        if n == "null": return self.ev(args[0]) is None
        if n == "has":
            m = self.ev(args[0]); return (self.num(args[1]) & 0xffffffff) in m
        if n == "more_rbsp_data": return self.st.more()
        if n == "pos": return self.st.pos
        if n == "byte_aligned": return self.st.pos % 8 == 0
        if n == "more_data": return self.st.more_data()
        if n == "checksum": return self.st.checksum()
        if n == "remaining": return self.st.total - self.st.pos
        if n == "next_bits": return self.st.peek(self.num(args[0]))
        if n == "can_read": return self.st.pos + self.num(args[0]) <= self.st.total
        if n == "u32": return self.num(args[0]) & 0xffffffff
        if n == "s32":
            x = self.num(args[0]) & 0xffffffff; return x - (1 << 32) if x >> 31 else x
        if n == "udiv": 
            y = self.num(args[1]); return (self.num(args[0]) & (2**64 - 1)) // y if y else 0
        if n == "ult": return (self.num(args[0]) & (2**64 - 1)) < (self.num(args[1]) & (2**64 - 1))
        if n in self.I.defs:
            ps, b = self.I.defs[n]
            saved = self.env; self.env = dict(saved)
            vals = []
            self.env = saved
            for x in args: vals.append(self.ev(x))
            self.env = dict(saved)
            for p, v in zip(ps, vals): self.env[p] = v
            try: return self.ev(b)
            finally: self.env = saved
        sp = self.I.specs.get(n)
        if sp is not None and sp.kind == "function":
            return self.I.run(n, self.st, {p[0]: self.ev(x) for p, x in zip(sp.params, args)}, self.depth + 1)
        raise SpecError("function " + n)

    def assign(self, lv, val):
        n = lv[0][1]
        if val is True or val is False: val = int(val)
        if len(lv) == 1:
            if isinstance(val, VL): val = VL(val.t, val)
            self.env[n] = val; return
        cur = self.env[n]
        for st in lv[1:-1]:
            if st[0] == "i": cur = cur[self.num(st[1])]
            elif st[0] == "f": cur = cur.d[st[1]]
            else: raise SpecError("lvalue")
        last = lv[-1]
        if last[0] == "push":
            cur.append(wrap(cur.t, val)); 
            if len(cur) > 20000: raise TooBig()
        elif last[0] == "f": cur.d[last[1]] = val
        else:
            i = self.num(last[1])
            if isinstance(cur, dict): cur[i & 0xffffffff] = val; return
            if not 0 <= i < len(cur): raise SpecError("store index %d of %d (line)" % (i, len(cur)))
            cur[i] = wrap(cur.t, val)

    def elt(self, lv):
        """element type at an lvalue being assigned by special forms"""
        t = self.ft.get(lv[0][1])
        if t is None:
            cur = self.env[lv[0][1]]; t = ("v", cur.t)
        for st in lv[1:]:
            t = t[1] if t[0] == "v" else t[2]
        return t

    def cover(self, key): self.I.cov[key] = self.I.cov.get(key, 0) + 1

    def stmt(self, s):
        k = s.k; a = s.a
        self.steps += 1
        if self.steps > 200000: raise TooBig()
        if k == "read":
            lv, let, d, ne, rng = a
            r = None
            if rng: r = (self.num(rng[0]), self.num(rng[1]))
            nm = lv[0][1]
            forgive = getattr(self.st, "forgive", False)
            if r and forgive: self.st.aim((self.sp.name, s.line))
            if d in "ufi":
                n = self.num(ne)
                if n > 32 and ne.k != "num": raise Reject("value wider than 32 bits")
                v = self.st.u(n, nm, r)
            elif d == "ue": v = self.st.ue(nm, r)
            else: v = self.st.se(nm, r)
            if r and not r[0] <= v <= r[1] and forgive and not self.st.broken: self.st.broken = True
            elif r and not r[0] <= v <= r[1]:
                self.cover((self.sp.name, s.line, "out of range")); raise Reject("%s out of range" % nm, s.line)
            self.assign(lv, v); self.cover((self.sp.name, s.line, "read"))
            if self.I.trace is not None and nm in self.ft: self.I.trace.append((self.sp.name, nm, v))
            return
        if k in ("assign", "default"):
            if k == "default": lv, e = a
            else: lv, let, e = a
            if e.k == "fn" and e.a[0] in ("filled", "empty", "inner"):
                if e.a[0] == "empty": return self.assign(lv, VL(self.elt(lv)[1]))
                if e.a[0] == "inner": return self.assign(lv, VL(self.elt(lv)[1]))
                t = self.elt(lv)
                n = self.num(e.a[1][0]); v = self.num(e.a[1][1])
                if n > 100000: raise TooBig()
                return self.assign(lv, VL(t[1], [wrap(t[1], v)] * n))
            if e.k == "fn" and e.a[0] == "local":          # local(size_bytes, n, v): local array
                sz, n, v = [self.num(x) for x in e.a[1]]
                return self.assign(lv, VL(("u", abs(sz), sz < 0, False), [v] * n))
            v = self.ev(e)
            return self.assign(lv, v)
        if k == "if":
            c = self.num(a[0])
            self.cover((self.sp.name, s.line, "then" if c else "else"))
            self.block(a[1] if c else a[2]); return
        if k == "reject":
            if self.num(a[0]) and getattr(self.st, "forgive", False) and not self.st.broken: self.st.broken = True
            elif self.num(a[0]): self.cover((self.sp.name, s.line, "reject")); raise Reject("spec line %d" % s.line, s.line)
            return
        if k in ("ensure", "require", "inv", "measure"): return
        if k == "dontcare":
            if a[1] is None or self.num(a[1]): self.dontcare.add(a[0])
            return
        if k == "skip": self.st.skip(self.num(a[0])); return
        if k == "seek": self.st.seek(self.num(a[0])); return
        if k == "trailing": self.st.trailing(); return
        if k == "trailing_opt": self.st.trailing_opt(); return
        if k == "for":
            v, init, c, step, body = s.a
            self.env[v] = self.num(init)
            while self.num(c):
                self.block(body); self.env[v] = self.num(step); self.tick()
            return
        if k == "while":
            while self.num(a[0]): self.block(a[1]); self.tick()
            return
        if k == "call":
            lv, let, f, args, opt, sub = a
            sp = self.I.specs[f]; stream = self.st
            if sub is not None:
                import ops
                stream = Stream(ops.unesc(bytes(self.st.u(8) for _ in range(int(self.ev(sub))))))
            vals = {p[0]: self.ev(x) for p, x in zip(sp.params, args)}
            for p in sp.params:
                if isinstance(vals[p[0]], bool): vals[p[0]] = int(vals[p[0]])
            mk = len(self.I.trace) if self.I.trace is not None else 0
            try: o = self.I.run(f, stream, vals, self.depth + 1)
            except Reject:
                if not opt: raise
                if self.I.trace is not None: del self.I.trace[mk:]
                self.cover((self.sp.name, s.line, "optional call fails")); o = None
            if self.I.trace is not None and len(lv) == 1 and not let:      # an overwritten result is not stored
                old = self.__dict__.setdefault("lastcall", {}).get(lv[0][1])
                if old:
                    for i in range(*old): self.I.trace[i] = None
                self.lastcall[lv[0][1]] = (mk, len(self.I.trace))
            self.assign(lv, o); return
        raise SpecError("stmt " + k)

    def tick(self):
        self.steps += 1
        if self.steps > 200000: raise TooBig()


# ------------------------------------------------------------------ comparison / serialisation
def diff(exp, got, path=""):
    """first difference or None.  exp: spec value, got: parsed JSON"""
    if exp is DONTCARE: return None
    if isinstance(exp, Obj):
        if not isinstance(got, dict): return "%s: expected an object, got %s" % (path, got)
        q = got.get("$")
        if q is not None and q != exp.q: return "%s: expected %s, got %s" % (path, exp.q, q)
        for n, v in exp.d.items():
            if n not in got: continue
            d = diff(v, got[n], path + "." + n if path else n)
            if d: return d
        return None
    if isinstance(exp, list):
        if not isinstance(got, list): return "%s: expected an array, got %s" % (path, got)
        if len(exp) != len(got): return "%s: expected %d elements, got %d" % (path, len(exp), len(got))
        for i, (x, y) in enumerate(zip(exp, got)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d: return d
        return None
    if isinstance(exp, dict):
        if not isinstance(got, dict): return "%s: map expected" % path
        ek = {str(k) for k in exp}
        if ek != set(got): return "%s: keys expected %s got %s" % (path, sorted(ek), sorted(got))
        for k, v in exp.items():
            d = diff(v, got[str(k)], "%s{%s}" % (path, k))
            if d: return d
        return None
    if exp is None: return None if got is None else "%s: expected null, got %s" % (path, str(got)[:80])
    if isinstance(exp, bool): exp = int(exp)
    if got is None or isinstance(got, (list, dict)): return "%s: expected %s, got %s" % (path, exp, str(got)[:80])
    return None if exp == got else "%s: expected %s, got %s" % (path, exp, got)


def ser(T, t, v, out):
    k = t[0]
    if k == "u": out.append(str(wrap(t, v if isinstance(v, int) else 0)))
    elif k == "v":
        out.append(str(len(v)))
        for x in v: ser(T, t[1], x, out)
    elif k == "a":
        for i in range(t[1]): ser(T, t[2], v[i] if i < len(v) else default(T, t[2]), out)
    elif k == "p":
        if v is None: out.append("0")
        else: out.append("1"); ser(T, ("s", t[1]), v, out)
    elif k == "m":
        out.append(str(len(v)))
        for x, y in v.items(): out.append(str(x)); ser(T, ("p", t[1]), y, out)
    elif k == "s":
        for n, f in T.fields[t[1]]:
            if f[0] != "o": 
                x = v.d.get(n)
                ser(T, f, default(T, f) if x is None or x is DONTCARE else x, out)
    elif k == "o": pass
