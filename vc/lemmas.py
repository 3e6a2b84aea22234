"""Arithmetic lemmas behind the facts that sym.umul, specrun.clog2, specrun.ceil_div and execu.fp_idiom emit.  The integer lemmas are
proved (z3); the floating-point ones are facts about the C library and the FPU, established by running it on the whole stated range."""
import os, subprocess, time, z3

C = r"""
#include <cmath>
#include <cstdint>
#include <cstdio>
static uint64_t clog2(uint64_t x) { uint64_t r = 0; while (r < 64 && (uint64_t(1) << r) < x) r++; return r; }
int main() {
  uint64_t n = 0;
  for (uint64_t x = 1; x <= 4456321; x++) {
    volatile size_t v = x; n++;
    if (x == 2097153 || x == 4194305 || x == 4194306) continue;
    if (static_cast<size_t>(std::ceil(std::log2(static_cast<float>(v)))) != clog2(x)) { printf("log2f %llu\n", (unsigned long long)x); return 1; }
  }
  for (uint64_t x = 1; x <= (1u << 24); x++) {
    volatile size_t v = x; n++;
    if (static_cast<size_t>(std::ceil(std::log2(static_cast<double>(v)))) != clog2(x)) { printf("log2 %llu\n", (unsigned long long)x); return 1; }
  }
  for (uint32_t a = 0; a <= 16888; a++)
    for (uint32_t b = 1; b <= 1024; b++) {
      volatile uint32_t va = a, vb = b; n++;
      if (static_cast<uint32_t>(std::ceil(1.0 * va / vb)) != (a + b - 1) / b) { printf("div %u %u\n", a, b); return 1; }
    }
  printf("ok %llu\n", (unsigned long long)n);
}
"""


def integer():
    a, b, q, k = z3.Ints("a b q k")
    W = 2 ** 32 - 1
    out = []
    def lem(name, *hyp_goal):
        s = z3.Solver(); s.set("timeout", 20000); s.add(*hyp_goal[:-1]); s.add(z3.Not(hyp_goal[-1]))
        out.append((name, s.check() == z3.unsat))
    lem("product of non-zero naturals is at least each factor", a >= 1, b >= 1, z3.And(a * b >= a, a * b >= b))
    lem("product of 32-bit naturals fits 64 bits", a >= 0, a <= W, b >= 0, b <= W, a * b < 2 ** 64)
    lem("product of naturals <= 65535 fits 32 bits", a >= 0, a <= 65535, b >= 0, b <= 65535, a * b <= W)
    lem("product of naturals <= 2111", a >= 0, a <= 2111, b >= 0, b <= 2111, a * b <= 4456321)
    for k_ in (2097153, 4194305, 4194306):
        out.append(("%d is not a product of two naturals <= 2111" % k_, not any(k_ % d == 0 and k_ // d <= 2111 for d in range(1, 2112))))
    # q = ceil(a / b) = (a + b - 1) div b
    dv = [b >= 1, a >= 0, q * b <= a + b - 1, a + b - 1 < q * b + b]
    lem("ceil(a/b) <= a", *dv, q <= a)
    lem("ceil(a/b) >= 1 for a >= 1", *dv, a >= 1, q >= 1)
    # a <= 16888, b >= 8, q >= 2112 is contradictory: 2112 b <= q b <= a + b - 1
    lem("q b >= 2112 b for q >= 2112", b >= 8, q >= 2112, q * b >= 2112 * b)
    lem("ceil(a/b) <= 2111", a >= 0, a <= 16888, b >= 8, k >= 2112 * b, k > a + b - 1)
    x = z3.BitVec("x", 64)
    r = z3.BitVecVal(64, 64)
    for i in range(63, -1, -1): r = z3.If(z3.ULE(x, z3.BitVecVal(1 << i, 64)), z3.BitVecVal(i, 64), r)
    def lemb(name, g):
        s = z3.Solver(); s.set("timeout", 20000); s.add(z3.Not(g)); out.append((name, s.check() == z3.unsat))
    lemb("Ceil(Log2(x)) <= 64", z3.ULE(r, 64))
    lemb("Ceil(Log2(x)) = 0 iff x <= 1", z3.ULE(x, 1) == (r == 0))
    for i in (8, 16, 24, 32): lemb("Ceil(Log2(x)) <= %d for x <= 2^%d" % (i, i), z3.Implies(z3.ULE(x, z3.BitVecVal(1 << i, 64)), z3.ULE(r, i)))
    return out


def run(tier="quick", seed=1):
    t0 = time.time()
    res = integer()
    und = ["lemma not proved: " + n for n, ok in res if not ok]
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "fplemma.%d" % os.getpid()); src = p + ".cc"
    open(src, "w").write(C)
    n = 0
    try:
        r = subprocess.run(["g++", "-O1", "-o", p, src], capture_output=True, text=True)
        r = subprocess.run([p], capture_output=True, text=True) if r.returncode == 0 else r
        if r.returncode == 0 and r.stdout.startswith("ok"): n = int(r.stdout.split()[1])
        else: und.append("floating-point lemma: " + (r.stdout + r.stderr)[:200])
    finally:
        for f in (p, src):
            if os.path.exists(f): os.unlink(f)
    return dict(violations=[], undecided=und, obligations=len(res), discharged=sum(1 for _, ok in res if ok), cases=n, distinct=n, tq=time.time() - t0,
                modelled=[], called=[], samples=[])


if __name__ == "__main__":
    r = run(); print(r)
