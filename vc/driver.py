"""Builds the C++ replay driver from /repo's current tree: it links the real library (ASan + UBSan, assertions on) and
exposes every specified function; state objects are loaded / dumped by visitors generated from debug information."""
import os, re, sys, json, subprocess, hashlib, threading, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import ir, dsl
from dit import strip, tparams
from ir import IRError

FLAGS = ["-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fsanitize-recover=undefined",
         "-fno-access-control", "-fno-omit-frame-pointer", "-w"]


# ------------------------------------------------------------------ types
def ctype(mod, mid):
    mid = strip(mod, mid)
    if mid is None: return ("o",)
    s = mod.meta[mid]
    size = int(mod.mget(mid, "size") or 0) // 8
    if s.startswith("!DIBasicType"):
        enc = mod.mget(mid, "encoding")
        if enc == "DW_ATE_float": return ("o",)
        return ("u", size, enc in ("DW_ATE_signed", "DW_ATE_signed_char"), enc == "DW_ATE_boolean")
    if "DW_TAG_enumeration_type" in s: return ("u", size, False, False)
    if "DW_TAG_pointer_type" in s or "DW_TAG_reference_type" in s: return ("o",)
    if "DW_TAG_array_type" in s:
        els = mod.mget(mid, "elements"); n = 1
        for x in re.findall(r"!(\d+)", mod.meta[els]): n *= int(mod.mget(int(x), "count"))
        return ("a", n, ctype(mod, mod.mget(mid, "baseType")))
    nm = mod.mget(mid, "name") or ""
    def tp(i): return tparams(mod, mid)[i]
    if not tparams(mod, mid) and "<" in nm: return ctext(nm)
    if nm.startswith("vector<"): return ("v", ctype(mod, tp(0)))
    if nm.startswith("unique_ptr<") or nm.startswith("shared_ptr<"): return ("p", mod.qualname(strip(mod, tp(0))))
    if nm.startswith("map<"): return ("m", mod.qualname(strip(mod, tparams(mod, strip(mod, tp(1)))[0])))
    if nm.startswith("array<"): return ("a", tp(1)[1], ctype(mod, tp(0)))
    if "DW_TAG_structure_type" in s or "DW_TAG_class_type" in s:
        q = mod.qualname(mid)
        if q.startswith("std::"): return ("o",)
        return ("s", q)
    return ("o",)


SC = {"unsigned int": (4, False, False), "int": (4, True, False), "unsigned char": (1, False, False), "char": (1, True, False), "unsigned short": (2, False, False),
      "unsigned long": (8, False, False), "long": (8, True, False), "bool": (1, False, True), "signed char": (1, True, False), "short": (2, True, False)}


def targs(t):
    """top-level template arguments of 'X<a, b>'"""
    a = t[t.index("<") + 1:t.rindex(">")]; out = []; d = 0; cur = ""
    for c in a:
        if c == "<": d += 1
        if c == ">": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    return out + [cur.strip()]


def ctext(t):
    t = re.sub(r"^(const |struct |class )+", "", t.strip())
    if t in SC: return ("u",) + SC[t]
    b = t.replace("std::", "").replace("__cxx11::", "")
    if b.startswith("vector<"): return ("v", ctext(targs(t)[0]))
    if b.startswith("unique_ptr<") or b.startswith("shared_ptr<"): return ("p", re.sub(r"^(const |struct |class )+", "", targs(t)[0]))
    if b.startswith("map<"): return ("m", targs(targs(t)[1])[0])
    if b.startswith("array<"): return ("a", int(re.sub(r"\D", "", targs(t)[1])), ctext(targs(t)[0]))
    if t.startswith("h265nal::"): return ("s", t)
    return ("o",)


class Types:
    """field tables of every h265nal struct/class (all headers of the current tree)"""
    def __init__(self):
        inc = os.path.join(ir.REPO, "include")
        hs = sorted(f for f in os.listdir(inc) if f.endswith(".h"))
        src = "".join('#include "%s"\n' % h for h in hs) + "int verif_types_anchor;\n"
        key = hashlib.sha256((ir.headers_hash() + src).encode()).hexdigest()[:24]
        out = os.path.join(ir.cache_dir(), "types_%s.ll" % key)
        if not os.path.exists(out):
            f = out + ".%d.cc" % os.getpid(); open(f, "w").write(src)
            r = subprocess.run([ir.CLANG, "-std=c++14", "-O0", "-g", "-fstandalone-debug", "-fno-eliminate-unused-debug-types"] + ir.DEFINES +
                               ["-I" + inc, "-I" + ir.config_inc(), "-w", "-S", "-emit-llvm", f, "-o", out + ".%d" % os.getpid()], capture_output=True, text=True)
            os.unlink(f)
            if r.returncode: raise IRError("types: " + r.stderr[-500:])
            os.replace(out + ".%d" % os.getpid(), out)
        self.mod = m = ir.Module(out, "types")
        self.fields = {}; self.bases = {}; self.poly = set()
        for q, mid in m.structs().items():
            if not q.startswith("h265nal::"): continue
            els = m.mget(mid, "elements"); fl = []
            try: mem = m.members(mid)
            except Exception: continue
            for (n, o, sz, b) in mem:
                if n is None: continue
                if n.startswith("_vptr"): self.poly.add(q); continue
                fl.append((n, ctype(m, b)))
            self.fields[q] = fl
            if els is not None:
                for x in re.findall(r"!(\d+)", m.meta[els]):
                    s = m.meta.get(int(x), "")
                    if "DW_TAG_inheritance" in s:
                        self.bases.setdefault(m.qualname(m.mget(int(x), "baseType")), []).append(q)
        self.headers = hs

    def has_bitbuffer(self, q): return q in ("h265nal::BitBuffer", "h265nal::BitBufferWriter")


PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <array>
#include <memory>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <type_traits>
using namespace h265nal;
struct In { std::vector<std::string> t; size_t i = 0;
  const std::string& next() { static std::string z = "0"; return i < t.size() ? t[i++] : z; }
  long long s() { return strtoll(next().c_str(), nullptr, 10); }
  unsigned long long u() { const std::string& x = next(); return x[0]=='-' ? (unsigned long long)strtoll(x.c_str(), nullptr, 10) : strtoull(x.c_str(), nullptr, 10); }
  std::vector<uint8_t> hex() { std::string h = next(); std::vector<uint8_t> o; if (h == "-") return o;
    for (size_t k = 0; k + 1 < h.size(); k += 2) o.push_back((uint8_t)strtoul(h.substr(k, 2).c_str(), nullptr, 16)); return o; } };
typedef std::string Out;
template <class T> struct V { static void dump(Out& o, const T& x) { o += "null"; } static void load(In&, T&) {} };
template <class T> void dump(Out& o, const T& x);
template <class T> void load(In& in, T& x);
template <class T> struct IsV : std::false_type {}; template <class T, class A> struct IsV<std::vector<T, A>> : std::true_type {};
template <class T> struct IsP : std::false_type {}; template <class T, class D> struct IsP<std::unique_ptr<T, D>> : std::true_type {}; template <class T> struct IsP<std::shared_ptr<T>> : std::true_type {};
template <class T> struct IsM : std::false_type {}; template <class K, class T> struct IsM<std::map<K, T>> : std::true_type {};
template <class T> struct IsA : std::false_type {}; template <class T, size_t N> struct IsA<std::array<T, N>> : std::true_type {};
template <class T> struct Mk { static T* make() { if constexpr (std::is_abstract<T>::value) return nullptr; else return new T(); } };
template <class T> void dump(Out& o, const T& x) {
  if constexpr (std::is_enum<T>::value) o += std::to_string((long long)x);
  else if constexpr (std::is_same<T, bool>::value) { unsigned char c; memcpy(&c, &x, 1); o += std::to_string((unsigned)c); }
  else if constexpr (std::is_integral<T>::value) o += std::to_string(+x);
  else if constexpr (IsV<T>::value) { o += "["; for (size_t i = 0; i < x.size(); i++) { if (i) o += ","; typename T::value_type e_ = {}; if constexpr (std::is_same<typename T::value_type, bool>::value) { o += x[i] ? "1" : "0"; } else dump(o, x[i]); } o += "]"; }
  else if constexpr (IsP<T>::value) { if (!x) o += "null"; else dump(o, *x); }
  else if constexpr (IsM<T>::value) { o += "{"; bool f = true; for (auto& kv : x) { if (!f) o += ","; f = false; o += "\"" + std::to_string(kv.first) + "\":"; dump(o, kv.second); } o += "}"; }
  else if constexpr (IsA<T>::value || std::is_array<T>::value) { o += "["; bool f = true; for (auto& e : x) { if (!f) o += ","; f = false; dump(o, e); } o += "]"; }
  else if constexpr (std::is_same<T, std::string>::value) { o += "\""; for (unsigned char c : x) { char b[8]; if (c < 32 || c == '"' || c == '\\' || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } o += "\""; }
  else if constexpr (std::is_class<T>::value) V<T>::dump(o, x);
  else o += "null";
}
template <class T> void load(In& in, T& x) {
  if constexpr (std::is_enum<T>::value) x = (T)in.s();
  else if constexpr (std::is_same<T, bool>::value) x = in.u() != 0;
  else if constexpr (std::is_integral<T>::value) { if constexpr (std::is_signed<T>::value) x = (T)in.s(); else x = (T)in.u(); }
  else if constexpr (IsV<T>::value) { size_t n = in.u(); x.resize(n); for (size_t i = 0; i < n; i++) { if constexpr (std::is_same<typename T::value_type, bool>::value) x[i] = in.u() != 0; else load(in, x[i]); } }
  else if constexpr (IsP<T>::value) { if (in.u() == 0) x = nullptr; else { x.reset(Mk<typename T::element_type>::make()); if (x) load(in, *x); } }
  else if constexpr (IsM<T>::value) { size_t n = in.u(); for (size_t i = 0; i < n; i++) { auto k = (typename T::key_type)in.u(); load(in, x[k]); } }
  else if constexpr (IsA<T>::value || std::is_array<T>::value) { for (auto& e : x) load(in, e); }
  else if constexpr (std::is_class<T>::value) V<T>::load(in, x);
}
template <> struct Mk<NaluChecksum> { static NaluChecksum* make() { return nullptr; } };
static size_t bitpos(BitBuffer& b) { size_t by = 0, bi = 0; b.GetCurrentOffset(&by, &bi); return by * 8 + bi; }
template <int N> struct Rk : Rk<N - 1> {}; template <> struct Rk<0> {};
static int g_print = 0; static uint32_t g_nut = 0; static ParsingOptions g_po;
template <class T> static auto pr_one(const T& t, FILE* f, int ind, Rk<3>) -> decltype(t.fdump(f, ind, g_nut, g_po)) { t.fdump(f, ind, g_nut, g_po); }
template <class T> static auto pr_one(const T& t, FILE* f, int ind, Rk<2>) -> decltype(t.fdump(f, ind, g_po)) { t.fdump(f, ind, g_po); }
template <class T> static auto pr_one(const T& t, FILE* f, int ind, Rk<1>) -> decltype(t.fdump(f, ind)) { t.fdump(f, ind); }
template <class T> static void pr_one(const T& t, FILE* f, int ind, Rk<0>) {}
static void jstr(Out& o, const std::string& s) { o += "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } o += "\""; }
static std::string squash(const std::string& s) { std::string r; for (unsigned char c : s) { if (c <= 32) { if (!r.empty() && r.back() != ' ') r += ' '; } else r += (char)c; } return r; }
template <class R> static void print_all(Out& o, const R& r) {   // the printed text at several indentations
  if (!g_print || !r) return;
  std::string base; bool same = true;
  for (int ind : {0, -1, 3}) {
    char* b = nullptr; size_t n = 0; FILE* f = open_memstream(&b, &n); pr_one(*r, f, ind, Rk<3>()); fclose(f);
    std::string s = squash(std::string(b, n)); free(b); if (ind == 0) base = s; else if (s != base) same = false; }
  o += ",\"text\":"; jstr(o, base); o += ",\"tsame\":"; o += same ? "1" : "0"; }
struct Buf { std::vector<uint8_t> d; uint8_t* p; size_t n; Buf(std::vector<uint8_t> x) : d(x), n(x.size()) { p = (uint8_t*)malloc(n ? n : 1); if (n) memcpy(p, d.data(), n); } ~Buf() { free(p); } };
'''


def gen(types, specs, use_extra=True):
    o = ["".join('#include "%s"\n' % h for h in types.headers), PRE]
    skip = {"h265nal::BitBuffer", "h265nal::BitBufferWriter", "h265nal::NaluChecksum"}
    ok = [q for q in types.fields if q not in skip and "<" not in q and "(anonymous" not in q]
    for q in ok: o.append("template <> struct V<%s> { static void dump(Out&, const %s&); static void load(In&, %s&); };" % (q, q, q))
    o.append("template <> struct V<h265nal::NaluChecksum> { static void dump(Out& o, const NaluChecksum& x) { o += \"[\"; for (int i = 0; i < x.length && i < 32; i++) { if (i) o += \",\"; o += std::to_string((unsigned)(unsigned char)x.checksum[i]); } o += \"]\"; } static void load(In&, NaluChecksum&) {} };")
    for q in ok:
        fl = [(n, t) for n, t in types.fields[q] if t[0] != "o"]
        der = types.bases.get(q, [])
        d = []
        for b in der:
            d.append("  if (auto* p = dynamic_cast<const %s*>(&x)) { V<%s>::dump(o, *p); return; }" % (b, b))
        body = ' o += "{\\"$\\":\\"%s\\"";' % q + " ".join('o += ",\\"%s\\":"; ::dump(o, x.%s);' % (n, n) for n, t in fl) + ' o += "}";'
        if der: o.append("void V<%s>::dump(Out& o, const %s& x) {\n%s\n%s }" % (q, q, "\n".join(d), body))
        else: o.append("void V<%s>::dump(Out& o, const %s& x) {%s }" % (q, q, body))
        o.append("void V<%s>::load(In& in, %s& x) { %s }" % (q, q, " ".join("::load(in, x.%s);" % n for n, t in fl)))
    o.append("static void call(const std::string& f, In& in, Out& o);")
    calls = []
    for sp in specs.values():
        if not sp.cpp: continue
        fn = re.match(r"[\w:~]+", sp.cpp).group(0)
        if sp.kind == "syntax":
            b = ["  if (f == \"%s\") {" % sp.name]
            names = []
            for (n, ty, arg) in sp.params:
                if ty in ("state", "world"): b.append("    %s a_%s{}; load(in, a_%s);" % (arg, n, n)); names.append("&a_" + n)
                elif ty == "sref": b.append("    std::unique_ptr<%s> a_%s(new %s()); load(in, *a_%s);" % (arg, n, arg, n)); names.append("a_" + n)
                elif ty == "opt": b.append("    std::unique_ptr<%s> a_%s; load(in, a_%s);" % (arg, n, n)); names.append("a_" + n + ".get()")
                elif ty == "opts": b.append("    ParsingOptions a_%s; { unsigned long long o_ = in.u(); bool* f_[] = {&a_%s.add_offset, &a_%s.add_length, &a_%s.add_parsed_length, &a_%s.add_checksum, &a_%s.add_resolution}; for (int k = 0; k < 5; k++) *f_[k] = (o_ >> (8 * k)) & 1; }" % ((n,) * 6)); names.append("a_" + n)
                elif ty == "vec": b.append("    %s a_%s; load(in, a_%s);" % (arg.rstrip("*"), n, n)); names.append(("&" if arg.endswith("*") else "") + "a_" + n)
                else: b.append("    %s a_%s = in.u();" % ("long long" if ty == "sint" else "unsigned long long", n)); names.append("a_" + n)
            for n, ty, arg in sp.params:
                if n == "nal_unit_type" and ty not in ("state", "world", "sref", "opt", "opts", "vec"): b.append("    g_nut = (uint32_t)a_%s;" % n)
                if ty == "opts": b.append("    g_po = a_%s;" % n)
            b.append("    auto data = in.hex(); size_t start = in.u(); Buf buf(data);")
            if sp.attrs.get("form") == "data":
                b.append("    auto r = %s(%s);" % (fn, ", ".join(["buf.p", "buf.n"] + names)))
                b.append('    o += "{\\"r\\":"; dump(o, r); o += ",\\"pos\\":0"; print_all(o, r);')
            else:
                b.append("    BitBuffer bb(buf.p, buf.n); bb.ConsumeBits(start);")
                if sp.attrs.get("method"): b.append("    %s ob_{}; auto r = ob_.%s(%s);" % (fn.rsplit("::", 1)[0], fn.rsplit("::", 1)[1], ", ".join(["&bb"] + names)))
                else: b.append("    auto r = %s(%s);" % (fn, ", ".join(["&bb"] + names)))
                b.append('    o += "{\\"r\\":"; dump(o, r); o += ",\\"pos\\":" + std::to_string(bitpos(bb)); print_all(o, r);')
            for n in [p[0] for p in sp.params if p[1] == "world"]:
                b.append('    o += ",\\"post_%s\\":"; dump(o, a_%s);' % (n, n))
            b.append('    o += "}"; return; }')
        else:
            b = ["  if (f == \"%s\") {" % sp.name]; names = []; obj = None
            for (n, ty, arg) in sp.params:
                if ty == "state":
                    b.append("    %s a_%s{}; load(in, a_%s);" % (arg, n, n))
                    if n == "this": obj = "a_this"
                    else: names.append("&a_" + n)
                elif ty == "sptr":
                    b.append("    std::shared_ptr<%s> a_%s(new %s()); load(in, *a_%s);" % (arg, n, arg, n)); names.append("a_" + n)
                elif ty == "vec": b.append("    %s a_%s; load(in, a_%s);" % (arg, n, n)); names.append("a_" + n)
                else: b.append("    %s a_%s = in.u();" % ("long long" if ty == "sint" else "unsigned long long", n)); names.append("a_" + n)
            call = "%s.%s(%s)" % (obj, fn.split("::")[-1], ", ".join(names)) if obj else "%s(%s)" % (fn, ", ".join(names))
            if sp.attrs.get("void"):
                b.append("    %s;" % call); b.append('    o += "{\\"r\\":"; dump(o, a_this);')
            elif sp.attrs.get("outs"):
                ov = [x.split(":") for x in sp.attrs["outs"].split()]
                for x, t in ov: b.append("    %s o_%s = %s(-7777);" % (t, x, t))
                call = call[:-1] + (", " if names else "") + ", ".join("&o_" + x for x, t in ov) + ")"
                b.append("    auto r = %s;" % call); b.append('    o += "{\\"r\\":"; dump(o, r);')
                for x, t in ov: b.append('    o += ",\\"o_%s\\":"; dump(o, o_%s);' % (x, x))
            else:
                b.append("    auto r = %s;" % call); b.append('    o += "{\\"r\\":"; dump(o, r);')
            b.append('    o += "}"; return; }')
        calls.append("\n".join(b))
    extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver_extra.inc")
    if not use_extra: extra = ""
    if os.path.exists(extra): o.append(open(extra).read())
    for i, c in enumerate(calls): o.append("static bool call_%d(const std::string& f, In& in, Out& o) {\n%s\n  return false; }" % (i, c.replace("return; }", "return true; }")))
    o.append("static void call(const std::string& f, In& in, Out& o) {")
    for i in range(len(calls)): o.append("  if (call_%d(f, in, o)) return;" % i)
    if os.path.exists(extra): o.append("  if (call_extra(f, in, o)) return;")
    o.append('  o += "{\\"unknown\\":1}"; }')
    o.append(r'''
int main(int argc, char** argv) {
  FILE* fo = fdopen(dup(1), "w"); (void)!freopen("/dev/null", "w", stdout);
  std::ifstream f(argv[1]); std::string line; long skip = argc > 2 ? atol(argv[2]) : 0; long k = 0;
  while (std::getline(f, line)) {
    if (k++ < skip) continue;
    std::istringstream is(line); std::string w; In in; while (is >> w) in.t.push_back(w);
    fprintf(fo, "@%ld\n", k - 1); fflush(fo); fprintf(stderr, "@@%ld\n", k - 1);
    Out o; std::string fn = in.next(); g_print = fn.compare(0, 4, "prt:") == 0; if (g_print) fn = fn.substr(4); g_nut = 0; g_po = ParsingOptions(); call(fn, in, o);
    fprintf(fo, "=%s\n", o.c_str()); fflush(fo);
  }
  fprintf(fo, "@end\n"); fflush(fo); _exit(0);
}''')
    return "\n".join(o)


def build(types, specs, only=None):
    try: return build_(types, specs, only, True)
    except IRError as e:
        if "driver:" not in str(e): raise
        try: exe = build_(types, specs, only, False)
        except IRError: raise e
        print("note: driver_extra.inc does not compile against the current tree: " + str(e)[:300]); return exe


def build_(types, specs, only, use_extra):
    """returns path of the driver executable for the current tree"""
    inc = os.path.join(ir.REPO, "include"); srcd = os.path.join(ir.REPO, "src")
    sel = {k: v for k, v in specs.items() if only is None or k in only}
    text = gen(types, sel, use_extra)
    hh = ir.headers_hash(); cd = ir.cache_dir()
    jobs = []
    for f in sorted(os.listdir(srcd)):
        if f.endswith(".cc"):
            h = hashlib.sha256((hh + " ".join(FLAGS) + f).encode() + open(os.path.join(srcd, f), "rb").read()).hexdigest()[:24]
            jobs.append((os.path.join(srcd, f), os.path.join(cd, "o_%s_%s.o" % (f[:-3], h))))
    h = hashlib.sha256((hh + " ".join(FLAGS) + text).encode()).hexdigest()[:24]
    drv = os.path.join(cd, "drv_%s.cc" % h)
    if not os.path.exists(drv): 
        t = drv + ".%d" % os.getpid(); open(t, "w").write(text); os.replace(t, drv)
    jobs.insert(0, (drv, os.path.join(cd, "drv_%s.o" % h)))
    hx = hashlib.sha256("".join(j[1] for j in jobs).encode()).hexdigest()[:24]
    exe = os.path.join(cd, "drv_%s" % hx)
    if os.path.exists(exe): return exe
    def one(j):
        if os.path.exists(j[1]): return None
        t = j[1] + ".%d.%d.o" % (os.getpid(), threading.get_ident())
        r = subprocess.run([ir.CLANG] + FLAGS + ir.DEFINES + ["-I" + inc, "-I" + ir.config_inc(), "-c", j[0], "-o", t], capture_output=True, text=True)
        if r.returncode: return r.stderr[-3000:]
        os.replace(t, j[1])
    with ThreadPoolExecutor(8) as ex: errs = [e for e in ex.map(one, jobs) if e]
    if errs: raise IRError("driver: " + errs[0])
    t = exe + ".%d" % os.getpid()
    r = subprocess.run([ir.CLANG, "-fsanitize=address,undefined"] + [j[1] for j in jobs] + ["-o", t], capture_output=True, text=True)
    if r.returncode: raise IRError("driver link: " + r.stderr[-2000:])
    os.replace(t, exe)
    return exe


# ------------------------------------------------------------------ running
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0", "PATH": os.environ.get("PATH", "")}


class Res:
    __slots__ = ("out", "crash", "ub")
    def __init__(self): self.out = None; self.crash = None; self.ub = None


def run_cases(exe, lines, timeout=120, max_crash=40, per_case=10):
    """lines: list of command strings.  Returns list of Res."""
    res = [Res() for _ in lines]
    fd, fn = tempfile.mkstemp(prefix="vc_cases_", dir=ir.cache_dir()); os.close(fd)
    open(fn, "w").write("\n".join(lines) + "\n")
    start = 0; crashes = 0; t0 = time.time()
    try:
        while start < len(lines) and crashes < max_crash:
            if time.time() - t0 > timeout: break
            eo = tempfile.TemporaryFile(); oo = tempfile.TemporaryFile()
            p = subprocess.Popen([exe, fn, str(start)], stdout=oo, stderr=eo, env=ENV)
            last = -1; lt = time.time(); hang = False
            while True:
                try: p.wait(0.05 if time.time() - lt < 1 else 0.5); break
                except subprocess.TimeoutExpired:
                    sz = os.fstat(oo.fileno()).st_size
                    if sz != last: last = sz; lt = time.time()
                    elif time.time() - lt > per_case: p.kill(); p.wait(); hang = True; break
                    if time.time() - t0 > timeout + per_case: p.kill(); p.wait(); hang = None; break
            oo.seek(0); eo.seek(0)
            so = oo.read().decode("utf8", "replace"); se = eo.read().decode("utf8", "replace")
            oo.close(); eo.close()
            cur = None; done = False
            for l in so.split("\n"):
                if l.startswith("@end"): done = True
                elif l.startswith("@"): cur = int(l[1:])
                elif l.startswith("=") and cur is not None:
                    try: res[cur].out = json.loads(l[1:])
                    except ValueError: res[cur].out = {"bad": l[:200]}
            parts = re.split(r"^@@(\d+)\n", se, flags=re.M)
            for i in range(1, len(parts) - 1, 2):
                if "runtime error:" in parts[i + 1]:
                    m = re.search(r"^.*runtime error:.*$", parts[i + 1], re.M)
                    res[int(parts[i])].ub = m.group(0)
            if done: break
            if hang is None: break
            if cur is None: break
            if res[cur].out is None:
                tail = parts[-1] if len(parts) > 1 else se
                m = re.search(r"^.*(ERROR: AddressSanitizer.*|Assertion.*failed.*|terminate called.*|SUMMARY.*)$", tail, re.M)
                fr = re.findall(r"^\s+#\d+ \S+ in (\S+).*?(/repo/src/[^\s]+)", tail, re.M)
                res[cur].crash = ("hang: no answer within %ds" % per_case) if hang else ((m.group(0)[:300] if m else "exit status %s" % p.returncode) + (" at " + fr[0][1] if fr else ""))
                crashes += 1
            start = cur + 1
    finally: os.unlink(fn)
    return res
