"""seed(id, property, edits, demo, needs, breaks): validates a planted bug in a scratch copy (mount namespace) and stores it
under /verif/seeded/<id>.  check(id) runs the property's check against it."""
import os, subprocess, json, shutil, sys
V = "/verif"
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; non-zero: it is broken.  cwd is /repo, after build.sh
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O0 -DFDUMP_DEFINE -DRTP_DEFINE %s-I/repo/include -I"$here" "$here/demo.cc" /repo/_build/src/libh265nal.a -o "$t/demo" || exit 3
timeout 120 "$t/demo" > "$t/out" 2>&1; rc=$?; tail -n 5 "$t/out"; exit $rc
'''


def ns(copy, cmd, timeout=1000, env=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], capture_output=True, text=True, timeout=timeout, env=e)
    return r.returncode, r.stdout + r.stderr


def mkcopy(tag):
    d = "/tmp/sd/%s_%d" % (tag, os.getpid()); os.makedirs("/tmp/sd", exist_ok=True)
    if os.path.exists(d): shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", d], check=True); return d


def seed(id, prop, edits, demo, needs, breaks, includes=("h265_common.h",), verbose=True):
    d = mkcopy("s_" + id)
    try:
        for f, a, b in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(a) != 1: print("SEED", id, "edit does not match once:", f, s.count(a)); return False
            open(p, "w").write(s.replace(a, b))
        patch = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        out = os.path.join(V, "seeded", id); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        shutil.copy(os.path.join(V, "tools/seed/util.h"), os.path.join(out, "util.h"))
        inc = "".join('#include "%s"\n' % i for i in includes)
        open(os.path.join(out, "demo.cc"), "w").write(inc + '#include "util.h"\nint main() {\n' + demo + '\n  return fails ? 1 : 0;\n}\n')
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % ""); os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, "meta.json"), "w"), indent=1)
        bad = []
        r = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        if r.returncode: bad.append("demo fails on the unchanged tree: rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-600:]))
        rc, o = ns(d, "bash /opt/vp/test.sh /repo/_build/o.json")
        if rc or "79 passed, 0 failed" not in o: bad.append("tests: " + o[-600:])
        rc, o = ns(d, "bash %s/demo.sh" % out)
        if rc in (0, 3): bad.append("demo does not fail with the patch (rc=%d) %s" % (rc, o[-400:]))
        if bad:
            print("SEED", id, "REJECTED:", " | ".join(bad)); shutil.rmtree(out); return False
        print("SEED", id, "valid;", o.strip().splitlines()[0][:100] if o.strip() else "crash")
        return True
    finally: shutil.rmtree(d)


def check(id, prop=None):
    d = mkcopy("c_" + id); cache = "/tmp/sd/cache"
    try:
        out = os.path.join(V, "seeded", id)
        prop = prop or json.load(open(os.path.join(out, "meta.json")))["property"]
        r = subprocess.run(["git", "-C", d, "apply", os.path.join(out, "patch.diff")], capture_output=True, text=True)
        if r.returncode: print(id, "patch does not apply", r.stderr[:200]); return None
        if os.path.exists(d + "_v"): shutil.rmtree(d + "_v")
        subprocess.run("mkdir %s_v && cd /verif && tar cf - --exclude=build --exclude=.git --exclude=seeded . | tar xf - -C %s_v && mkdir %s_v/build && cp -a /verif/build/*.ll /verif/build/*.o %s_v/build/ 2>/dev/null" % (d, d, d, d), shell=True)
        rc, o = ns(d, "cd %s_v && python3-vt vc/check.py %s" % (d, prop), timeout=1500)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("  violated")]
        print("CHECK %s %s rc=%d %s" % (id, prop, rc, " / ".join(v)[:400] or o.strip().splitlines()[-3:]))
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + "_v", ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(2) as ex: list(ex.map(check, ids))
