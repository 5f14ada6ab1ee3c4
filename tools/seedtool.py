#!/usr/bin/env python3
"""Development helper (not used by any check): validates planted bugs in a scratch copy and runs checks on them.
seedtool.py validate [id...]   patch applies, builds, stable tests pass, demo passes without / fails with it
seedtool.py catch [id...] [--all-checks]  runs the check of the seed's property on the patched copy
"""
import json, os, subprocess, sys, shutil, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEED_WORK", "/tmp/seedwork")
R = W + "/repo"
def run(cmd, cwd=R, timeout=600, env=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    return p.returncode, p.stdout
def sync():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
        subprocess.check_call(["cp", "-a", "/repo/deps", R + "/deps"])
    run("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD")
def build():
    rc, o = run(f"CC=gcc CXX=g++ LC_ALL=C.UTF-8 cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_PROJECT_utl_INCLUDE=/opt/vp/utl-cmake/without-cista.cmake && cmake --build _build --target utl utl-test -j 4", timeout=1800)
    return rc, o
def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["stable"]
    rc, o = run(["./_build/utl-test", "--gtest_brief=1"], timeout=600)
    bad = []
    if rc != 0:
        for n in names:
            rc, _ = run(["./_build/utl-test", "--gtest_filter=" + n], timeout=120)
            if rc: bad.append(n)
    return bad
def demo(d):
    t = W + "/demo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    return run(["bash", t + "/demo.sh"], timeout=300)
def ids(a): return [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
def validate(args):
    for i in ids(args):
        d = f"{V}/seeded/{i}"; sync(); meta = json.load(open(d + "/meta.json"))
        assert set(meta) >= {"property", "needs", "what_it_breaks"}, i
        a, o1 = demo(d)
        rc, o = run(["git", "apply", d + "/patch.diff"])
        if rc: print(i, "DOES NOT APPLY", o); continue
        b, o2 = demo(d)
        rc, o = build()
        if rc: print(i, "DOES NOT BUILD", o[-2000:]); continue
        bad = tests()
        print(i, meta["property"], "OK" if a == 0 and b != 0 and not bad else f"BAD demo base={a} patched={b} failing={bad}", flush=True)
        if a: print(o1[-1500:])
        run("git checkout -q -- .")
def catch(args):
    allc = "--all-checks" in args
    for i in ids(args):
        d = f"{V}/seeded/{i}"; sync(); meta = json.load(open(d + "/meta.json"))
        run(["git", "apply", d + "/patch.diff"])
        props = [meta["property"]]
        if allc: props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        for p in props:
            t = time.time()
            rc, o = run(["python3", V + "/check.py", p], cwd=V, timeout=1800, env=dict(os.environ, UTL_REPO=R, SYMX_EVIDENCE=W + "/ev"))
            l = [x for x in o.splitlines() if "VIOLATION" in x or x.startswith("violated") or "no verdict" in x.lower()]
            if rc or not allc: print(i, p, "exit", rc, "%.1fs" % (time.time() - t), "; ".join(l)[:300] if l else o[-400:], flush=True)
        run("git checkout -q -- .")
{"validate": validate, "catch": catch}[sys.argv[1]](sys.argv[2:])
