#!/usr/bin/env python3
"""Decides one property of utl by symbolic execution of the real code.

usage: check.py C02 [--tier quick|thorough] [--keep] [--only FILE] [--witness]
exit 0: holds within the bounds; 1: violation (replayed natively); 2: no verdict.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UTL_REPO", "/repo")
SYMX = os.path.join(ROOT, "symx")
HARN = os.path.join(ROOT, "harness")
sys.path.insert(0, HARN)
BUILD = os.path.join(ROOT, "build")
CLANG = "clang++"
COMMON = ["-std=c++23", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DNDEBUG", "-I" + SYMX, "-w", "-Wno-c++11-narrowing"]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src"]
STUBS = ["-I" + SYMX + "/stubs"]
PRE = ["-include", HARN + "/prelude.h"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


class NoVerdict(Exception):
    pass


class NotAccepted(Exception):
    """The repository no longer compiles for a use that the property covers."""
    def __init__(self, cmd, err):
        super().__init__(err)
        self.cmd, self.err = cmd, err


def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        raise NoVerdict(f"{what} failed: {' '.join(cmd[:3])} ...\n{r.stderr[-3000:]}")
    return r


def setup():
    """Builds the engine and the runtime model (idempotent)."""
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        must(["make", "-C", SYMX, "-j4", "B=" + BUILD], "engine build")
        for n in ("rt", "rt_io"):
            rt, src = os.path.join(BUILD, n + ".bc"), os.path.join(SYMX, n + ".cc")
            if not os.path.exists(rt) or os.path.getmtime(rt) < max(os.path.getmtime(src), os.path.getmtime(SYMX + "/sx.h")):
                must([CLANG, *COMMON, "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-fno-builtin", "-fno-access-control",
                      "-emit-llvm", "-c", src, "-o", rt + ".tmp"], "runtime model")
                os.rename(rt + ".tmp", rt)
        for sched in (0, 1):
            for san in ("asan", "plain"):
                nat = os.path.join(BUILD, f"native_{san}{sched}.o")
                deps = [SYMX + "/sx_native.cc", SYMX + "/sx.h"]
                if os.path.exists(nat) and os.path.getmtime(nat) >= max(map(os.path.getmtime, deps)):
                    continue
                must([CLANG, *COMMON, "-O1", "-g1", *(["-DSX_SCHED"] if sched else []),
                      *(["-fsanitize=address"] if san == "asan" else []), "-c", SYMX + "/sx_native.cc", "-o", nat + ".tmp"], "native runtime")
                os.rename(nat + ".tmp", nat)
        if os.path.exists(SYMX + "/sched_native.cc"):
            nat = os.path.join(BUILD, "sched_native.o")
            if not os.path.exists(nat) or os.path.getmtime(nat) < os.path.getmtime(SYMX + "/sched_native.cc"):
                must([CLANG, *COMMON, "-O1", "-g1", "-fno-access-control", "-c", SYMX + "/sched_native.cc", "-o", nat + ".tmp"], "native scheduler")
                os.rename(nat + ".tmp", nat)


def symbols(kind, bc):
    r = sh(["llvm-nm-18", "--extern-only", "--format=just-symbols", kind, bc])
    return set(r.stdout.split())


def build_bc(h, wd):
    src = os.path.join(HARN, h["file"])
    t = os.path.join(wd, h["key"])
    defs = ["-D" + d for d in h.get("defs", []) + (["SX_IO"] if h.get("io") else [])]
    if h.get("threads"):  # the replay runs under the thread sanitizer, for which shared_ptr takes another path
        defs.append("-D_GLIBCXX_TSAN=1")
    try:
        must([CLANG, *COMMON, *defs, "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize",
              *PRE, *STUBS, *INC, "-emit-llvm", "-c", src, "-o", t + ".h.bc"], "harness compilation")
    except NoVerdict:
        # The harness only names what utl documents.  When the repository's own
        # compiler rejects it as well, a use that the property covers is gone
        # (unless it stumbles over the stand-in for cista).
        cmd = ["g++", *COMMON, *defs, "-DSX_NATIVE", *PRE, *INC, "-idirafter", SYMX + "/stubs", "-fsyntax-only", src]
        r = sh(cmd)
        if r.returncode == 1 and re.search(r"^\S+:\d+:\d+: error: ", r.stderr, re.M) and not re.search(r"error: .*cista", r.stderr):
            raise NotAccepted(cmd, r.stderr)
        raise
    def link(io):
        must(["llvm-link-18", t + ".h.bc", os.path.join(BUILD, "rt.bc"), *([os.path.join(BUILD, "rt_io.bc")] if io else []), "-o", t + ".l.bc"], "link")
        must(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=sx_main,sx_throw_bad_alloc", t + ".l.bc", "-o", t + ".i.bc"], "opt")
    link(h.get("io"))
    if not h.get("io") and symbols("--undefined-only", t + ".i.bc") & symbols("--defined-only", os.path.join(BUILD, "rt_io.bc")):
        link(True)  # the code uses streams although the harness does not
    passes = "cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify),globaldce"
    if h.get("coro"):
        passes = "coro-early,cgscc(coro-split),coro-cleanup," + passes
    if h.get("threads"):
        passes = "cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify),globaldce"
    must(["opt-18", *h.get("optflags", []), "-passes=" + passes, t + ".i.bc", "-o", t + ".bc"], "opt")
    return t + ".bc"


TWRAP = ["pthread_self", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast",
         "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock", "pthread_cond_clockwait", "pthread_cond_timedwait", "pthread_once", "syscall", "sched_yield", "nanosleep", "clock_nanosleep", "usleep"]
WRAP = ["malloc", "calloc", "realloc", "free"]


def build_native(h, wd, san):
    src = os.path.join(HARN, h["file"])
    t = os.path.join(wd, h["key"] + "." + san)
    defs = ["-D" + d for d in h.get("defs", [])]
    sched = 1 if h.get("threads") else 0
    flags = ["-fsanitize=address", "-fno-omit-frame-pointer"] if san.startswith("asan") else []
    if san == "asan0":
        flags += ["-O0", "-fsanitize-address-use-after-return=always", "-fsanitize-address-use-after-scope"]
    if sched:
        flags = ["-fsanitize=thread"]
    if san == "ubsan":
        flags = ["-fsanitize=shift,bounds,null,unreachable,return,integer-divide-by-zero", "-fno-sanitize-recover=all"]
    must([CLANG, *COMMON, *defs, "-DSX_NATIVE", "-O1", "-g1", *flags, *PRE, *INC, "-idirafter", SYMX + "/stubs", "-c", src, "-o", t + ".o"], "native harness compilation")
    wraps = ["-Wl,--wrap=" + w for w in WRAP + (TWRAP if sched else []) + h.get("env", [])]
    lf = ["-fsanitize=address"] if san.startswith("asan") and not sched else ["-fsanitize=undefined"] if san == "ubsan" else []
    objs = [t + ".o", os.path.join(BUILD, f"native_{'asan' if san.startswith('asan') and not sched else 'plain'}{sched}.o")]
    if sched:
        objs.append(os.path.join(BUILD, "sched_native.o"))
    must([CLANG, *lf, *objs, *wraps, "-o", t, "-lfmt", "-ldl", "-lpthread"], "native link")
    return t


def write_case(path, params, case):
    with open(path, "w") as f:
        for k, v in params.items():
            if not k.startswith("_"):
                f.write(f"P {k} {v}\n")
        for n, hx in case["inputs"]:
            f.write(f"I {n.replace(' ', '_')} {hx}\n")
        if case.get("sched"):
            f.write("S " + " ".join(map(str, case["sched"])) + "\n")


def run_native(exe, case_file, timeout=30, pre=()):
    env = dict(os.environ, TZ="XXX-5:30", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=4000", UBSAN_OPTIONS="halt_on_error=1")
    try:
        r = subprocess.run([*pre, exe, case_file], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "timeout", [], "timeout"
    out = r.stdout.decode(errors="replace")
    err = r.stderr.decode(errors="replace")
    obs = re.findall(r"^OBS ([0-9a-f]+)$", out, re.M)
    if r.returncode == 0 and "DONE" in out:
        return "ok", obs, err
    if "DIVERGED" in out:
        return "diverged", obs, out + err
    if "INFEASIBLE" in out:
        return "infeasible", obs, out + err
    if "VIOL" in out:
        return "viol", obs, re.search(r"^VIOL (.*)$", out, re.M).group(1)
    return "crash", obs, f"exit {r.returncode}\n" + (out[-500:] + err[:3000])


def confirm(h, wd, params, case, path):
    """Does the real code, compiled natively, show the violation?"""
    write_case(path, params, case)
    kind = case["kind"]
    exe = build_native(h, wd, "asan")
    st, obs, msg = run_native(exe, path)
    if kind == "uninitialised" and st not in ("viol", "crash"):
        exe = build_native(h, wd, "plain")
        st, obs, msg = run_native(exe, path, 120, ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes"])
        return st in ("crash", "viol"), f"valgrind: {st}: {msg[:600]}"
    if st in ("viol", "crash"):
        return True, f"{st}: {msg[:800]}"
    if st == "timeout":
        return kind in ("nontermination", "deadlock", "recursion"), "native run does not terminate"
    if kind in ("memory",):
        exe = build_native(h, wd, "plain")
        st2, obs, msg2 = run_native(exe, path, 120, ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=no"])
        if st2 in ("crash", "viol"):
            return True, f"valgrind: {msg2[:600]}"
        if not h.get("threads"):  # without optimisation a stale reference is still looked at
            st2, obs, msg2 = run_native(build_native(h, wd, "asan0"), path, 120)
            if st2 in ("crash", "viol"):
                return True, f"{st2}: {msg2[:800]}"
    if not h.get("threads"):  # the input makes the real code do something undefined that the compiler resolved another way
        st2, obs, msg2 = run_native(build_native(h, wd, "ubsan"), path)
        m = re.search(r"^(\S*/(?:include/utl|src)/\S*): runtime error: .*$", msg2, re.M)
        if st2 == "crash" and m and m.group(1).startswith(os.path.realpath(REPO)):
            return True, f"undefined behaviour: {m.group(0)[:300]}"
    return False, f"{st}: {msg[:800]}"


def diff(obs, want):
    i = next((i for i, (x, y) in enumerate(zip(obs, want)) if x != y), min(len(obs), len(want)))
    return f"observation {i} of {len(obs)}/{len(want)}: native {obs[i:i + 8]} symbolic {want[i:i + 8]}"


def explore(h, bc, params, tier, out, seed, deadline, max_viol=1):
    cmd = [os.path.join(BUILD, "symx"), "-o", out, "-j", str(min(8, os.cpu_count() or 8)), "--deadline", str(deadline),
           "--witness", str(h.get("witness", 6)), "--seed", str(seed), "--max-steps", str(h.get("max_steps", 3000000))]
    if "_spurious" in params:
        cmd += ["--spurious", str(params["_spurious"])]
    if "_preempt" in params:
        cmd += ["--preempt", str(params["_preempt"])]
    for k, v in params.items():
        if k.startswith("_"):
            continue
        cmd += ["-p", f"{k}={v}"]
    if h.get("threads"):
        cmd += ["--threads", "--races"]
    if tier == "quick" and not h.get("tables"):
        cmd += ["--no-table"]
    if max_viol > 1:
        cmd += ["--max-viol", str(max_viol)]
    cmd += h.get("opts", []) + [bc]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    late = False
    try:
        _, err = p.communicate(timeout=deadline + 40)
    except subprocess.TimeoutExpired:
        late = True
    try:  # workers that outlive the engine
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if late:
        _, err = p.communicate()
    recs = []
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
    if late:
        recs.append({"type": "incomplete", "msg": "time limit", "loc": ""})
    elif p.returncode not in (0, 3) or (p.returncode == 3 and not any(x["type"] in ("error",) for x in recs)):
        recs.append({"type": "error", "msg": f"engine exit {p.returncode}: {err[-500:]}", "loc": ""})
    return recs, err


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--strict", action="store_true", help="an exploration cut short is no verdict")
    ap.add_argument("--budget", type=float, default=0, help="seconds for the whole check")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.prop == "setup":
        setup()
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from registry import PROPS
    import importlib
    P = PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    setup()
    wd = os.path.join(BUILD, "run", f"{a.prop}-{os.getpid()}")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    hs = [dict(h) for h in P["harnesses"] if not a.only or a.only in h["file"]]
    for i, h in enumerate(hs):
        h["key"] = f"{i}_" + re.sub(r"\W", "_", h["file"])
    problems, viols, known, partial = [], [], [], []
    budget = a.budget or (720 if tier == "quick" else 6 * 3600)
    tot = {}
    reach, reach_want, cov, samples, sites = {}, set(), {}, [], {}
    validated = 0
    bounds = []
    runs = []
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            bcs = {h["key"]: ex.submit(build_bc, h, wd) for h in hs}
            nats = {h["key"]: ex.submit(build_native, h, wd, "asan") for h in hs}
            for h in hs:
                bc = bcs[h["key"]].result()
                src = open(os.path.join(HARN, h["file"])).read()
                for l in re.findall(r'sx_reach\("([^"]+)"\)', src):
                    if not any(re.search(p, l) for p in h.get("unreached", [])):
                        reach_want.add(l)
                plist = h.get(tier) or h["quick"]
                for params in plist:
                    params = dict(params)
                    rdl = params.pop("_deadline", h.get("deadline", 400 if tier == "quick" else 3600))
                    rdl = max(10, min(rdl, budget - (time.time() - t0)))
                    for_known = params.pop("_known", None)
                    rp = os.path.join(wd, h["key"] + ".jsonl")
                    rs = time.time()
                    recs, err = explore(h, bc, params, tier, rp, seed, rdl)
                    el = time.time() - rs
                    st = {}
                    for r in recs:
                        if r["type"] == "stats":
                            for k, v in r.items():
                                if isinstance(v, (int, float)):
                                    st[k] = max(st.get(k, 0), v) if k.endswith("max_s") else st.get(k, 0) + v
                            for k, v in r["reach"].items():
                                reach[k] = reach.get(k, 0) + v
                            for k, v in r["assert_sites"].items():
                                sites[k] = sites.get(k, 0) + v
                            for f, c in r["cov"].items():
                                d = cov.setdefault(f, {"lines": set(), "functions": set()})
                                d["lines"].update(c["lines"])
                                d["functions"].update(c["functions"])
                    for k, v in st.items():
                        tot[k] = max(tot.get(k, 0), v) if k.endswith("max_s") else tot.get(k, 0) + v
                    runs.append({"harness": h["file"], "params": params, "paths": st.get("paths", 0), "queries": st.get("queries", 0), "wall_s": round(el, 2)})
                    if a.v:
                        print(f"# {h['file']} {h.get('defs', '')} {params}: {el:.1f}s paths={st.get('paths', 0)} states={st.get('states', 0)} steps={st.get('steps', 0)} queries={st.get('queries', 0)} solver={st.get('solver_s', 0):.1f}s dedup={st.get('deduped', 0)} killed={st.get('killed', 0)}", flush=True)
                    for r in recs:
                        if r["type"] == "error":
                            problems.append(f"{h['file']} {params}: engine: {r['msg']} @ {r.get('loc', '')}")
                        elif r["type"] == "incomplete":
                            partial.append(f"{h['file']} {params}: incomplete: {r['msg']} @ {r.get('loc', '')}")
                    vs = [r for r in recs if r["type"] == "violation"]
                    rdir = os.path.join(ROOT, "replays", a.prop)
                    unshown = []
                    def show(vs, base):
                        for n, v in enumerate(vs, base):
                            os.makedirs(rdir, exist_ok=True)
                            path = os.path.join(rdir, f"{h['key']}_{n}.case")
                            ok, msg = confirm(h, wd, params, v, path)
                            with open(path + ".txt", "w") as f:
                                f.write(json.dumps({"harness": h["file"], "params": params, "case": v, "native": msg}, indent=1))
                            if ok:
                                viols.append((path, v, msg, h, params, for_known))
                                return True
                            unshown.append(f"{h['file']} {params}: counterexample not reproduced natively: {v['kind']}: {v['msg']} @ {v['loc']} inputs={v['inputs']} native={msg}")
                        return False
                    if vs and not show(vs[:3], 0):
                        # other ways in which the same code goes wrong may be visible natively
                        more, _ = explore(h, bc, params, tier, rp + "2", seed, min(rdl, 120), 24)
                        more = sorted((r for r in more if r["type"] == "violation"), key=lambda r: (r["kind"] == "uninitialised", r["kind"] == "nontermination"))
                        first, seen = [], {(v["kind"], v["loc"]) for v in vs[:3]}
                        for r in more:
                            if (r["kind"], r["loc"]) not in seen:
                                first.append(r)
                                seen.add((r["kind"], r["loc"]))
                        if not show((first + [r for r in more if r not in first])[:8], 3):
                            problems.extend(unshown)
                    if not vs and st.get("paths", 0) == 0:
                        problems.append(f"{h['file']} {params}: no path completed")
                    # witness paths: the native run must agree with the symbolic one
                    if not vs:
                        exe = nats[h["key"]].result()
                        ws = [r for r in recs if r["type"] == "witness"]
                        for n, w in enumerate(ws):
                            p = os.path.join(wd, f"w{n}.case")
                            write_case(p, params, w)
                            stt, obs, msg = run_native(exe, p)
                            want = w["obs"]
                            if stt != "ok" or obs != want:
                                problems.append(f"{h['file']} {params}: witness disagrees with native run: {stt} {diff(obs, want)} inputs={w['inputs']} sched={w.get('sched')} {msg[:700]}")
                            else:
                                validated += 1
                        for w in ws[:2]:
                            if len(samples) < 12:
                                samples.append({"harness": h["file"], "params": params, "inputs": [[n, x[:80]] for n, x in w["inputs"]][:20], "observed": w["obs"][:20]})
                    if viols:
                        break
                if viols:
                    break
    except NotAccepted as e:
        rdir = os.path.join(ROOT, "replays", a.prop)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "compile.sh")
        with open(path, "w") as f:
            f.write("#!/bin/sh\n# exits non-zero: uses covered by the property are not accepted\nexec " + " ".join(e.cmd) + "\n")
        m = re.search(r"^(\S+): error: (.*)$", e.err, re.M)
        viols.append((path, {"kind": "not accepted by the compiler", "msg": m.group(2)[:300], "loc": m.group(1), "inputs": []}, e.err[:400], {"file": os.path.basename(e.cmd[-1])}, {}, None))
    except subprocess.TimeoutExpired:
        problems.append("engine timeout")
    missing = sorted(l for l in reach_want if l not in reach)
    if a.strict:
        problems += partial
    if missing and not viols and not a.only and partial:
        partial.append("never reached: " + ", ".join(missing))
    elif missing and not viols and not a.only:
        problems.append("vacuous: never reached: " + ", ".join(missing))
    for path, v, msg, h, params, _ in viols:
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  {h['file']} {params}: {v['kind']}: {v['msg']}\n  at {v['loc']}\n  inputs {str(v['inputs'])[:1500]}\n  native: {msg[:400]}")
    for p in problems:
        print("PROBLEM " + p)
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("states", 0),
            "transitions": tot.get("steps", 0),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"inputs": v["inputs"]} for _, v, *_ in viols],
            "paths": tot.get("paths", 0),
            "functions_encoded": {os.path.relpath(f, REPO) if f.startswith("/") else f: sorted(c["functions"])[:60] for f, c in sorted(cov.items())},
            "lines_encoded": {os.path.relpath(f, REPO) if f.startswith("/") else f: len(c["lines"]) for f, c in sorted(cov.items())},
            "assertion_sites": sites,
            "assertions_evaluated": tot.get("asserts", 0),
            "assertions_discharged_by_solver": tot.get("asserts_solver", 0),
            "assertions_constant_on_path": tot.get("asserts_const", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_sat": tot.get("sat", 0), "solver_unsat": tot.get("unsat", 0), "solver_unknown": tot.get("unknown", 0),
            "decided_by_byte_domains": tot.get("table", 0),
            "decided_by_cached_model": tot.get("model_hits", 0) + tot.get("cache_hits", 0),
            "solver_s": round(tot.get("solver_s", 0), 3), "slowest_query_s": tot.get("solver_max_s", 0),
            "schedule_points": tot.get("sched_points", 0), "schedule_states_deduplicated": tot.get("deduped", 0),
            "reached": reach, "runs": runs, "bounds": P.get("bounds", {}).get(tier, ""), "outside": P.get("outside", ""),
            "exhaustive_within_bounds": not partial and not problems and not viols,
            "cut_short": [p[:300] for p in partial][:10],
            "problems": [p[:500] for p in problems][:10],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in partial:
        print("INCOMPLETE " + p[:400])
    if not a.keep:
        shutil.rmtree(wd, ignore_errors=True)
    if viols:
        return 1
    if problems:
        return 2
    c = ev["coverage"]
    if partial:
        print(f"{a.prop}: held on everything explored, but the exploration was cut short; see cut_short in the evidence")
    print(f"{a.prop} holds {'on what was explored' if partial else 'within bounds'}: {c['paths']} paths, {c['assertions_evaluated']} assertions ({c['assertions_discharged_by_solver']} by solver), {c['solver_queries']} queries, {c['solver_s']} s solver, {validated} native replays, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # no verdict: neither "held" nor "violated"
        import traceback
        traceback.print_exc()
        print(f"PROBLEM {type(e).__name__}: no verdict")
        sys.stdout.flush()
        os._exit(2)
