#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of the real code.

  run.py PROPERTY [quick|thorough] [--entry NAME] [-v]
  run.py --setup            build the engine

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..":
a solver counterexample that was confirmed against the native build.  Exit 2: no answer.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
T0 = time.time()
SHIMFLAGS = ["-std=c++17", "-O1", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS",
             "-ffp-contract=off", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-math-errno", "-fno-builtin-printf", "-w",
             "-include", "cstdint", "-I", HERE + "/shim", "-I", HERE + "/harness", "-I", REPO + "/include", "-I", REPO + "/src",
             '-DDATA_DIR="/data"', "-DVERIF_SYMBOLIC=1"]
NATFLAGS = ["-std=c++17", "-g", "-w", "-include", "cstdint", "-I", HERE + "/harness", "-I", REPO + "/include", "-I", REPO + "/src",
            '-DDATA_DIR="/data"', "-rdynamic", "-pthread"]
VARIANTS = {
    "plain": ["-O2"],
    "asan": ["-O1", "-fsanitize=address", "-fsanitize=bounds,null,integer-divide-by-zero,object-size,unreachable,return", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fno-omit-frame-pointer"],
    "pattern": ["-O0", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"],
    "zero": ["-O0", "-ftrivial-auto-var-init=zero"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "sched": ["-O1", "-DREPLAY_SCHED"],
}


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=None, **kw):
    """subprocess with a process group that is killed on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate()
        rc = None
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    return rc, out.decode("utf-8", "replace")


def engine():
    h = hashlib.sha256()
    for f in sorted(glob.glob(HERE + "/engine/*")):
        h.update(open(f, "rb").read())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:16])
    exe = d + "/symex"
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            rc, out = run(["bash", HERE + "/engine/build.sh", d], timeout=600)
            if rc != 0:
                log(out); sys.exit(2)
    return exe


def repo_sources():
    r = []
    for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        t = open(f, errors="replace").read()
        if re.search(r"\bint\s+main\s*\(", t): continue
        r.append(f)
    return r


def compile_all(jobs):
    """jobs: list of (cmd, description); all must succeed"""
    with cf.ThreadPoolExecutor(8) as ex:
        for (cmd, d), (rc, out) in zip(jobs, ex.map(lambda j: run(j[0], timeout=400), jobs)):
            if rc != 0:
                log("cannot build %s:\n%s" % (d, out[-4000:])); return False
    return True


def chunks(text):
    """line ranges of the top-level definitions of a harness file"""
    ls = text.split("\n"); starts = [i for i, l in enumerate(ls) if re.match(r"[A-Za-z_]", l)]
    return ls, [(a, b) for a, b in zip(starts, starts[1:] + [len(ls)])]


def trim_harness(hdir, out):
    """remove the top-level definitions of the copied harness that a compiler error points into; False if there are none"""
    hit = {}
    for blk in re.split(r"\n(?=[^\n]*: (?:fatal )?error: )", "\n" + out):
        if "error: " not in blk: continue
        m = re.search(re.escape(hdir) + r"/(\w+\.(?:cpp|h)):(\d+)", blk)
        if m: hit.setdefault(m.group(1), set()).add(int(m.group(2)) - 1)
    done = False
    for f, lines in hit.items():
        ls, ch = chunks(open(hdir + "/" + f).read())
        for a, b in ch:
            if any(a <= l < b for l in lines) and ls[a]:
                for i in range(a, b):
                    if not ls[i].startswith("#") and not ls[i].startswith("//@"): ls[i] = ""
                done = True
        open(hdir + "/" + f, "w").write("\n".join(ls))
    return done


def parse_harness(path):
    meta = {"entries": [], "bounds": {}, "assume": [], "sources": True}
    for l in open(path):
        if not l.startswith("//@"): continue
        w = l[3:].strip()
        k, _, rest = w.partition(" ")
        if k == "entry":
            p = rest.split(); e = {"name": p[0], "fp": "real", "reach": [], "quick": 90, "thorough": 600, "tiers": "qt", "steps": 0, "rlimit": 0, "schedules": False, "kinds": ""}
            for kv in p[1:]:
                a, _, b = kv.partition("=")
                if a == "reach": e["reach"] = b.split(",")
                elif a in ("quick", "thorough", "steps", "rlimit"): e[a] = int(b)
                else: e[a] = b
            meta["entries"].append(e)
        elif k == "bounds":
            t, _, x = rest.partition(":"); meta["bounds"][t.strip()] = x.strip()
        elif k == "assume": meta["assume"].append(rest)
        elif k == "nosources": meta["sources"] = False
    return meta


class Native:
    def __init__(self, work, harness, sources, flags=NATFLAGS):
        self.work, self.harness, self.sources, self.flags, self.built = work, harness, sources, flags, {}

    def get(self, v):
        if v in self.built: return self.built[v]
        d = os.path.join(self.work, "nat-" + v); os.makedirs(d, exist_ok=True)
        cxx = "clang++"
        objs, jobs = [], []
        for s in [self.harness, HERE + "/replay/runtime.cpp"] + self.sources:
            o = os.path.join(d, os.path.basename(s) + ".o"); objs.append(o)
            jobs.append(([cxx] + self.flags + VARIANTS[v] + ["-c", s, "-o", o], s))
        exe = os.path.join(d, "replay")
        ok = compile_all(jobs)
        if ok:
            rc, out = run([cxx] + self.flags + VARIANTS[v] + objs + ["-ldl", "-o", exe], timeout=300)
            if rc != 0: log(out[-3000:]); ok = False
        self.built[v] = exe if ok else None
        return self.built[v]


def one_replay(exe, entry, vals, tier, sched, env=None, timeout=30):
    d = tempfile.mkdtemp(prefix="rp")
    try:
        open(d + "/v", "w").write(vals)
        args = [exe, entry, d + "/v", d, str(tier)]
        if sched is not None:
            open(d + "/s", "w").write(" ".join(map(str, sched))); args.append(d + "/s")
        e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0:allocator_may_return_null=0:detect_stack_use_after_return=1"; e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
        if env: e.update(env)
        rc, out = run(args, timeout=timeout, env=e, cwd=d)
        return rc, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def failed(rc, out):
    """does this native run show a failure of the property?"""
    if rc is None: return "does not terminate"
    if rc == 3:
        m = re.search(r"REPLAY-VIOLATION (.*)", out); return "assertion failed: " + (m.group(1) if m else "?")
    if rc == 77: 
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)|runtime error: ([^\n]*)", out); return "sanitizer: " + ((m.group(1) or m.group(2)) if m else "?")
    if rc == 66: return "data race (ThreadSanitizer)"
    if rc < 0:
        m = re.search(r"(terminate called[^\n]*|Assertion [^\n]*)", out); return "killed by signal %d %s" % (-rc, m.group(1) if m else "")
    if rc not in (0, 4): return None
    return None


def confirm(nat, viol, tier, labels):
    """replay a counterexample against the native build; returns (what, how) or None"""
    vals = "".join("%s %s\n" % (n, v) for n, v in viol["model"])
    entry, kind, sched = viol["entry"], viol["kind"], viol.get("sched") or []
    plan = []
    if kind == "memory": plan = [("asan", None, {}, 1), ("plain", None, {}, 1), ("pattern", None, {"MALLOC_PERTURB_": "165"}, 1)]
    elif kind == "race": plan = [("tsan", None, {}, 6)]
    elif kind == "arith": plan = [("plain", None, {"REPLAY_FPE": "1"}, 1), ("asan", None, {}, 1)]
    elif kind in ("hang", "deadlock"): plan = [("plain", None, {}, 1)]
    else: plan = [("plain", None, {}, 1), ("asan", None, {}, 1)]
    if kind != "race":
        plan += [("pattern", None, {"MALLOC_PERTURB_": "165"}, 1), ("zero", None, {"MALLOC_PERTURB_": "255"}, 1)]
        if sched: plan = [("sched", sched, {}, 3), ("plain", None, {}, 20), ("tsan", None, {}, 3)] + plan
    for v, s, env, n in plan:
        exe = nat.get(v)
        if not exe: continue
        for _ in range(n):
            rc, out = one_replay(exe, entry, vals, tier, s, env)
            w = failed(rc, out)
            # an assertion counts if the solver found it violated too (not some other one, where rounding may play)
            if w and rc == 3 and (viol["entry"], w.split(": ", 1)[1]) not in labels: continue
            if w: return w, {"variant": v, "flags": VARIANTS[v], "env": env, "output": out[-4000:]}
    return None


def main():
    if "--setup" in sys.argv:
        engine(); return 0
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = None
    for i, a in enumerate(sys.argv):
        if a == "--entry": only = sys.argv[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t = 1 if tier == "thorough" else 0
    harness = glob.glob("%s/harness/%s*.cpp" % (HERE, prop))
    if len(harness) != 1: log("no harness for", prop); return 2
    harness = harness[0]
    meta = parse_harness(harness)
    exe = engine()
    work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    keep = "--keep" in sys.argv
    try:
        return check(prop, tier, t, seed, harness, meta, exe, work, only)
    finally:
        if keep: log("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, t, seed, harness, meta, exe, work, only):
    srcs = repo_sources() if meta["sources"] else []
    # the harness is compiled from a copy: what no longer compiles against the tree (a renamed function, say) is left out, and reported
    hdir = work + "/harness"; shutil.copytree(HERE + "/harness", hdir); harness = hdir + "/" + os.path.basename(harness)
    incs = lambda fl: [hdir if x == HERE + "/harness" else x for x in fl]
    SHIM, NAT = incs(SHIMFLAGS), incs(NATFLAGS)
    dropped = []
    for attempt in range(12):
        rc, out = run(["clang++"] + SHIM + ["-ferror-limit=0", "-fsyntax-only", harness], timeout=400)
        if rc == 0: break
        if not trim_harness(hdir, out): log("cannot build %s:\n%s" % (harness, out[-4000:])); return 2
        if attempt == 0: log("note: parts of the harness do not compile against this tree and are left out:\n" + "\n".join([l for l in out.split("\n") if "error: " in l][:5]))
    ent = set(re.findall(r"^ENTRY\((\w+)\)", open(harness).read(), re.M))
    dropped = [e["name"] for e in meta["entries"] if e["name"] not in ent]
    if dropped: log("note: entries left out:", dropped)
    jobs, bcs = [], []
    for s in [harness, HERE + "/shim/model.cpp"] + srcs:
        o = os.path.join(work, "%d-%s.bc" % (len(bcs), os.path.basename(s))); bcs.append(o)
        fl = SHIMFLAGS + (["-fno-builtin"] if s.endswith("shim/model.cpp") else [])
        jobs.append((["clang++"] + incs(fl) + ["-emit-llvm", "-c", s, "-o", o], s))
    if not compile_all(jobs): return 2
    linked = work + "/all.bc"; final = work + "/final.bc"
    rc, out = run(["llvm-link-18"] + bcs + ["-o", linked], timeout=200)
    if rc != 0: log(out); return 2
    rc, out = run(["opt-18", "-passes=simplifycfg<bonus-inst-threshold=4>", "-phi-node-folding-threshold=20", "-two-entry-phi-node-folding-threshold=40", linked, "-o", final], timeout=200)
    if rc != 0: log(out); return 2
    nat = Native(work, harness, srcs, NAT)
    natf = cf.ThreadPoolExecutor(1).submit(nat.get, "plain")
    build_s = time.time() - T0
    entries = [e for e in meta["entries"] if tier[0] in e["tiers"] and (only is None or e["name"] == only)]
    entries = [e for e in entries if e["name"] not in dropped]
    if not entries: log("NO ANSWER: no entry compiles against this tree"); return 2
    budget = 3600 * 3 if t else 620          # wall clock for the exploration of all entries
    end = T0 + budget

    def explore(e):
        d = os.path.join(work, "x-" + e["name"])
        tmo = min(e[tier], max(5, end - time.time()))
        par = min(4, len(entries))
        cmd = [exe, final, e["name"], "--fp", e["fp"], "--out", d, "--jobs", str(max(2, 8 // par)), "--timeout", str(tmo), "--tier", str(t), "--samples", "12" if not t else "24"]
        if e["steps"]: cmd += ["--steps", str(e["steps"])]
        if e["rlimit"]: cmd += ["--rlimit", str(e["rlimit"])]
        rc, out = run(cmd, timeout=tmo + 120)
        try: st = json.load(open(d + "/stats.json"))
        except Exception: st = {"entry": e["name"], "errors": 1, "error": "engine failed (%s) %s" % (rc, out[-500:]), "paths": 0, "violations": 0, "incomplete": 1, "reach": {}}
        rd = lambda f: [json.loads(l) for l in open(d + "/" + f) if l.strip()] if os.path.exists(d + "/" + f) else []
        v, s = rd("violations.jsonl"), rd("samples.jsonl")
        for x in v + s: x["entry"] = e["name"]
        fn = set(l.strip() for l in open(d + "/functions.txt")) if os.path.exists(d + "/functions.txt") else set()
        errs = open(d + "/errors.txt").read().split("\n") if os.path.exists(d + "/errors.txt") else []
        return e, st, v, s, fn, [x for x in errs if x]

    res = []
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(explore, entries):
            res.append(r)
            e, st, v, s, fn, errs = r
            log("%s %-28s paths=%s asserts=%s queries=%s unknown=%s viol=%s err=%s incomplete=%s solver=%.1fs wall=%.1fs reach=%s" % (prop, e["name"], st.get("paths"), st.get("asserts"), st.get("queries"), st.get("unknown"), st.get("violations"), st.get("errors"), st.get("incomplete"), st.get("solver_s", 0), st.get("wall_s", 0), st.get("reach")))
            for x in sorted(set(errs))[:5]: log("   ", x)
    natf.result()
    known = load_known(prop)
    viols, seen = [], set()
    for r in res:
        for v in r[2]:
            viols.append(v)
    confirmed, unconfirmed, kf, tried = [], [], [], {}
    stop = T0 + (850 if not t else 10 ** 9)
    for v in viols:
        k = (v["entry"], v["kind"], v["label"])
        if any(f["entry"] == v["entry"] and f["label"] == v["label"] for f in known):
            if k not in seen: kf.append(v); seen.add(k)
            continue
        if confirmed and k in seen: continue
        if tried.get(k, 0) >= (2 if v["kind"] in ("hang", "deadlock", "race") else 5): continue
        if time.time() > stop - 60: unconfirmed.append(v); continue
        tried[k] = tried.get(k, 0) + 1
        c = confirm(nat, v, t, set((x["entry"], x["label"]) for x in viols))
        if c: v["confirmed"] = c; confirmed.append(v); seen.add(k)
        else: unconfirmed.append(v)
        if confirmed: break
    # known findings must still be what they were
    for v in kf: log("KNOWN-FINDING: property=%s %s: %s" % (prop, v["entry"], v["label"]))
    # entries with abstracted arithmetic: the abstraction is too coarse to decide, which is no verdict
    absn = set(e["name"] for e in entries if e["fp"] == "abs")
    undecided = sorted(set((v["entry"], v["label"]) for v in unconfirmed if v["entry"] in absn))
    unconfirmed = [v for v in unconfirmed if v["entry"] not in absn]
    for u in undecided: log("undecided with abstracted arithmetic: %s: %s" % u)
    for v in unconfirmed: log("unconfirmed: %s %s %s at %s" % (v["entry"], v["kind"], v["label"], v["where"]))
    # validate sampled paths against the native build
    validated = mism = 0; samples = []
    exe_n = nat.get("plain")
    todo = [(r[0], s) for r in res for s in r[3]]
    cap = 60 if not t else 300
    todo = todo[::max(1, len(todo) // cap)] if len(todo) > cap else todo
    if exe_n and not confirmed:
        def val(es):
            e, s = es
            vals = "".join("%s %s\n" % (n, x) for n, x in s["model"])
            rc, out = one_replay(exe_n, s["entry"], vals, t, None, timeout=20)
            got = set(re.findall(r"REPLAY-REACH (.*)", out))
            return s, rc, out, got == set(s["reach"])
        with cf.ThreadPoolExecutor(8) as ex:
            for s, rc, out, same in ex.map(val, todo):
                if rc == 0 and same: validated += 1
                else:
                    mism += 1
                    if "-v" in sys.argv: log("mismatch", s["entry"], rc, out[-300:], s["reach"], str(s["model"])[:600])
                if len(samples) < 4: samples.append({"entry": s["entry"], "inputs": s["model"][:40], "reached": s["reach"], "native_run_agrees": rc == 0 and same})
    S = lambda k: sum(r[1].get(k, 0) or 0 for r in res)
    funcs = sorted(set().union(*[r[4] for r in res])) if res else []
    missing = [(r[0]["name"], l) for r in res for l in r[0]["reach"] if l not in r[1].get("reach", {})]
    incomplete = [r[0]["name"] for r in res if r[1].get("incomplete")]
    errors = [(r[0]["name"], r[1].get("error")) for r in res if r[1].get("errors")]
    assume = list(meta["assume"]) + COMMON_ASSUME
    if any(r[0]["fp"] == "real" for r in res): assume.append("entries marked fp=real: floating point values are reals (no rounding, inputs within +-1e6); exp/tanh/log are uninterpreted functions with sign, monotonicity and range axioms")
    if any(r[0]["fp"] == "abs" for r in res): assume.append("entries marked fp=abs: IEEE values; arithmetic is represented by facts that every correctly rounded operation satisfies (sign, ordering, NaN/infinity rules), so what is shown holds bit-precisely")
    for u in undecided + sorted(set((v["entry"], v["label"]) for v in unconfirmed)): assume.append("undecided on this run (a counterexample of the encoding that the native code does not show): %s: %s" % u)
    if incomplete: assume.append("not explored completely within the time/solver budget on this run: " + ", ".join(incomplete))
    if errors: assume.append("NOT EXPLORED on this run (the engine met something it does not model): " + ", ".join("%s: %s" % x for x in errors))
    if dropped: assume.append("NOT EXPLORED on this run (does not compile against this tree): " + ", ".join(dropped))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 2),
          "violations": len(confirmed), "assumptions": assume,
          "coverage": {"states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": validated, "traces_not_matching": mism, "samples": samples,
                       "exhaustive": not dropped and not incomplete and not errors and not undecided and not unconfirmed, "bounds": meta["bounds"].get(tier, meta["bounds"].get("quick", "")) if tier == "quick" else meta["bounds"].get("thorough", meta["bounds"].get("quick", "")),
                       "path_forks": S("forks"), "assertions_reached": S("asserts"), "assertions_decided_by_solver": S("assert_queries"), "solver_queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"),
                       "memory_accesses_checked": S("memory_checks"), "schedule_points": S("schedule_points"), "solver_s": round(S("solver_s"), 2), "build_s": round(build_s, 2),
                       "functions_encoded": funcs[:400], "functions_encoded_count": len(funcs),
                       "entries": [{"entry": r[0]["name"], "fp": r[0]["fp"], "paths": r[1].get("paths"), "assertions": r[1].get("asserts"), "queries": r[1].get("queries"), "solver_s": r[1].get("solver_s"), "wall_s": r[1].get("wall_s"), "incomplete": r[1].get("incomplete"), "reach": r[1].get("reach")} for r in res]}}
    if only is None:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        tmp = "%s/evidence/.%s.%d" % (HERE, prop, os.getpid())
        json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, "%s/evidence/%s.json" % (HERE, prop))
    log("%s %s: %d paths, %d assertions, %d queries, %d validated (%d not), %.1fs" % (prop, tier, S("paths"), S("asserts"), S("queries"), validated, mism, time.time() - T0))
    if confirmed:
        for v in confirmed: report_violation(prop, v, t)
        return 1
    if unconfirmed:
        # the real code satisfies the property on those inputs: neither a violation nor a verdict
        log("note: a counterexample did not reproduce against the native build; those assertions are not decided on this run")
    done = [r[0]["name"] for r in res if r[1].get("paths") and not r[1].get("errors")]
    if errors:
        log("note: not encoded:", errors)
        if not done: log("NO ANSWER: nothing could be explored"); return 2
    bad = set(n for n, _ in errors)
    missing = [m for m in missing if m[0] not in bad]
    if missing and not incomplete and not unconfirmed: # a path ends at a failed assertion
        log("NO ANSWER: not reached:", missing); return 2
    if missing: log("warning: not reached within the budget:", missing)
    if incomplete: log("note: exploration incomplete within the budget:", incomplete)
    return 0


COMMON_ASSUME = ["the code is executed from clang -O1 LLVM IR of /repo's current sources; streams, files, containers' out-of-line helpers, threads and libm are stand-ins (shim/, engine/)",
                 "memory allocation succeeds for sizes up to 256 MB; output to std::cout is discarded",
                 "threads interleave at mutex operations, thread start/end and atomic accesses; unsynchronised conflicting accesses are reported as races"]


def load_known(prop):
    r = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) label=(.+?) ::", l)
            if m and m.group(1) == prop: r.append({"entry": m.group(2), "label": m.group(3)})
    return r


def report_violation(prop, v, t):
    d = os.path.join(HERE, "out", prop); os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps([v["entry"], v["label"], v["model"]]).encode()).hexdigest()[:8]
    p = os.path.join(d, "%s-%s.json" % (v["entry"], h))
    json.dump({"property": prop, "entry": v["entry"], "tier": t, "kind": v["kind"], "label": v["label"], "where": v["where"], "model": v["model"], "sched": v.get("sched"), "confirmed": v["confirmed"][0], "replay": v["confirmed"][1],
               "how": "python3 /verif/replay.py %s" % p}, open(p, "w"), indent=1)
    log("counterexample: %s: %s [%s] at %s" % (v["entry"], v["label"], v["confirmed"][0], v["where"]))
    log("   inputs: " + ", ".join("%s=%s" % (n, x) for n, x in v["model"][:30]))
    log("VIOLATION property=%s replay=%s" % (prop, p))


if __name__ == "__main__":
    sys.exit(main())
