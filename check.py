#!/usr/bin/env python3
"""Solver-based check of one property of det/segmented_tree.

  check.py ID [--tier quick|thorough]   decide property ID on the current /repo tree
  check.py --replay FILE                re-run one reported counterexample against natively compiled code
  check.py --list                       the jobs of every property

Each job compiles a harness together with /repo's current headers to LLVM IR and lets engine/sx.cpp execute it
symbolically (Z3).  Every counterexample is replayed against natively compiled code before it is reported.
"""
import sys, os, json, subprocess, time, shutil, threading, hashlib, re, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SX = os.path.join(BUILD, "sx")
H = os.path.join(VERIF, "harness")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
OPT = "/usr/lib/llvm-18/bin/opt"
INC = ["-std=c++11", "-include", "cstdint", "-include", "stdexcept", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(H, "stubs"), "-I" + H, "-I" + os.path.join(REPO, "common")]
WORKERS = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, VERIF)
from jobs import PROPS, Job  # noqa: E402

procs = set(); plock = threading.Lock(); stopping = False


def sh(cmd, timeout, cwd=None, env=None):
    """run, return (rc, output); rc -9 on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)
    with plock:
        procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate(); rc = -9
    with plock:
        procs.discard(p)
    return rc, out.decode("utf-8", "replace")


def kill_all():
    global stopping
    stopping = True
    with plock:
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass


def build_engine():
    src = os.path.join(VERIF, "engine", "sx.cpp")
    if os.path.exists(SX) and os.path.getmtime(SX) >= os.path.getmtime(src): return
    rc, out = sh(["make", "-s", "-C", os.path.join(VERIF, "engine"), "BUILD=" + BUILD], 600)
    if rc: sys.stderr.write(out); sys.exit(2)


def unit_name(j): return "%s_%s" % (j.harness, hashlib.sha1(" ".join(j.defs).encode()).hexdigest()[:8])


def compile_ir(work, j):
    n = os.path.join(work, unit_name(j))
    rc, out = sh([CLANG] + INC + j.defs + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-w",
                  "-emit-llvm", "-c", os.path.join(H, j.harness + ".cpp"), "-o", n + ".bc"], 300)
    if rc: return None, out
    rc, out = sh([OPT, "-passes=sroa,early-cse,simplifycfg", n + ".bc", "-o", n + ".o.bc"], 300)
    os.unlink(n + ".bc")
    if rc: return None, out
    return n + ".o.bc", ""


MODES = {  # native builds used to confirm counterexamples
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "opt": ["-O2"],
    "plain": ["-O0", "-g"],
    "work": ["-O0", "-g", "-fsanitize-coverage=trace-pc", "-DRT_WORK"],   # counts the basic blocks entered
    "arena": ["-O0", "-g", "-DRT_ARENA"],
    "statics": ["-O0", "-g", "-DRT_STATICS", "-no-pie"],
}


def compile_native(work, harness, defs, entry, mode):
    exe = os.path.join(work, "n_%s_%s_%s" % (harness, hashlib.sha1((" ".join(defs) + entry).encode()).hexdigest()[:8], mode))
    if os.path.exists(exe): return exe
    tmp = exe + ".tmp%d" % threading.get_ident()
    rc, out = sh([CLANG] + INC + defs + MODES[mode] + ["-w", "-DENTRY=" + entry, os.path.join(H, harness + ".cpp"), os.path.join(H, "native_rt.cpp"), "-o", tmp], 300)
    if rc: sys.stderr.write(out[-3000:]); return None
    os.replace(tmp, exe)
    return exe


def write_inputs(path, params, inputs):
    with open(path, "w") as f:
        for k, v in params.items(): f.write("!%s %d\n" % (k, v))
        for k, v in inputs: f.write("%s %d\n" % (k.replace(" ", "_"), v))


def run_native(exe, inp, mode, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1")
    if mode == "statics":
        _, syms = sh(["nm", "-S", exe], 60)
        with open(exe + ".statics", "w") as f:
            for l in syms.splitlines():
                m = re.match(r"([0-9a-f]+) ([0-9a-f]+) [bBdDuV] (\S*segmented_tree\S*)$", l)
                if m and not m.group(3).startswith("_ZGV"): f.write("%s %s\n" % (m.group(1), m.group(2)))
        env["SX_STATICS"] = exe + ".statics"
    if mode == "valgrind":
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no", exe, inp]
    else:
        cmd = [exe, inp]
    return sh(cmd, timeout, env=env)


def confirm(work, rec):
    """replay the counterexample against the real code; returns (mode, text) if it shows there"""
    inp = os.path.join(work, "ce_%d.in" % (threading.get_ident() % 100000))
    write_inputs(inp, rec["params"], rec["inputs"])
    order = {"uninit": ["valgrind", "asan", "opt"], "readonly": ["arena", "statics"], "hang": ["opt"]}.get(rec["kind"], ["asan", "opt", "plain", "work", "valgrind"])
    log = []
    for mode in order:
        exe = compile_native(work, rec["harness"], rec["defs"], rec["entry"], "plain" if mode == "valgrind" else mode)
        if not exe: log.append(mode + ": does not compile"); continue
        rc, out = run_native(exe, inp, mode, 30 if rec["kind"] == "hang" else 90)
        tail = out.strip().splitlines()
        key = [l for l in tail if re.search(r"CHECK FAILED|ERROR|runtime error|VIOLATION|terminate|MISMATCH|INVALID|EXCEPTION|Conditional|uninit|Invalid", l)][:3]
        log.append("%s: exit %d %s" % (mode, rc, " | ".join(key or tail[-1:])))
        if rc == 43: continue
        if rc != 0: return mode, log[-1]
    return None, "; ".join(log)


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                d = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', l))
                known.append({k: v.strip('"') for k, v in d.items()})
    return known


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        rec = json.load(open(a[1])); work = os.path.join(BUILD, "replay-%d" % os.getpid()); os.makedirs(work, exist_ok=True)
        try:
            mode, text = confirm(work, rec)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print(("REPRODUCED " if mode else "NOT REPRODUCED ") + text); sys.exit(1 if mode else 0)
    if a and a[0] == "--list":
        for p in PROPS:
            for j in PROPS[p]["jobs"]: print(p, j.tier, j.harness, j.entry, " ".join(j.defs), j.params)
        return
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "330" if tier == "quick" else "3000"))
    deadline = t0 + budget
    prop = PROPS[pid]
    jobs = [j for j in prop["jobs"] if tier in j.tier]
    build_engine()
    os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid())); os.makedirs(work)
    code = 2
    try:
        code = decide(pid, tier, seed, prop, jobs, work, t0, deadline)
    finally:
        kill_all()
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(pid, tier, seed, prop, jobs, work, t0, deadline):
    notes = []; units = {}; broken = []
    with ThreadPoolExecutor(WORKERS) as ex:
        first = {}
        for j in jobs: first.setdefault(unit_name(j), j)
        futs = {ex.submit(compile_ir, work, j): n for n, j in first.items()}
        for f in as_completed(futs):
            bc, out = f.result(); units[futs[f]] = bc
            if not bc:
                j = first[futs[f]]
                if j.optional: notes.append("white-box harness %s %s does not compile against this tree and was skipped" % (j.harness, " ".join(j.defs)))
                else: broken.append((j, out))
    for j, out in broken:
        sys.stderr.write("harness %s %s does not compile:\n%s\n" % (j.harness, " ".join(j.defs), out[-3000:]))
        notes.append("configuration %s %s does not compile against this tree and was skipped" % (j.harness, " ".join(j.defs)))
    if len(broken) * 2 > len(first): return 2
    results = []; violations = []; found = threading.Event()
    known = load_known(); known_hit = {}
    validated = [0]; divergences = []
    vlock = threading.Lock()

    def run(j):
        bc = units[unit_name(j)]
        if not bc or stopping: return None
        left = deadline - time.time()
        if left < 3: return {"job": j, "skipped": "time budget used up"}
        out = os.path.join(work, "r%d.json" % id(j))
        lim = min(left, j.time if tier == "quick" else max(j.time, 900))
        cmd = [SX, bc, "--entry", j.entry, "--max-time", "%.0f" % lim, "--max-mem", "3200", "--out", out, "--max-viol", "3"]
        for k, v in j.p(tier).items(): cmd += ["--max-steps", "%d" % v] if k == "max_steps" else ["--param", "%s=%d" % (k, v)]
        if tier == "thorough" and j.xcheck:
            d = os.path.join(work, "smt%d" % id(j)); os.makedirs(d); cmd += ["--smt-dir", d]
        rc, txt = sh(cmd, lim + 60)
        if stopping: return None
        if rc not in (0, 1) or not os.path.exists(out):
            return {"job": j, "error": "engine exit %d: %s" % (rc, txt[-400:])}
        r = json.load(open(out)); r["job"] = j; os.unlink(out)
        if tier == "thorough" and j.xcheck: r["xcheck"] = crosscheck(os.path.join(work, "smt%d" % id(j)))
        for v in r["violations"]:
            rec = {"property": pid, "harness": j.harness, "entry": j.entry, "defs": j.defs, "params": j.p(tier), "kind": v["kind"], "msg": v["msg"], "where": v["where"], "inputs": v["inputs"]}
            k = next((k for k in known if k.get("property") == pid and k.get("entry") == j.entry and k.get("msg") == v["msg"]), None)
            if k: known_hit[k.get("msg")] = k; continue
            if j.optional == "wb":  # arbitrary-state harness: the pre-state must be natively consistent too
                pass
            mode, text = confirm(work, rec)
            if stopping: return None
            rec["native"] = text; rec["confirmed"] = bool(mode)
            with vlock: violations.append(rec)
            if mode: found.set(); return r
        # validate the encoding: replay sampled paths natively, compare check counts and traced values
        if r["samples"] and j.validate:
            exe = compile_native(work, j.harness, j.defs, j.entry, "plain")
            for s in (r["samples"] if exe else []):
                if time.time() > deadline: break
                d = dict((k, v) for k, v in s if k.startswith("#")); ins = [(k, v) for k, v in s if not k.startswith("#")]
                inp = os.path.join(work, "s%d.in" % id(j)); write_inputs(inp, j.p(tier), ins)
                rc, txt = run_native(exe, inp, "plain")
                want = "OK checks=%d digest=%d" % (d["#checks"], d["#digest"])
                with vlock:
                    if want in txt: validated[0] += 1
                    elif not stopping: divergences.append({"entry": j.entry, "defs": j.defs, "inputs": ins, "native": txt[-300:], "engine": want})
        return r

    with ThreadPoolExecutor(WORKERS) as ex:
        futs = [ex.submit(run, j) for j in sorted(jobs, key=lambda j: -j.cost)]
        for f in as_completed(futs):
            r = f.result()
            if r: results.append(r)
            if found.is_set(): kill_all()
    confirmed = [v for v in violations if v["confirmed"]]
    unconfirmed = [v for v in violations if not v["confirmed"]]
    # vacuity guard: every job that ran to completion must have reached its witnesses
    vac = []
    for r in results:
        if "covers" in r and r.get("complete") and not r["violations"]:
            for c in r["job"].covers:
                if not r["covers"].get(c): vac.append("%s %s never reaches '%s'" % (r["job"].entry, " ".join(r["job"].defs), c))
    write_evidence(pid, tier, seed, prop, results, violations, validated[0], divergences, notes + vac, t0, known_hit)
    for v in unconfirmed: print("note: unconfirmed counterexample (not reported): %s [%s] %s; native: %s" % (v["msg"], v["kind"], v["where"][:200], v["native"]))
    for d in divergences[:3]: print("note: engine and native run differ on a sampled path: %s" % json.dumps(d)[:600])
    for n in notes + vac: print("note: " + n)
    for m, k in known_hit.items(): print("KNOWN-FINDING: property=%s %s" % (pid, k.get("what", m)))
    if confirmed:
        v = confirmed[0]
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(v, open(path, "w"), indent=1)
        print("%s: %s [%s]" % (pid, v["msg"], v["kind"])); print("  at " + v["where"][:600])
        print("  inputs " + " ".join("%s=%d" % (k, x) for k, x in v["inputs"])[:600]); print("  native replay " + v["native"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    ran = [r for r in results if "paths" in r]
    errs = [r for r in results if "error" in r and not r["job"].optional]
    inc = [r for r in results if not r.get("complete")]
    print("%s %s: %d jobs, %d paths, %d queries, %d assertions; %s; %.0f s" % (pid, tier, len(ran), sum(r["paths"] for r in ran), sum(r["queries"] for r in ran),
          sum(r["assert_queries"] + r["assert_closed"] for r in ran), "all jobs exhausted their bounds" if not inc else "%d jobs incomplete" % len(inc), time.time() - t0))
    for r in inc: print("  incomplete: %s %s: %s" % (r["job"].entry, " ".join(r["job"].defs), r.get("error") or r.get("skipped") or r.get("stop") or r.get("unsupported_msgs")))
    if errs and not ran: return 2
    return 0


def crosscheck(d):
    """decide the dumped queries again with two other solvers"""
    res = {"queries": 0, "z3_new": 0, "cvc5": 0, "disagreements": []}
    for fn in sorted(os.listdir(d))[:60]:
        p = os.path.join(d, fn); want = fn.split(".")[1]; res["queries"] += 1
        for name, cmd in (("z3_new", ["z3-new", "-T:20", p]), ("cvc5", ["cvc5", "--tlimit=20000", p])):
            if not shutil.which(cmd[0]): continue
            rc, out = sh(cmd, 40); o = out.strip().splitlines()
            if o and o[0] in ("sat", "unsat") and "(error" not in out:
                res[name] += 1
                if o[0] != want: res["disagreements"].append([fn, name, o[0]])
    shutil.rmtree(d, ignore_errors=True)
    return res


def write_evidence(pid, tier, seed, prop, results, violations, validated, divergences, notes, t0, known_hit):
    ran = [r for r in results if "paths" in r]
    fn = {}
    for r in ran:
        for n, h in r["functions"]:
            short = re.sub(r"boost::segmented_tree::", "", n); m = re.match(r"(?:.*?\s)?(?:detail::static_traits_t|seq|iterator_t)<.*>::([~\w]+(?:<[^(]*>)?|operator[^(]*\(?\)?)\(", short)
            k = m.group(1) if m else short[:120]
            k = re.sub(r"<.*", "", k) if not k.startswith("operator") else k
            fn[k] = fn.get(k, 0) + h
    samples = []
    for r in ran:
        for s in r["samples"][:1]:
            samples.append({"entry": r["job"].entry, "defs": " ".join(r["job"].defs), "params": r["job"].p(tier), "path_inputs": [x for x in s if x[0] != "v"][:40], "element_values": len([x for x in s if x[0] == "v"])})
        if len(samples) >= 6: break
    S = lambda k: sum(r[k] for r in ran)
    complete = bool(ran) and all(r.get("complete") for r in results)
    cov = {
        "states": S("paths"), "transitions": S("forks") + S("steps"), "traces_validated_against_impl": validated,
        "samples": samples, "exhaustive": complete,
        "symbolic_paths": S("paths"), "paths_cut_by_assumptions": S("assumed_away"), "ir_instructions_executed": S("steps"), "memory_accesses_checked": S("mem_checks"),
        "solver_queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "query_cache_hits": S("cache_hits"),
        "conditions_closed_by_interval_reasoning": S("range_closed"), "of_these_certified_by_solver": sum(r.get("range_certified", 0) for r in ran),
        "assertions_decided_by_solver": S("assert_queries"), "assertions_closed_by_simplification": S("assert_closed"),
        "solver_s": round(S("solver_s"), 2), "engine_s": round(S("wall_s"), 2), "peak_mb": max([r["peak_mb"] for r in ran] or [0]),
        "functions_encoded": dict(sorted(fn.items(), key=lambda x: -x[1])[:160]),
        "jobs": [{"harness": r["job"].harness, "entry": r["job"].entry, "config": " ".join(r["job"].defs), "bounds": r["job"].p(tier), "complete": r.get("complete", False),
                  "paths": r.get("paths"), "queries": r.get("queries"), "witnesses": r.get("covers"), "wall_s": r.get("wall_s"), "stopped": r.get("error") or r.get("skipped") or r.get("stop") or "",
                  "unsupported": r.get("unsupported_msgs") or {}, **({"solver_crosscheck": r["xcheck"]} if "xcheck" in r else {})} for r in results],
        "bounds": prop["bounds"], "outside": prop.get("outside", ""), "notes": notes,
        "encoding_divergences": divergences[:5],
        "counterexamples_not_confirmed_natively": [{k: v[k] for k in ("entry", "msg", "kind", "where", "native")} for v in violations if not v["confirmed"]],
        "known_findings_seen": sorted(known_hit),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["the LLVM IR clang 18 emits for the harness and /repo's headers means what engine/sx.cpp implements (sampled paths are replayed natively)",
                          "Z3 4.8.12 answers are right", "IR is translated with -O1 front end and sroa/early-cse/simplifycfg only"] + prop.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len([v for v in violations if v["confirmed"]])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
