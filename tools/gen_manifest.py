import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Bounded: every path of the real code within the job's bounds (tree sizes, capacities, counts, failure points; values, positions and arguments symbolic) is executed symbolically from LLVM IR regenerated "
        "from /repo on every run and decided by Z3; counterexamples are replayed natively before they are reported. Trusts clang's IR, the executor's IR semantics (sampled paths are replayed natively and compared) and Z3. ")
EXTRA = {
 "S24": "Shows absence of writes to the heap by observers, from which race freedom for concurrent readers follows; threads themselves are not interleaved.",
 "S25": "Random generators are stubs with arbitrary outputs.",
}
m = {"version": 1, "setup_cmd": "make -s -C engine BUILD=$PWD/.build",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of the real code's LLVM IR with Z3 (bounded)", "level": "model_checking",
                 "level_note": (NOTE + EXTRA.get(i, "")).strip()} for i in ids],
     "not_applicable": [], "notes": "No hooks in /repo. Engine: engine/sx.cpp; harnesses: harness/; jobs and bounds: jobs.py; design and results: DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
