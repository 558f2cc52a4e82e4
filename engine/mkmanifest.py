"""writes MANIFEST.json from the suites"""
import json
import os
import suites

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
CLAIMED = [l for l in open(os.path.join(V, "engine", "claimed.txt")).read().split()]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt engine/check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt engine/check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the compiled %s (LLVM IR) with SMT queries (z3)" % ("program" if i == "C17" else "library"),
            "level": "model_checking",
            "level_note": "holds for every value within the bounds, on every path the run completed (the evidence lists undecided and unexplored ones): "
                          + suites.INFO[i]["bounds"] + ". Trusted: rustc/LLVM's code generation below the IR, the engine and its term rewriting, the reference model (checked against hashlib each run).",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3-vt engine/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check rebuilds the harness crate against /repo's working tree in a temporary directory."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
