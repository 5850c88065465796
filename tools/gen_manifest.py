#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/runs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import runs as R
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks = []
for p in ids:
    s = R.PROPS.get(p)
    if not s:
        continue
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": "symbolic execution of the compiled LLVM IR of /repo, every path condition and assertion decided by z3 (bit-vectors)", "level": "model_checking",
        "level_note": ("Bounds: " + s["bounds"] + ("; outside: " + s["outside"] if s.get("outside") else "") + ". Trusts rustc's lowering to IR, the engine in /verif/engine (sampled paths are replayed in the native build on every run) and z3. "
            "Assumes: " + "; ".join(R.ASSUMPTIONS + s.get("assumptions", [])))[:4000]})
na = [{"property": p, "reason": R.NOT_APPLICABLE.get(p, "no check yet")} for p in ids if p not in R.PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg(rescan_verif)", "enable": "RUSTFLAGS='--cfg rescan_verif' RESCAN_VERIF=<directory of generated includes> (tools/build_ir.py does both)", "source_commits": R.HOOK_COMMITS},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Known findings and repairs: known-findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
