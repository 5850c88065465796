#!/usr/bin/env python3
"""Decides one property: symbolic execution of the LLVM IR of /repo's current tree, verdicts by z3.

usage: check.py ID [quick|thorough]
exit 0: held on everything explored; exit 1: violation (replayed natively); anything else: no answer.
"""
import json, os, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import build_ir as B
import runs as R

VERIF = B.VERIF

def demangle(names):
    try:
        out = subprocess.run([os.path.join(B.VERIF, "tools", "demangle")], input="\n".join(names), text=True, capture_output=True)
        if out.returncode == 0:
            return out.stdout.split("\n")[:len(names)]
    except OSError:
        pass
    return names

def case_text(entry, params, syms):
    t = f"entry {entry}\n" + "".join(f"param {p}\n" for p in params)
    return t + "".join(f"sym {h if h else '-'}\n" for h in syms)

def native(exe, text, path, timeout, wrap=()):
    """Runs cases; returns a list of {end, events, observed}; a crash ends the list with end 'signal N'."""
    open(path, "w").write(text)
    try:
        p = subprocess.run(list(wrap) + [exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"
    res = []
    for l in out.splitlines():
        if l.startswith("case "):
            res.append({"end": None, "events": [], "observed": []})
        elif not res:
            continue
        elif l.startswith("end "):
            res[-1]["end"] = l[4:]
        elif l.startswith("o "):
            res[-1]["observed"].append(l[2:])
        else:
            res[-1]["events"].append(l.strip())
    if res and res[-1]["end"] is None:
        res[-1]["end"] = "timeout" if rc == "timeout" else f"died {rc}"
    return res, rc, out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = R.PROPS[pid]
    runs = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"])
    try:
        eng = B.engine()
        ll, entries = B.build_ir(pid, ["common.rs"] + spec["files"])
        exe = B.build_native(pid)
    except B.BuildError as e:
        print(f"{pid}: build failed\n{e}")
        return 3
    tb = time.time()
    work = os.path.join(B.BUILD, pid)
    limit = R.LIMIT[tier]

    def one(k):
        r = runs[k]
        out = os.path.join(work, f"run{k}.json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [eng, ll, "--entry", "vh_h_" + r["entry"], "--out", out, "--budget", str(max(30, limit - (time.time() - t0))), "--qtimeout", str(r.get("qtimeout", 120000)),
               "--samples", str(spec.get("samples", 16)), "--seed", str(seed), "--max-viol", "8"] + [x for p in r["params"] for x in ("--param", str(p))] + r.get("flags", [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit + 120)
        except subprocess.TimeoutExpired:
            return k, None, "engine timed out"
        if p.returncode not in (0, 1, 2) or not os.path.exists(out):
            return k, None, f"engine exit {p.returncode}: {p.stdout[-2000:]}"
        return k, json.load(open(out)), ""

    order = sorted(range(len(runs)), key=lambda k: -runs[k].get("cost", 1))
    res = [None] * len(runs)
    problems = []
    with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for k, d, err in ex.map(one, order):
            res[k] = d
            if d is None:
                problems.append(f"{runs[k]['entry']}{runs[k]['params']}: {err}")
    covers = {}
    funcs = set()
    tot = dict.fromkeys(["paths", "completed", "merges", "forks", "instructions", "checks", "checks_folded", "checks_symbolic", "caught_panics", "assume_cut", "solver_queries", "solver_sat", "solver_unsat", "solver_unknown", "solver_time_s", "cache_hits", "byte_domain_decisions"], 0)
    per = []
    viols = []
    text = ""
    expect = []
    for k, d in enumerate(res):
        if d is None:
            continue
        for c, n in d["covers"].items():
            covers[c] = covers.get(c, 0) + n
        funcs.update(d["functions"])
        for t in tot:
            tot[t] += d[t]
        per.append({"entry": runs[k]["entry"], "params": runs[k]["params"], "paths": d["paths"], "merges": d["merges"], "instructions": d["instructions"], "queries": d["solver_queries"], "checks": d["checks"], "time_s": round(d["time_s"], 2), "solver_max_s": round(d["solver_max_s"], 3)})
        if d["inconclusive"]:
            problems.append(f"{runs[k]['entry']}{runs[k]['params']}: {d['why']} {d['unsupported'][:3]}")
        elif d["completed"] + len(d["violations"]) == 0:
            problems.append(f"{runs[k]['entry']}{runs[k]['params']}: vacuous, no path completed")
        for v in d["violations"]:
            viols.append((k, v))
        for s in d["samples"]:
            text += case_text(runs[k]["entry"], runs[k]["params"], s["inputs"])
            expect.append((k, s))
    # every sampled path must do natively what the engine says it does
    validated = 0
    bad = []
    if text:
        nr, rc, _ = native(exe, text, os.path.join(work, "samples.case"), 300)
        for (k, s), r in zip(expect, nr):
            if r["end"] == "ok" and r["observed"] == s["observed"]:
                validated += 1
            elif not viols:
                bad.append((k, s, r))
        if len(nr) != len(expect) and not viols:
            bad.append(("crash", rc, len(nr)))
    found = []
    unrep = []
    known = R.KNOWN.get(pid, [])
    hit_known = []
    for i, (k, v) in enumerate(viols):
        path = os.path.join(work, f"violation{i}.case")
        text = case_text(runs[k]["entry"], runs[k]["params"], [x["hex"] for x in v["inputs"]])
        nr, rc, out = native(exe, text, path, 60)
        end = nr[0]["end"] if nr else f"died {rc}"
        ok = end not in ("ok", "assume", "input", "noentry")
        if not ok and v["kind"] in ("memory", "unreachable"):
            nr, rc, out = native(exe, text, path, 120, ("valgrind", "-q", "--error-exitcode=99"))
            ok = rc == 99
            end = f"valgrind {rc}"
        if ok:
            found.append((path, k, v, end))
        else:
            unrep.append(f"{v['kind']}: {v['what']} on {[x['hex'] for x in v['inputs']]} (native run ended {end})")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["merges"],
            "transitions": tot["instructions"],
            "traces_validated_against_impl": validated,
            "samples": [{"entry": runs[k]["entry"], "params": runs[k]["params"], "inputs": s["inputs"], "observed": s["observed"]} for k, s in expect[:: max(1, len(expect) // 6)][:6]],
            "what_states_and_transitions_are": "states: ends of symbolic paths plus join points; transitions: IR instructions executed symbolically",
            "runs": per, "totals": tot, "covers": {c: n for c, n in covers.items() if not c.startswith("caught ")},
            "functions_encoded": sorted(x for x in demangle(sorted(funcs)) if "rescan" in x and "verif" not in x),
            "functions_encoded_total": len(funcs), "bounds": spec["bounds"], "outside": spec.get("outside", ""),
            "solver": "z3 " + R.Z3VER, "build_s": round(tb - t0, 1),
        },
        "assumptions": R.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    new = 0
    for path, k, v, end in found:
        sig = f"{runs[k]['entry']}: {v['what']}"
        m = [x for x in known if x["match"] == sig]
        if m:
            hit_known.append(m[0]["what"])
            continue
        new += 1
        print(f"  {v['kind']}: {v['what']} in {runs[k]['entry']}{runs[k]['params']}, inputs " + ", ".join(f"{x['name']}={x['hex']}" for x in v["inputs"])[:1500] + f"; native replay: {end}")
        print(f"VIOLATION property={pid} replay={path}")
    for w in sorted(set(hit_known)):
        print(f"KNOWN-FINDING: property={pid} {w}")
    if new:
        return 1
    for c in spec["covers"]:
        if not covers.get(c):
            problems.append(f"never reached: {c}")
    if unrep:
        print(f"{pid}: counterexamples that do not reproduce natively:")
        for u in unrep:
            print("  " + u[:1500])
        return 4
    if bad:
        print(f"{pid}: sampled paths that the native build does not follow:")
        for b in bad[:5]:
            print("  " + str(b)[:1500])
        return 5
    if problems:
        print(f"{pid}: no answer:")
        for p in problems:
            print("  " + p[:1500])
        return 2
    print(f"{pid} held: {tot['paths']} paths, {tot['merges']} merges, {tot['instructions']} instructions, {tot['checks']} checks, {tot['solver_queries']} queries ({tot['solver_time_s']:.1f} s), {validated}/{len(expect)} sampled paths replayed natively, {time.time() - t0:.0f} s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
