#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decide one property from /repo's current source.

Compiles the real code, generates the obligations of every function the property depends on (function by function, callees
through their contracts) and discharges them.  When one fails, the real code is searched for a failing input (replay.py)."""
import sys, os, time, json, hashlib, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "dv"))
import prove, llvmir
from core import Unsupported
from props import PROPS, UNITS
import replay

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    P = PROPS[prop]; prove.FAILFAST[0] = True
    budget_end = t0 + (560 if tier == "quick" else 3000)
    results = []; bad = []; cmds = []
    for job in P["jobs"](tier):
        if bad: break
        uname, config = job["unit"], job["config"]
        try:
            unit = UNITS[uname](config)
        except (llvmir.CompileError, Unsupported) as e:
            bad.append({"unit": uname, "config": config, "fn": "(translation unit)", "label": "the harness over the real headers compiles and its layout is known", "status": "error", "detail": str(e)[:3000]}); break
        except Exception as e:
            bad.append({"unit": uname, "config": config, "fn": "(translation unit)", "label": "the real code is translated", "status": "error", "detail": "%s: %s" % (type(e).__name__, str(e)[:3000])}); break
        cmds.append(" ".join(unit.cmd) if unit.cmd else "")
        fns = job["fns"](unit); budget = max(20.0, min(job.get("budget", 240.0), budget_end - time.time()))
        if hasattr(unit, "run"): rs = unit.run(fns, 8, budget)
        else:
            prove.HINTS.clear(); prove.load_hints(); prove.use_hints(unit.hint_key)
            rs = prove.run_unit(unit, prove.cost_order(unit, fns), jobs=8, budget=budget)
        for r in rs:
            r["unit"], r["config"] = uname, config; results.append(r)
            if r["error"]: bad.append({"unit": uname, "config": config, "fn": r["fn"], "label": "the function is within the verifier's reach", "status": "error", "detail": r["error"]})
            for o in r["obs"]:
                if o["fail"] and not o["fail"].get("skipped"): bad.append(dict(o["fail"], unit=uname, config=config, fn=r["fn"], label=o["label"]))
            if r.get("vacuous") and not r["error"]: bad.append({"unit": uname, "config": config, "fn": r["fn"], "label": "the contract is not vacuous", "status": "vacuous", "detail": ""})
        if not bad and any(o["fail"] for r in rs for o in r["obs"]):
            r, o = next((r, o) for r in rs for o in r["obs"] if o["fail"]); bad.append(dict(o["fail"], unit=uname, config=config, fn=r["fn"], label=o["label"]))
    t_proof = time.time() - t0
    nob = sum(o["n"] for r in results for o in r["obs"]); npr = sum(o["proved"] for r in results for o in r["obs"])
    if not bad and nob == 0: bad.append({"unit": "-", "config": "-", "fn": "-", "label": "obligations were generated", "status": "vacuous", "detail": ""})
    viol = None; search = None
    if bad:
        d = os.path.join(HERE, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".txt")
        search = replay.search(prop, P, bad, seed, tier, max(60, min(240, 860 - (time.time() - t0))) if tier == "quick" else 900)
        with open(path, "w") as f:
            f.write("property %s: failed obligations\n" % prop)
            for b in bad[:20]: f.write("  %s [%s/%s] %s: %s\n    goal: %s\n    path: %s\n    solver: %s\n" % (b["fn"], b["unit"], b["config"], b["status"], b["label"], b.get("goal", "-"), b.get("trail", "-"), b.get("detail", "")))
            f.write("\nsearch on the real code: %s\n" % search["note"])
            if search["found"]: f.write("failure: %s\n\n%s\n" % (search["failure"], search["text"]))
        viol = (path, search["found"])
        for b in bad[:8]: print("failed obligation: %s [%s]: %s (%s) %s" % (b["fn"], b["config"], b["label"], b["status"], b.get("detail", "")[:200].replace("\n", " ")))
        if search["found"]: print("failing run of the real code: " + search["failure"])
    by = {}
    for r in results:
        for o in r["obs"]:
            for k, n in o["by"].items(): by[k] = by.get(k, 0) + n
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "wall_s": round(time.time() - t0, 2),
          "coverage": {"obligations": nob, "discharged": npr, "discharged_by": by, "checker_cmd": "python3-vt /verif/check.py %s %s" % (prop, tier), "compile_cmds": cmds,
                       "trusted_base": P["trusted"], "assumptions": P["assume"], "solver_s": round(sum(o["time"] for r in results for o in r["obs"]), 1), "proof_wall_s": round(t_proof, 1),
                       "functions_under_contract": len([r for r in results if r["obs"]]),
                       "functions": [{"fn": r["fn"], "config": r["config"], "unit": r["unit"], "obligations": sum(o["n"] for o in r["obs"]), "discharged": sum(o["proved"] for o in r["obs"]), "paths": r["paths"], "s": round(r["time"], 2), "callee_contracts_used": r["assumed"]} for r in results],
                       "absent_functions": sorted({r["fn"] for r in results if r.get("missing")}),
                       "failed": [{"fn": b["fn"], "config": b["config"], "obligation": b["label"], "status": b["status"]} for b in bad],
                       "samples": [{"fn": r["fn"], "config": r["config"], "labels": [o["label"] for o in r["obs"]][:12]} for r in results[:4]]}}
    if P.get("explanation"): ev["coverage"]["explanation"] = P["explanation"](tier)
    if search: ev["coverage"]["concrete_search"] = search["note"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d obligations, %d discharged, %d functions, %.1f s" % (prop, tier, nob, npr, len(results), time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s%s" % (prop, viol[0], "" if viol[1] else " no-failing-input-found")); return 1
    return 0

if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc()
        p = os.path.join(HERE, "evidence", "replay"); os.makedirs(p, exist_ok=True); p = os.path.join(p, sys.argv[1] + ".txt")
        open(p, "w").write("the verifier could not process the current source:\n" + traceback.format_exc())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (sys.argv[1], p)); rc = 1
    sys.stdout.flush(); os._exit(rc)
