#!/usr/bin/env python3-vt
"""Rewrites MANIFEST.json from dv/props.py and the not-applicable reasons below."""
import sys, os, json
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + "/dv")
from props import PROPS, NOTES
CONC = "concurrent history property (linearizability / reclamation under interleavings) over code that uses atomics, OLC latches and folly/sync_prim headers absent from this sandbox (external/synchronization-primitives is an empty submodule, so the code does not even compile here); sequential contracts cannot express it and no permission logic for C++ is installed"
NA = {"C16": CONC, "C17": CONC, "C18": CONC, "C19": CONC,
 "C15": "the hash table is written over atomics, epoch guards and the absent sync_prim submodule; even its sequential paths run through concurrent migration code that no installed contract verifier for C++ reads",
 "C21": "core_workload is built on std::map/std::string properties, iostream and floating-point proportions; contracts on those library bodies are outside the executor's reach, and assuming them would assume the property",
 "C22": "the stores are thin wrappers around std::map<std::string, ...> and string concatenation; the property is about the libraries' content, which the executor cannot read without assuming it (a defect found by reading is described in DESIGN.md, F9)",
 "C25": "the draw is floating point (pow, zeta sums); no installed deductive back end decides it and the executor has no floating-point theory"}
TECH = "contract-based deductive verification (function contracts, loop invariants and data-structure invariants on the compiled real code, discharged by z3/cvc5)"
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3-vt /verif/setup_check.py",
     "checks": [{"property": i, "quick_cmd": "python3-vt /verif/check.py %s quick" % i, "thorough_cmd": "python3-vt /verif/check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                 "technique": PROPS[i].get("technique", TECH),
                 "level": PROPS[i].get("level", "proof"), "level_note": NOTES[i]} for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: the verifier reads the compiled real code; five fix: commits repair genuine defects (see known-findings.txt)."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
