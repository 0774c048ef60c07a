#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl (not run by any check)."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks import CHECKS, LEVEL
TECH = {
    "C01": "stateful property-based testing against a vector-per-type model",
    "C02": "stateful property-based testing of range insertion against a vector-per-type model",
    "C03": "stateful property-based testing: all traversal views compared with each other and the model",
    "C04": "stateful property-based testing with held references and iterators",
    "C05": "stateful property-based testing over up to 31 types with exception oracle",
    "C06": "stateful property-based testing of capacity laws, with limited-max_size allocators",
    "C07": "model-based histories over several collections and allocator traits",
    "C08": "model-based histories with recording allocators and tracked objects",
    "C09": "property-based testing of == and != against the model, with minimal mutations",
    "C10": "fault injection at every throwing step of generated operations on generated states",
    "C11": "differential property-based testing against the std algorithms",
    "C12": "differential property-based testing with recorded static types",
    "C13": "property-based testing with types lacking copy, equality or assignment against a throw oracle",
    "C14": "property-based testing of object identity across views over many layouts and kinds of types",
    "C15": "property-based testing of iterator laws and conversions",
    "C16": "generated concurrent const operations under ThreadSanitizer, results compared with a sequential run",
    "C17": "generated operations with counted element operations against cost bounds",
    "C18": "stateful property-based testing of self-insertion against a vector-per-type model",
    "C19": "stateful property-based testing with fabricated equal type_info objects",
    "C20": "property-based testing with elements recording copies, moves and argument categories against a reference model",
    "C21": "stateful model-based property testing of trees of collections",
    "C22": "property-based testing over a combinatorial family of types against the definition of acceptable types and a vector-per-type model",
    "C23": "stateful model-based property testing with allocator-aware elements and recording memory resources",
}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        lvl = LEVEL.get(i, "exploration")
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": lvl,
                       "level_note": ("every throwing step of each generated operation is failed in turn; operations and states are sampled" if lvl == "fault_enumeration"
                                      else "seeded generated cases against an executable oracle under sanitizers; thorough adds 20x the cases and coverage-guided search"
                                      if i != "C16" else "seeded generated programs on real threads under ThreadSanitizer; schedules are those that occur")})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public interface only. Set VERIF_SEED to vary the cases."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
