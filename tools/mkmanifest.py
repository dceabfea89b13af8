#!/usr/bin/env python3
# writes /verif/MANIFEST.json from properties.jsonl and lcv/props.py
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lcv")
from props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []; na = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        note = ("Proved for all inputs, from /repo's current source, function by function: " + ", ".join(p["functions"]) + ". ") if p["functions"] else ""
        if p["bounded"]: note += "Bounded only (executed on randomly generated inputs against a brute-force oracle, not proved): " + "; ".join(p["bounded"]) + ". "
        if p["assumptions"]: note += "Assumes: " + "; ".join(p["assumptions"]) + ". "
        note += "Trusted: clang's AST, the obligation generator lcv/sem.py, z3/cvc5."
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3-vt lcv/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt lcv/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification (function contracts and loop invariants on the clang AST of the real C code, SMT-discharged obligations), with replay of concrete inputs on the real code",
                       "level": p["level"], "level_note": note})
    else: na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -m py_compile lcv/front.py lcv/spec.py lcv/sem.py lcv/verify.py lcv/props.py lcv/check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo. Contracts are in contracts/*.lcv, attached by name to functions extracted from /repo's current source on every run; lcv/ is the verifier; native/ replays concrete inputs on the real code."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
