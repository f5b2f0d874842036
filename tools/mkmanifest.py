#!/usr/bin/env python3
"""Writes MANIFEST.json: CLAIMED lists the properties with a check, the rest need a reason."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
T="contract-based deductive verification: contracts (representation invariant, pre/postconditions, loop invariants) discharged on the LLVM IR of the real headers"
NOTE={
 "fun":"Every obligation of the contracts constructor / addData / finalize / toArray against the executable specification is discharged for all messages, all call lengths and all buffer states on the compiler's IR of /repo's headers. Trusted: clang's front end, the irv executor and normaliser, z3 for a minority of equalities, the specification text.",
}
CLAIMED=json.load(open(V+"/tools/claims.json"))
checks=[]
for p in ids:
    if p in CLAIMED["claimed"]:
        checks.append(dict(property=p,quick_cmd="python3 tools/check.py "+p,thorough_cmd="VERIF_TIER=thorough python3 tools/check.py "+p,evidence_file="evidence/%s.json"%p,technique=T,level="proof",level_note=CLAIMED["claimed"][p] or NOTE["fun"]))
na=[dict(property=p,reason=CLAIMED["not_applicable"].get(p,"not claimed yet: contracts under construction")) for p in ids if p not in CLAIMED["claimed"]]
json.dump(dict(version=1,setup_cmd="sh tools/setup.sh",checks=checks,not_applicable=na,notes="See DESIGN.md. No hooks are needed: the checks compile /repo/src as it is."),open(V+"/MANIFEST.json","w"),indent=1)
