#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import REG
try: from registry import NA
except ImportError: NA = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        c = REG[i]
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i,
            technique="contract-based deductive verification: VC generation over the clang AST of /repo's current sources, obligations discharged by z3 (cvc5 second); failing inputs by replay on the real code",
            level="proof", level_note=c.get("note", "All listed functions are proved against their contracts for all inputs; a bounded replay of the real code supplies failing inputs and stands in, labelled bounded, if an edit leaves the verifier's reach.")))
    else: na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
