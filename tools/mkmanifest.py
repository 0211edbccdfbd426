"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        n = sum(len(q) for q in c.get("contracts", {}).values())
        m["checks"].append(dict(property=i, quick_cmd=f"python3-vt check.py {i} --tier quick", thorough_cmd=f"python3-vt check.py {i} --tier thorough",
                                evidence_file=f"evidence/{i}.json", level=c["level"],
                                technique=c.get("technique", "contracts on the real functions, verification conditions generated from /repo's source and discharged by z3 (pyvc); contracts replayed on the running code (bounded)"),
                                level_note=c.get("note", f"{n} functions under contract, all obligations for all inputs; ") + c.get("trust",
                                    " Trusts the VC generator, z3, structural equality of values (A-EQ), mathematical integers and the assumed contracts listed in the evidence.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
