import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
na = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="./setup.sh",
  checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
    technique=p.get("technique", "contract-based deductive verification (govc: VCs from go/ssa of the real code, z3/cvc5)"), level=p.get("level", "proof"), level_note=p["note"]) for p in P if p["id"] not in na],
  not_applicable=NA)
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
