import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import props
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
         notes="Checks are run by python3-vt check.py ID. pyvc is the deductive verifier (obligations from /repo's source on every run, z3 and cvc5). Bounded parts are labelled bounded in the evidence.")
for i in ids:
    p = props.PROPS.get(i)
    if p is None:
        m["not_applicable"].append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no check yet")))
        continue
    proof = p["level"] == "proof"
    m["checks"].append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=p.get("technique") or ("contract-based deductive verification (pyvc, z3/cvc5) of the real functions; bounded contract evaluation for what stays outside" if proof else
                   "bounded evaluation of the property's contract on the real code (stand-in for functions outside the verifier's reach)"),
        level=p["level"], level_note=p["note"] or "bounded", **({"theorems": p["theorems"]} if p.get("theorems") else {})))
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
