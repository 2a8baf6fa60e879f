"""Records which rules have instances on the reference tree, from the evidence of the last runs of all checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
out = {}
for p in sorted(check.RUNNERS):
    with open(os.path.join(ROOT, "evidence", p + ".json"), encoding="utf-8") as f:
        e = json.load(f)
    assert e["tier"] == "quick" and not e["coverage"]["undecided"], p
    out[p] = sorted(e["coverage"]["obligations_by_rule"])
with open(os.path.join(ROOT, "sa", "rules.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
