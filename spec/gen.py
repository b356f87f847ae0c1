"""Write properties.jsonl and MANIFEST.json from spec/properties.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties import P
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"],
                "level_note": p["note"]} for p in P if p["built"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["built"]],
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import re
for p in P:
    s = p["statement"]
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"[.](\s|$)", s))
    assert n <= 3, (p["id"], n)
print(len(P), "properties,", sum(p["built"] for p in P), "claimed")
