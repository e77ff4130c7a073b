"""Writes properties.jsonl and MANIFEST.json from the property list below (run by hand after an edit)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from meta.props import PROPS, NA

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p.get("check"):
        k = p["check"]
        checks.append({"property": p["id"], "quick_cmd": "bin/check %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % p["id"],
                       "technique": k["technique"], "level": k.get("level", "other"), "level_note": k["note"]})
na = [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")]
ids = {c["property"] for c in checks} | {n["property"] for n in na}
assert ids == {p["id"] for p in PROPS}, {p["id"] for p in PROPS} - ids
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
print(len(PROPS), "properties", len(checks), "checks", len(na), "not applicable")

# DESIGN.md from its template: the findings, planted bugs and not-applicable lists are filled in
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
fi = "\n".join("* %s" % k["what"] for k in kf if k["status"] == "fixed")
sd = os.path.join(ROOT, "seeded")
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(sd)):
    j = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, j["property"], j["needs"].replace("|", "/"), j["what_it_breaks"].replace("|", "/")))
nl = "\n".join("* **%s** %s: %s" % (p["id"], p["title"], p["na"]) for p in PROPS if p.get("na")) or "none"
t = open(os.path.join(ROOT, "meta", "DESIGN.tpl.md")).read()
t = t.replace("FINDINGS\n", fi + "\n").replace("SEEDS\n", "\n".join(rows) + "\n").replace("NAPP\n", nl + "\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
