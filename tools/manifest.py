"""Writes MANIFEST.json from properties.jsonl and tools/levels.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(os.path.join(H, "tools", "levels.json")))
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    e = lv.get(p, lv["*"])
    checks.append(dict(property=p, quick_cmd="python3-vt /verif/check.py %s" % p,
                       thorough_cmd="python3-vt /verif/check.py %s --thorough" % p,
                       technique=e["technique"], level=e["level"], level_note=e["note"]))
json.dump(dict(version=1, setup_cmd="sh /verif/setup.sh", checks=checks, not_applicable=[],
               notes="One command per property: it verifies contracts on the source of /repo (l1) and runs the same "
                     "contracts on the real code (l2). See DESIGN.md."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
