#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the check modules present in checks/."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    tree = ast.parse(open(f).read())
    doc = ast.get_docstring(tree) or ""
    consts = {t.id: ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign)
              for t in n.targets if isinstance(t, ast.Name) and t.id in ("TECHNIQUE", "LEVEL_NOTE")}
    checks.append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
                       thorough_cmd="./check %s --tier thorough" % p["id"],
                       technique=consts.get("TECHNIQUE", "property-based testing (Hypothesis): " + doc.split(":", 1)[-1].strip().split("\n")[0]),
                       level="exploration",
                       level_note=consts.get("LEVEL_NOTE", "Generated-input search; no violation among the explored cases. "
                       "Trusts the oracle in checks/%s.py, NumPy/SciPy and Hypothesis." % p["id"].lower())))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
