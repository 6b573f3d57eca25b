"""Writes properties.jsonl and MANIFEST.json from props.py and the rules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, V)
import importlib
from props import P
with open(V + "/properties.jsonl", "w") as fo:
  for p in P:
    fo.write(json.dumps({
      "id": p["id"], "title": p["title"], "statement": p["statement"],
      "quantifier": {"over": p["over"], "text": p["text"]},
      "why_tests_cant": p["why"],
      "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                  "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
  i = p["id"]
  if os.path.exists("%s/rules/%s.py" % (V, i)) and not p["na"]:
    m = importlib.import_module("rules." + i)
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": getattr(m, "TECHNIQUE", "static value-flow summaries of all paths compared with specification summaries"),
                   "level": "other",
                   "level_note": p["note"] or ("Static: " + getattr(m, "WHAT", "") + ". Trusted: the specification text, the term rewriting, and the model of Python built-ins; paths with loops are compared by iteration bodies, initial values and exits.")})
  else:
    na.append({"property": i, "reason": p["na"] or "no static check built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, json; print(\"nothing to build\")'", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
