#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props_*.py (a property with `na` is not claimed)."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
PROPS = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note="", na=None):
  PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note, na=na))
AI = "path-sensitive abstract interpretation of the resolved source"
NOTE = "Every abstract path of the named entry points is enumerated from the current source (helpers inlined, loops by arbitrary iterations, heap and collection membership tracked symbolically); the rule is checked on each. Trusted: the interpreter's model of Python and of the few library calls it names, and single-threaded asyncio (state only changes at awaits)."
FLOW = "control-flow graphs with exception and cancellation edges of every function of the package, "
NF = ["streamtasks/net/__init__.py", "streamtasks/net/messages.py", "streamtasks/net/serialization.py", "streamtasks/net/helpers.py", "streamtasks/utils.py"]
for f in sorted(glob.glob(os.path.join(HERE, "props_*.py"))): exec(open(f).read())
ids = [p["id"] for p in PROPS]; assert len(ids) == len(set(ids))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
  for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
      "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]], "observe_at": list(p["observe"]), "hook_needed": False}}) + "\n")
checks, na = [], []
for p in PROPS:
  if p["na"]: na.append({"property": p["id"], "reason": p["na"]}); continue
  checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "technique": p["tech"], "level": "other", "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 11)'", "checks": checks, "not_applicable": na,
  "notes": "Static analysis only: check.py parses /repo's current Python sources (stdlib ast, nothing of the repository is imported or run) and decides each property with an abstract interpreter (sa/interp.py) and the rules in sa/rules. No hooks in /repo. known_findings.txt lists recorded findings and repaired defects."},
  open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
