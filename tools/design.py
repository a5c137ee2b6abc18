#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property tables, evidence/ and matrix.json."""
import collections, io, json, os, re, contextlib
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
src = open(f"{HERE}/gen.py").read().replace("os.path.abspath(__file__)", repr(f"{HERE}/gen.py"))
g = {"__name__": "gen", "__file__": f"{HERE}/gen.py"}
with contextlib.redirect_stdout(io.StringIO()): exec(src, g)
PROPS = g["PROPS"]
matrix = json.load(open(f"{HERE}/matrix.json")) if os.path.exists(f"{HERE}/matrix.json") else {}
caught, missed, also = collections.defaultdict(list), collections.defaultdict(list), collections.defaultdict(list)
for n, m in matrix.items():
  (caught if (m["caught"] or {}).get(m["property"]) == 1 else missed)[m["property"]].append(n)
  for p, rc in (m["caught"] or {}).items():
    if p != m["property"] and rc == 1: also[p].append(n)
known = open(f"{ROOT}/known_findings.txt").read()
head = open(f"{HERE}/design_head.md").read()
out = [head.rstrip("\n").replace("@FIXED@", str(len(re.findall(r"^fixed: ", known, re.M)))).replace("@KNOWN@", str(len(re.findall(r"^known: ", known, re.M)))), ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
  out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
  if p["na"]: out += [f"**Not applicable.** {p['na']}", ""]; continue
  e = json.load(open(f"{os.environ.get('SA_EVIDENCE', ROOT + '/evidence')}/{p['id']}.json"))["coverage"]
  text = e["explanation"].split("Rules applied: ")[1].split(" | ")
  out += [f"*For all:* {p['text']}. *Why tests cannot:* {p['why']}", "", f"*Decided by* {p['tech']}.", ""]
  for r in text:
    n, _, t = r.partition(": ")
    out.append(f"* `{n}` – {t} ({e['obligations_per_rule'].get(n, 0)} obligations)")
  for kind, label in (("fixed", "repaired"), ("known", "recorded")):
    for l in re.findall(rf"^{kind}: property={p['id']} (.*)$", known, re.M): out.append(f"* {label}: {l.split(' :: ')[-1]}")
  out += ["", f"*Analysed:* {e['functions_analysed']} functions, {e['abstract_paths']} abstract paths." + (f" *Not judged / trusted:* {p['note'].replace(g['NOTE'], '').strip()}" if p["note"].replace(g["NOTE"], "").strip() else ""), ""]
  l = []
  if caught[p["id"]]: l.append("catches its planted changes " + ", ".join(f"`{x}`" for x in sorted(caught[p["id"]])))
  if missed[p["id"]]: l.append("misses " + ", ".join(f"`{x}`" for x in sorted(missed[p["id"]])))
  if also[p["id"]]: l.append("also reports " + ", ".join(f"`{x}`" for x in sorted(also[p["id"]])))
  if l: out += ["*Planted changes:* " + "; ".join(l) + ".", ""]
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out))
print(len(PROPS), "properties,", len(matrix), "planted changes,", sum(map(len, missed.values())), "missed")
