#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: builds seeded/<id>/ from specs, confirming each: patch applies, tests pass, demo 0 without / nonzero with it. Works on a copy under /tmp, never in /repo."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
SPECS = []
def S(id, prop, edits, needs, breaks, demo, env=""): SPECS.append((id, prop, edits, needs, breaks, demo, env))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
NOTEST = os.environ.get("NOTEST")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for id, prop, edits, needs, breaks, demo, env in SPECS:
  if only and id not in only: continue
  d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
  w = tempfile.mkdtemp(prefix="seed"); r = w + "/repo"
  sh(f"cp -a /repo {r}")
  sh(f"git -C {r} checkout -q -- . ")
  ok = True
  for f, old, new in edits:
    p = f"{r}/{f}"; s = open(p).read()
    if s.count(old) != 1: print(id, "STALE/ambiguous", f, s.count(old)); ok = False; break
    open(p, "w").write(s.replace(old, new))
  if not ok: shutil.rmtree(w); continue
  diff = sh(f"git -C {r} diff").stdout
  open(d + "/patch.diff", "w").write(diff)
  open(d + "/demo.py", "w").write(demo.lstrip("\n"))
  open(d + "/demo.sh", "w").write(f"#!/bin/bash\n# run in the repository: exit 0 when the behaviour is right\nexport PYTHONPATH=\"$PWD\" PYTHONDONTWRITEBYTECODE=1\n{env}exec timeout 120 /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
  json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
  a = sh(f"bash {d}/demo.sh", cwd="/repo"); b = sh(f"bash {d}/demo.sh", cwd=r)
  msg = f"{id} {prop}: unchanged rc={a.returncode}, patched rc={b.returncode}"
  if a.returncode: msg += "\n  UNCHANGED FAILS " + (a.stdout + a.stderr)[-600:]
  if not b.returncode: msg += "\n  PATCHED PASSES"
  if not NOTEST:
    t = sh(f"sed 's#cd /repo#cd {r}#' /opt/vp/test.sh > {w}/t.sh; bash {w}/t.sh {w}/o.json", cwd=r)
    try: miss = [x for x in base if x not in (json.load(open(w + "/o.json")).get("passed") or [])]
    except Exception as e: miss = [repr(e), t.stderr[-300:]]
    msg += f"; tests missing: {miss[:3]}"
  c = sh(f"SA_REPO={r} SA_EVIDENCE={w}/ev python3 {ROOT}/check.py {prop}")
  msg += f"; check rc={c.returncode} " + " ".join(l.strip()[:160] for l in c.stdout.splitlines() if "violated" in l)[:300] + c.stderr[-200:]
  print(msg, flush=True)
  shutil.rmtree(w)
