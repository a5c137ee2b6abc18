#!/usr/bin/env python3
"""Development aid (no registered check uses it): applies textual edits to a scratch copy of the package and runs checks on it.
  mut.py [FILTER]   runs every edit of devtest/edits_*.py: B(reak) edits must make the property's check exit 1, K(eep) edits must leave all named checks quiet."""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
EDITS = []
def B(pid, file, old, new, name=""): EDITS.append(("B", [pid], [(file, old, new)], name or new.strip().split("\n")[0][:60]))
def K(pids, file, old, new, name=""): EDITS.append(("K", pids if isinstance(pids, list) else pids.split(), [(file, old, new)], name or new.strip().split("\n")[0][:60]))
for f in sorted(glob.glob(os.path.join(HERE, "edits_*.py"))): exec(open(f).read())
def one(e):
  kind, pids, subs, name = e
  d = tempfile.mkdtemp(prefix="mut")
  try:
    shutil.copytree("/repo/streamtasks", d + "/streamtasks", ignore=shutil.ignore_patterns("*.so", "__pycache__", "assets"))
    for f in ("setup.py", "pyproject.toml"): shutil.copy("/repo/" + f, d)
    for f, old, new in subs:
      p = f"{d}/streamtasks/{f}"
      s = open(p).read()
      if s.count(old) < 1: return f"STALE {kind} {pids} {f}: {name}"
      s = s.replace(old, new, 1)
      compile(s, p, "exec")
      open(p, "w").write(s)
    out = []
    for pid in pids:
      r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), pid], env={**os.environ, "SA_REPO": d, "SA_EVIDENCE": d + "/ev"}, capture_output=True, text=True)
      want = 1 if kind == "B" else 0
      if r.returncode != want: out.append(f"{'MISSED' if kind == 'B' else 'FALSE-ALARM'} {pid} rc={r.returncode} {f}: {name}\n" + "\n".join(l[:300] for l in (r.stdout + r.stderr).splitlines() if "violated" in l or "BROKEN" in l or "Error" in l))
    return "\n".join(out)
  finally: shutil.rmtree(d)
if __name__ == "__main__":
  flt = sys.argv[1] if len(sys.argv) > 1 else ""
  todo = [e for e in EDITS if flt in " ".join(e[1]) + e[2][0][0] + e[3]]
  with ThreadPoolExecutor(8) as ex:
    rs = [r for r in ex.map(one, todo)]
  for r in rs:
    if r: print(r)
  print(f"{len(todo)} edits, {sum(1 for r in rs if r)} unexpected")
