#!/usr/bin/env python3
"""Which checks catch which planted changes: applies every seeded/*/patch.diff to a scratch copy of /repo and runs every check on it. Writes tools/matrix.json."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [c["property"] for c in json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]]
OUT = f"{ROOT}/tools/matrix.json"
def one(d):
  name = os.path.basename(d); prop = json.load(open(f"{d}/meta.json"))["property"]
  with tempfile.TemporaryDirectory(prefix="mx_") as t:
    subprocess.run(["git", "-C", "/repo", "archive", "--format=tar", "-o", f"{t}/r.tar", "HEAD"], check=True)
    os.mkdir(f"{t}/r"); subprocess.run(["tar", "xf", f"{t}/r.tar", "-C", f"{t}/r"], check=True); os.remove(f"{t}/r.tar")
    if subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=f"{t}/r").returncode: return name, prop, None
    env = {**os.environ, "SA_REPO": f"{t}/r", "SA_EVIDENCE": f"{t}/ev"}
    files = {l[6:].strip() for l in open(f"{d}/patch.diff") if l.startswith("+++ b/")}
    got = {}
    for i in IDS:
      rc = subprocess.run(["python3-vt", "check.py", i], cwd=ROOT, env=env, capture_output=True).returncode
      if rc: got[i] = rc
    return name, prop, got
if __name__ == "__main__":
  old = json.load(open(OUT)) if os.path.exists(OUT) and "--all" not in sys.argv else {}
  ds = [d for d in sorted(glob.glob(f"{ROOT}/seeded/*")) if os.path.basename(d) not in old]
  with cf.ThreadPoolExecutor(7) as ex:
    for name, prop, got in ex.map(one, ds):
      old[name] = {"property": prop, "caught": got}
      if got is None or prop not in got: print("MISSED", name, prop, got, flush=True)
  json.dump({k: v for k, v in sorted(old.items()) if os.path.isdir(f"{ROOT}/seeded/{k}")}, open(OUT, "w"), indent=0, sort_keys=True)
