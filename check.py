#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--tier quick|thorough]: decides one property from the source in /repo (or $SA_REPO).
exit 0: holds (known findings are printed), 1: violated, 2: the analysis cannot be applied to this tree."""
import importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.program import Program, AnalysisBroken
from sa.rule import Ctx, load_known
from sa.rules import REGISTRY


def main(argv):
  pid = argv[0]
  tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
  if tier not in ("quick", "thorough"): tier = "quick"
  try: seed = int(os.environ.get("VERIF_SEED", "1"))
  except ValueError: seed = 1
  t = time.time()
  evdir = os.path.join(os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence"))
  os.makedirs(evdir, exist_ok=True)
  prog = Program()
  ctx = Ctx(pid, prog, tier)
  fn = REGISTRY[pid]
  broken = None
  try: fn(ctx)
  except AnalysisBroken as e: broken = e
  known = {k["key"]: k for k in load_known() if k.get("property") == pid}
  hit, new = [], []
  for v in ctx.violations: (hit if v["key"] in known else new).append(v)
  short = [f"{r}: {ctx.obligations.get(r, 0)} < {n}" for r, n in ctx.needs.items() if ctx.obligations.get(r, 0) < n]
  wall = time.time() - t
  with open(os.path.join(evdir, pid + ".json"), "w") as f: json.dump(ctx.evidence(wall, seed, len(new), hit), f, indent=1)
  print(f"{pid}: {sum(ctx.obligations.values())} obligations over {len(ctx.functions)} functions, {sum(i.npaths for i in ctx.interps)} abstract paths, {wall:.1f}s")
  for r, n in ctx.obligations.items(): print(f"  rule {r}: {n} obligations (at least {ctx.needs.get(r, 0)} required)")
  for v in hit: print(f"KNOWN-FINDING: property={pid} {v['key']} {v['message']} at {v['where']}")
  if new:
    rp = os.path.join(evdir, pid + ".violation.json")
    with open(rp, "w") as f: json.dump(new, f, indent=1)
    for v in new:
      print(f"  violated {v['rule']} [{v['construct']}] at {v['where']}: {v['message']}")
      if "-v" in argv:
        for l in v["path"]: print("      " + l)
    print(f"VIOLATION property={pid} replay={rp}")
    return 1
  if broken: raise broken
  if short:
    print("ANALYSIS-BROKEN: fewer constructs than expected: " + "; ".join(short))
    return 2
  return 0


if __name__ == "__main__":
  try: sys.exit(main(sys.argv[1:]))
  except AnalysisBroken as e:
    print(f"ANALYSIS-BROKEN: {e}")
    sys.exit(2)
  except Exception:
    import traceback
    traceback.print_exc()
    print("ANALYSIS-BROKEN: internal error")
    sys.exit(2)
