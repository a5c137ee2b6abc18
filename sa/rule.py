"""Obligations, violations, evidence and known findings."""
from __future__ import annotations
import json, os, time
from .program import Program, AnalysisBroken, Class, Func
from .interp import Interp, Cfg, Path, Ev
from .terms import T, show, mk, const, is_const, attr, subterms, contains, NONE, TRUE, FALSE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
  def __init__(self, pid: str, prog: Program, tier: str = "quick"):
    self.pid, self.p, self.tier = pid, prog, tier
    self.obligations: dict[str, int] = {}
    self.checked: dict[str, list[str]] = {}
    self.violations: list[dict] = []
    self.interps: list[Interp] = []
    self.needs: dict[str, int] = {}
    self.functions: set[str] = set()
    self.rules: dict[str, str] = {}
    self.assumptions: list[str] = []
    self._seen: set = set()

  # ---------------------------------------------------------------- obligations
  def rule(self, name, text, need=1):
    """declare a rule: what it demands, and the least number of constructs it must have applied to"""
    self.rules[name] = text
    self.needs[name] = need
    self.obligations.setdefault(name, 0)
    return name

  def ok(self, rule, construct=None, n=1):
    self.obligations[rule] = self.obligations.get(rule, 0) + n
    if construct: 
      l = self.checked.setdefault(rule, [])
      if construct not in l: l.append(construct)

  def fail(self, rule, construct, msg, where="", path=None):
    self.obligations[rule] = self.obligations.get(rule, 0) + 1
    k = (rule, construct)
    if k in self._seen: return
    self._seen.add(k)
    self.violations.append({"rule": rule, "construct": construct, "key": f"{rule}|{construct}", "message": msg, "where": where, "path": trace(path) if path is not None else []})

  def check(self, cond, rule, construct, msg, where="", path=None):
    if cond: self.ok(rule, construct)
    else: self.fail(rule, construct, msg, where, path)
    return cond

  # ---------------------------------------------------------------- analysis helpers
  def interp(self, **cfg) -> Interp:
    it = Interp(self.p, Cfg(**cfg))
    self.interps.append(it)
    return it

  def method(self, cls, name, inherited=True) -> Func:
    c = self.p.cls(cls) if isinstance(cls, str) else cls
    f = self.p.method(c, name, False) if inherited else c.methods.get(name)
    if f is None: raise AnalysisBroken(f"{c.qualname}.{name} not found")
    self.functions.add(f.qualname)
    return f

  def run(self, it: Interp, func: Func, **k) -> list[Path]:
    self.functions.add(func.qualname)
    ps = it.run(func, **k)
    self.functions |= it.inlined_funcs
    return ps

  def note(self, text):
    """something the run could not decide; goes to the evidence"""
    if text not in self.assumptions: self.assumptions.append(text)

  def scanned(self, f): self.functions.add(f.qualname if isinstance(f, Func) else f)

  # ---------------------------------------------------------------- evidence
  def evidence(self, wall, seed, nviol, known):
    cov = {
      "explanation": "Static analysis of /repo's current source; nothing of it is executed. Rules applied: " + " | ".join(f"{k}: {v}" for k, v in self.rules.items()),
      "modules_parsed": len(self.p.modules), "functions_in_program": sum(1 for _ in self.p.all_funcs()),
      "functions_analysed": len(self.functions), "abstract_paths": sum(i.npaths for i in self.interps), "abstract_steps": sum(i.steps for i in self.interps),
      "obligations": sum(self.obligations.values()), "obligations_per_rule": dict(self.obligations), "minimum_per_rule": dict(self.needs),
      "constructs": {k: v[:60] for k, v in self.checked.items()}, "known_findings": [k["key"] for k in known],
      "functions": sorted(self.functions)[:200],
    }
    return {"property": self.pid, "tier": self.tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 3), "violations": nviol,
            "assumptions": self.assumptions + ["loops are represented by arbitrary iterations of their body, recursion and calls outside the package by their declared effects"]}


def trace(path):
  if isinstance(path, list): return path
  out = [f"fact: {show(a)} is {v}" for a, v in path.facts]
  for e in path.events[-60:]:
    out.append(f"{e.loc}: {e!r}"[:400])
  out.append(f"outcome: {path.kind} {show(path.value) if isinstance(path.value, T) else path.value}")
  return out


def load_known():
  """known: property=<id> key=<rule>|<construct> :: <what fails>"""
  out = []
  if os.path.exists(KNOWN):
    with open(KNOWN) as f:
      for l in f:
        if not l.startswith("known: "): continue
        head, _, what = l[7:].partition(" :: ")
        pid, _, key = head.partition(" key=")
        out.append({"property": pid.removeprefix("property=").strip(), "key": key.strip(), "what": what.strip()})
  return out
