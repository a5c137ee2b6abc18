"""Meaning of a provenance term under an assignment of its base terms: used to compare what abstract paths compute with a specification, over all assignments of a small domain."""
from __future__ import annotations
import itertools
import math
from .terms import T, mk, const, NONE, subterms, show


class Unk(Exception): pass


class Inst:
  """value of an instance term: equal iff class and fields are"""
  def __init__(self, cls, f): self.cls, self.f = cls, f
  def __eq__(self, o): return isinstance(o, Inst) and (self.cls, self.f) == (o.cls, o.f)
  def __hash__(self): return hash((self.cls, tuple(sorted((k, repr(v)) for k, v in self.f.items()))))
  def __repr__(self): return f"{self.cls.split('.')[-1]}({', '.join(f'{k}={v}' for k, v in self.f.items())})"


def _name(f): return f.a[0] if f.op == "ext" else None


def ev(t, env, norm=None):
  """value of t; env: base term -> value. Raises Unk when it depends on something else"""
  go = lambda x: ev(x, env, norm)
  if t in env: return env[t]
  o = t.op
  if o == "const": return t.a[0]
  if o == "copy":
    v = go(t.a[1])
    return {"set": set, "list": list, "tuple": tuple, "dict": dict, "sorted": sorted}.get(t.a[0], lambda x: x)(v)
  if o == "tuple": return tuple(go(x) for x in t.a)
  if o == "obj" and norm is not None:
    n = norm(t)
    if n is t: raise Unk()
    return go(n)
  if o == "lit":
    kind, xs = t.a[0], t.a[1:]
    if kind == "dict":
      d = {}
      for x in xs:
        if x.op == "kv": d[go(x.a[0])] = go(x.a[1])
        elif x.op == "spread": d.update(go(x.a[0]))
        else: raise Unk()
      return d
    l = []
    for x in xs:
      if x.op == "spread": l.extend(go(x.a[0]))
      else: l.append(go(x))
    return set(l) if kind == "set" else tuple(l) if kind == "tuple" else l
  if o == "bin":
    a, b = go(t.a[1]), go(t.a[2])
    try:
      return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b, "//": lambda: a // b, "%": lambda: a % b, "/": lambda: a / b, "**": lambda: a ** b}[t.a[0]]()
    except (KeyError, TypeError, ZeroDivisionError, OverflowError): raise Unk()
  if o == "un" and t.a[0] in ("USub", "UAdd"):
    try: return -go(t.a[1]) if t.a[0] == "USub" else +go(t.a[1])
    except TypeError: raise Unk()
  if o == "is": return go(t.a[0]) is go(t.a[1]) if t.a[1] is NONE else go(t.a[0]) == go(t.a[1])
  if o == "eq": return go(t.a[0]) == go(t.a[1])
  if o == "lt":
    try: return go(t.a[0]) < go(t.a[1])
    except TypeError: raise Unk()
  if o == "in":
    try: return go(t.a[0]) in go(t.a[1])
    except TypeError: raise Unk()
  if o == "truthy": return bool(go(t.a[0]))
  if o == "not": return not go(t.a[0])
  if o == "oneof": return any(go(x) for x in t.a)
  if o == "anyof" and len(t.a) > 1: return len(list(go(t.a[0]))) > 0
  if o in ("anyof", "allof"): return (any if o == "anyof" else all)(go(t.a[0]))
  if o == "inst": return Inst(t.a[0], {k: go(v) for k, v in t.a[1] if isinstance(v, T)})
  if o == "attr":
    b = go(t.a[0])
    if isinstance(b, Inst) and t.a[1] in b.f: return b.f[t.a[1]]
    raise Unk()
  if o == "item":
    try: return go(t.a[0])[go(t.a[1])]
    except (KeyError, IndexError, TypeError): raise Unk()
  if o == "slice": return slice(*[None if x is None else go(x) for x in t.a])
  if o == "fstr":
    out = ""
    for x in t.a:
      v = go(x)
      if not isinstance(v, (str, int)) or isinstance(v, bool): raise Unk()
      out += str(v)
    return out
  if o == "comp": return _comp(t, env, norm)
  if o == "call":
    f, args, kw = t.a[0], t.a[1], t.a[2]
    n = _name(f)
    if n in ("builtins.len", "builtins.min", "builtins.max", "builtins.sum", "builtins.sorted", "builtins.abs", "builtins.bool", "builtins.int", "builtins.str", "builtins.float", "builtins.range", "builtins.list", "builtins.set", "builtins.dict", "builtins.tuple", "builtins.any", "builtins.all") and not [k for k, _ in kw if k != "default"]:
      try: return getattr(__builtins__, n[9:], None)(*[go(a) for a in args], **{k: go(v) for k, v in kw}) if not isinstance(__builtins__, dict) else __builtins__[n[9:]](*[go(a) for a in args], **{k: go(v) for k, v in kw})
      except (TypeError, ValueError): raise Unk()
    if n is not None and n.startswith("math.") and not kw:
      try: return getattr(math, n[5:])(*[go(a) for a in args])
      except (AttributeError, TypeError, ValueError, OverflowError): raise Unk()
    if n in ("builtins.round", "builtins.pow", "builtins.divmod") and not kw:
      try: return {"round": round, "pow": pow, "divmod": divmod}[n[9:]](*[go(a) for a in args])
      except (TypeError, ValueError, ZeroDivisionError, OverflowError): raise Unk()
    key = next((v for k, v in kw if k == "key"), None)
    if n in ("builtins.max", "builtins.min", "builtins.sorted") and key is not None and key.op == "keyfn" and len(args) == 1:
      rest = {k: go(v) for k, v in kw if k in ("default", "reverse")}
      try: return {"max": max, "min": min, "sorted": sorted}[n[9:]](list(go(args[0])), key=lambda x: ev(key.a[1], {**env, key.a[0]: x}, norm), **rest)
      except (TypeError, ValueError): raise Unk()
    if n in ("builtins.zip", "builtins.enumerate", "builtins.reversed") and not kw:
      try: return [tuple(x) if isinstance(x, tuple) else x for x in {"zip": zip, "enumerate": enumerate, "reversed": reversed}[n[9:]](*[go(a) for a in args])]
      except TypeError: raise Unk()
    if f.op in ("attr", "bound"):
      m = f.a[1].split(".")[-1]
      if m in ("get", "keys", "values", "items", "copy", "union", "difference", "intersection", "isdigit", "isspace", "lower", "strip", "lstrip", "rstrip", "join", "startswith", "endswith"):
        b = go(f.a[0])
        try: r = getattr(b, m)(*[go(a) for a in args], **{k: go(v) for k, v in kw})
        except (AttributeError, TypeError): raise Unk()
        return list(r) if m in ("keys", "values", "items") else r
  raise Unk()


def holds(facts, env, norm=None):
  """are all facts that can be evaluated under env true there? (facts about other things are left open)"""
  for a, v in facts:
    try: r = ev(a, env, norm)
    except Unk: continue
    if bool(r) != v: return False
  return True


def free_elems(t):
  """elements a term speaks about, other than those its comprehensions go through"""
  if not isinstance(t, T): return [x for y in t for x in free_elems(y)] if isinstance(t, tuple) else []
  if t.op == "comp": return []
  return ([t] if t.op == "elem" else []) + [x for y in t.a for x in free_elems(y)]


def _comp(t, env, norm):
  kind, _, alts = t.a[0], t.a[1], t.a[2]
  out = []
  for passed, facts, e in alts:
    if not passed: continue
    els = []
    for x in free_elems(e) + [s for a, _ in facts for s in free_elems(a)]:
      if x not in els and x not in env: els.append(x)
    groups = {}
    for x in els: groups.setdefault(x.a[1] if len(x.a) > 1 else x, []).append(x)   # elements taken at one place go together (zip)
    for vals in itertools.product(*[list(zip(*[list(ev(x.a[0], env, norm)) for x in g])) for g in groups.values()]):
      en = {**env, **{x: v for g, vs in zip(groups.values(), vals) for x, v in zip(g, vs)}}
      ok = True
      for a, v in facts:
        if bool(ev(a, en, norm)) != v: ok = False; break
      if ok: out.append(ev(e, en, norm))
  if kind == "set": return set(out)
  if kind == "dict": return dict(out)
  return out


def envs(domains):
  """all assignments of {term: [values]}"""
  ks = list(domains)
  for vs in itertools.product(*[domains[k] for k in ks]): yield dict(zip(ks, vs))


MUTATE = {"add", "discard", "remove", "append", "clear", "pop", "update", "setdefault", "extend", "insert", "difference_update"}


def replay(p, env, norm=None, start=0, stop=None):
  """Follows one path on concrete values of its base terms: facts must hold when they are recorded, changes of known collections are applied as they happen.
  Returns the values afterwards, or None when the path is not taken from this state. Events before `start` are skipped; ends before event `stop`."""
  import copy
  env = {k: copy.deepcopy(v) for k, v in env.items()}
  n = len(p.events[start].facts) if start < len(p.events) and start else 0
  base = n
  some = {}            # facts about one element of a collection: some element must satisfy them all
  def facts(upto):
    nonlocal base
    for a, v in p.facts[base:upto]:
      els = [x for x in free_elems(a) if x not in env]
      if len(set(els)) == 1:
        fs = some.setdefault(els[0], [])
        fs.append((a, v))
        try: vals = list(ev(els[0].a[0], env, norm))
        except (Unk, TypeError): continue
        if not any(holds(fs, {**env, els[0]: x}, norm) for x in vals): return False
        continue
      try: r = ev(a, env, norm)
      except Unk: continue
      if bool(r) != v: return False
    base = max(base, upto)
    return True
  for e in p.events[start:stop]:
    if not facts(len(e.facts)): return None
    b = e.recv
    if b is None or b not in env or not isinstance(env[b], (dict, set, list)): continue
    c = env[b]
    try:
      if e.kind == "setitem": c[ev(e.args[0], env, norm)] = ev(e.args[1], env, norm)
      elif e.kind == "delitem": del c[ev(e.args[0], env, norm)]
      elif e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] in MUTATE:
        r = getattr(c, e.fterm.a[1])(*[ev(a, env, norm) for a in e.args])
        if e.res is not None and e.fterm.a[1] in ("pop", "setdefault"): env[e.res] = r
    except Unk: env[b] = ...
    except (KeyError, IndexError, ValueError): return None
  if not facts(len(p.facts) if stop is None else len(p.events[stop].facts)): return None
  return env
