"""Queries over abstract paths."""
from __future__ import annotations
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, attr, show, subterms, contains, rewrite
from .interp import Truncated


def fact(facts, atom):
  """True/False/None: last known truth of an atom on a path"""
  r = None
  for a, v in facts:
    if a is atom: r = v
  return r


def facts_on(facts, pred): return [(a, v) for a, v in facts if pred(a)]


def eq_fact(facts, x, y):
  a, b = sorted((x, y), key=show)
  return fact(facts, mk("eq", a, b))


def strip(t):
  """the collection itself, without copies and dict views"""
  while True:
    if t.op == "copy": t = t.a[1]; continue
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("keys", "copy") and not t.a[1]: t = t.a[0].a[0]; continue
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.sorted", "builtins.reversed", "builtins.iter") and t.a[1]: t = t.a[1][0]; continue
    return t


def merged(t):
  """does the collection hold every element once, whatever it was made from?"""
  while True:
    if t.op == "copy":
      if t.a[0] in ("set", "frozenset", "dict"): return True
      t = t.a[1]; continue
    if t.op == "comp": return t.a[0] in ("set", "dict")
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.sorted", "builtins.reversed", "builtins.iter") and t.a[1]: t = t.a[1][0]; continue
    return False


def elem_of(t, coll=None):
  """the collection `t` is an arbitrary element of (None if it is not an element)"""
  if t.op == "elem":
    c = strip(t.a[0])
    return c if coll is None or c is coll else None
  return None


def root(t):
  """the term an access path starts at"""
  while True:
    if t.op in ("attr", "item", "elem"): t = t.a[0]; continue
    if t.op in ("copy", "awaited"): t = t.a[1] if t.op == "copy" else t.a[0]; continue
    if t.op == "call" and t.a[0].op == "attr": t = t.a[0].a[0]; continue
    return t


def fields(t):
  """dict of the fields of an instance term"""
  return dict(t.a[1]) if t.op == "inst" else {}


def elems(t):
  """contents of a literal container in normal form"""
  return list(t.a[1:]) if t.op == "lit" else None


def mentions(t, *ts): return any(contains(t, x) for x in ts)


def unordered_call(t, suffix):
  return t.op == "call" and (t.a[0].op in ("attr",) and t.a[0].a[1] == suffix or t.a[0].op == "bound" and t.a[0].a[1].endswith("." + suffix))


def get_of(t):
  """(mapping, key) when t reads a mapping: m[k], m.get(k[, d])"""
  if t.op == "item": return t.a[0], t.a[1]
  if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "get" and t.a[1]: return t.a[0].a[0], t.a[1][0]
  return None


def call_name(t):
  if t.op != "call": return None
  f = t.a[0]
  if f.op == "attr": return f.a[1]
  if f.op == "bound": return f.a[1].split(".")[-1]
  if f.op in ("func", "class", "ext"): return f.a[0].split(".")[-1]
  return None


def call_recv(t):
  f = t.a[0]
  return f.a[0] if f.op in ("attr", "bound") else None


def comp_alts(t):
  """[(facts, element)] of the members a comprehension (possibly copied / wrapped in set()) produces; None when t is not one"""
  while t.op == "copy": t = t.a[1]
  if t.op == "comp": return [(f, e) for p, f, e in t.a[2] if p]
  if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.set", "builtins.list", "builtins.frozenset") and t.a[1]: return comp_alts(t.a[1][0])
  return None


# ------------------------------------------------------------------ set algebra (propositional)
def _setfn(t, x):
  """boolean expression (nested tuples over base sets) of `x in t`"""
  while True:
    if t.op == "copy": t = t.a[1]; continue
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("keys", "copy") and not t.a[1]: t = t.a[0].a[0]; continue
    break
  if t.op == "bin" and t.a[0] in ("|", "&", "-", "^"): return (t.a[0], _setfn(t.a[1], x), _setfn(t.a[2], x))
  if t.op == "comp":
    outs = []
    for passed, facts, e in t.a[2]:
      if not passed: continue
      if e.op != "elem": return ("base", t)
      src = strip(e.a[0])
      conj = [_setfn(src, x)]
      okc = True
      for a, v in facts:
        if a.op == "in" and a.a[0] is e: conj.append(_setfn(a.a[1], x) if v else ("!", _setfn(a.a[1], x)))
        elif a.op == "truthy" and strip(a.a[0]) is src: continue
        elif a.op == "truthy" and a.a[0].op in ("bin",): continue
        else: conj.append(("base", a) if v else ("!", ("base", a)))
      r = conj[0]
      for c in conj[1:]: r = ("&", r, c)
      outs.append(r)
    if not outs: return ("const", False)
    r = outs[0]
    for c in outs[1:]: r = ("|", r, c)
    return r
  if t.op == "lit":
    es = t.a[1:]
    if not es: return ("const", False)
    if all(e.op == "spread" for e in es):
      r = _setfn(es[0].a[0], x)
      for c in es[1:]: r = ("|", r, _setfn(c.a[0], x))
      return r
  return ("base", t)


def _bases(e, out):
  if e[0] == "base": out.add(e[1])
  elif e[0] != "const":
    for s in e[1:]: _bases(s, out)
  return out


def _evalset(e, env):
  o = e[0]
  if o == "base": return env[e[1]]
  if o == "const": return e[1]
  if o == "!": return not _evalset(e[1], env)
  a, b = _evalset(e[1], env), _evalset(e[2], env)
  return {"|": a or b, "&": a and b, "-": a and not b, "^": a != b}[o]


def same_set(a, b, given=()):
  """do two set expressions have the same members, whatever their base sets contain (under facts of the form (set, bool))"""
  ea, eb = _setfn(a, None), _setfn(b, None)
  bs = sorted(_bases(ea, set()) | _bases(eb, set()), key=show)
  if len(bs) > 8: return None
  empty = {strip(t) for t, v in given if v is False}
  for i in range(1 << len(bs)):
    env = {b: bool(i >> k & 1) for k, b in enumerate(bs)}
    if any(env.get(t) for t in empty): continue
    if _evalset(ea, env) != _evalset(eb, env): return False
  return True


def empties(facts): return [(a.a[0], v) for a, v in facts if a.op == "truthy"]
