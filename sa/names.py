"""Undoes renamings. The rules call some methods and fields by name. A name of a class (or a function of a module) that
is gone while a new one with the same uses took its place was renamed; giving it its old name back changes nothing in
what the program does, as the old name does not occur any more. The names and their uses are in names.json."""
from __future__ import annotations
import ast, hashlib, json, os
from collections import Counter

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
LEAST = 0.45
PLAIN = {"object", "ABC", "Generic", "Protocol"}


def short(x): return hashlib.md5(repr(x).encode()).hexdigest()[:8]
def dunder(n): return n.startswith("__") and n.endswith("__")


class Mask(ast.NodeTransformer):
  """names of the program's own are left out: they may have been renamed as well"""
  def visit_Attribute(self, n): self.generic_visit(n); return ast.Attribute(n.value, "_", ast.Load())
  def visit_Name(self, n): return ast.Name("_" if n.id not in ("self", "None", "super", "len", "set", "list", "dict", "int", "str") else n.id, ast.Load())


def shape(n, depth=2):
  """the kind of an expression, without names"""
  if isinstance(n, ast.Attribute): return ("attr",)
  if isinstance(n, ast.Constant): return ("const", repr(n.value)[:20])
  if depth == 0: return (type(n).__name__,)
  return (type(n).__name__,) + tuple(shape(c, depth - 1) for c in ast.iter_child_nodes(n) if not isinstance(c, (ast.expr_context, ast.operator, ast.cmpop, ast.unaryop)))[:6]


def uses(root, selfs=None):
  """{name: Counter of uses} of attributes (selfs: of the object itself only)"""
  out = {}
  def add(n, f): out.setdefault(n, Counter())[short(f)] += 1
  def walk(n, fn, up):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn is None: fn = n
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and not dunder(n.attr):
      p = up[-1] if up else None
      ctx = type(n.ctx).__name__
      add(n.attr, ("use", fn.name if fn is not None else "", ctx))
      add(n.attr, ("in", ctx, type(p).__name__, shape(p) if p is not None else ""))
      if isinstance(p, ast.Attribute): add(n.attr, ("sub", p.attr))
      if isinstance(p, (ast.Assign, ast.AnnAssign)) and ctx == "Store" and p.value is not None: add(n.attr, ("val", ast.unparse(p.value)[:60]))
      if isinstance(p, ast.Call) and p.func is n: add(n.attr, ("call", len(p.args), tuple(k.arg for k in p.keywords)))
    for c in ast.iter_child_nodes(n): walk(c, fn, up + [n])
  for st in root.body: walk(st, None, [])
  return out


def defs(body):
  out = {}
  for n in body:
    if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) or dunder(n.name): continue
    c = out.setdefault(n.name, Counter())
    c[short(("def", type(n).__name__, tuple(a.arg for a in n.args.args), tuple(shape(d) for d in n.decorator_list)))] += 3
    for x in ast.walk(n):
      if isinstance(x, ast.Call): c[short(("calls", x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""))] += 1
      elif isinstance(x, ast.Attribute): c[short(("reads", x.attr))] += 1
      elif isinstance(x, ast.Constant): c[short(("const", repr(x.value)))] += 1
  return out


def scopes(trees):
  """{scope: {"own": {name: uses}, "bases": [...], "fields": [...]}}"""
  out = {}
  def cls(m, n, pre):
    q = f"{m}:{pre}{n.name}"
    own = uses(n)
    for k, c in defs(n.body).items(): own.setdefault(k, Counter()).update(c)
    for st in n.body:
      if isinstance(st, ast.Assign):
        for t in st.targets:
          if isinstance(t, ast.Name) and not dunder(t.id): own.setdefault(t.id, Counter())[short(("class", ast.unparse(st.value)[:60]))] += 1
    fields = sorted({st.target.id for st in n.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)})
    bases = [(b.value if isinstance(b, ast.Subscript) else b) for b in n.bases]
    out[q] = {"own": own, "bases": [b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else "?" for b in bases], "fields": fields, "name": n.name}
    for st in n.body:
      if isinstance(st, ast.ClassDef): cls(m, st, pre + n.name + ".")
  for m, t in trees.items():
    out[m] = {"own": defs(t.body), "bases": [], "fields": [], "name": ""}
    for n in t.body:
      if isinstance(n, ast.ClassDef): cls(m, n, "")
  return out


def words(trees):
  """(every identifier: times, attributes of other objects: times, strings that are a name)"""
  ids, others, strs = Counter(), Counter(), set()
  for t in trees.values():
    for n in ast.walk(t):
      if isinstance(n, ast.Attribute):
        ids[n.attr] += 1
        if not (isinstance(n.value, ast.Name) and n.value.id == "self"): others[n.attr] += 1
      elif isinstance(n, ast.Name): ids[n.id] += 1
      elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): ids[n.name] += 1
      elif isinstance(n, ast.arg): ids[n.arg] += 1
      elif isinstance(n, ast.keyword) and n.arg: ids[n.arg] += 1
      elif isinstance(n, ast.alias): ids[n.name.split(".")[-1]] += 1; ids[n.asname or ""] += 1
      elif isinstance(n, ast.Constant) and isinstance(n.value, str):
        if n.value.isidentifier(): strs.add(n.value)
        elif "->" in n.value: strs.update(w.split()[0] for w in n.value.split("->")[1:] if w.split())
  return ids, others, strs


def snapshot(trees):
  ids, others, strs = words(trees)
  return {"ids": sorted(ids), "others": dict(others), "scopes": {q: {"own": {n: dict(c) for n, c in s["own"].items()}} for q, s in scopes(trees).items()}}


def alike(a, b):
  total = max(sum(a.values()), sum(b.values()))
  return sum((a & b).values()) / total if total else 0.0


def renamed(trees, base):
  """[(scope, new name, old name)]"""
  now, (ids, others, strs) = scopes(trees), words(trees)
  old_ids = set(base["ids"])
  by_name = {}
  for q, s in now.items(): by_name.setdefault(s["name"], []).append(q)
  def family(q):
    """the classes above and below"""
    seen, todo = set(), [now[q]["name"]]
    while todo:
      x = todo.pop()
      if x in seen: continue
      seen.add(x)
      for k in by_name.get(x, ()): todo += now[k]["bases"]
    down, todo = set(), [now[q]["name"]]
    while todo:
      x = todo.pop()
      if x in down: continue
      down.add(x)
      todo += [s["name"] for s in now.values() if x in s["bases"]]
    return seen | down
  anyfield = {f for s in now.values() for f in s["fields"]}   # the name of a field of a model is seen outside
  out = []
  for q, s in base["scopes"].items():
    if q not in now: continue
    cur, old = now[q]["own"], s["own"]
    gone = [n for n in old if n not in cur and n not in now[q]["fields"] and n not in strs]
    new = [n for n in cur if n not in old and n not in old_ids and n not in anyfield and n not in strs]
    if not gone or not new: continue
    if ":" in q:
      fam = family(q) - PLAIN
      outside = any(x not in by_name for x in fam)
      def free(v):
        if outside and not v.startswith("_"): return False
        if any(v in now[k]["own"] or v in now[k]["fields"] for x in fam for k in by_name.get(x, ())): return False
        return others[v] == 0 or v.startswith("_") and others[v] == base["others"].get(v, 0)
      gone = [v for v in gone if free(v)]
    else: gone = [v for v in gone if ids[v] == 0]
    score = {(v, w): alike(Counter(old[v]), cur[w]) for v in gone for w in new}
    for (v, w), x in sorted(score.items(), key=lambda i: -i[1]):
      if x < LEAST or any(v == b or w == a for _, a, b in out if _ == q): continue
      if sum(1 for (a, b), y in score.items() if (a == v or b == w) and y >= x) > 1: continue
      out.append((q, w, v))
  # a name of several classes goes back to one name only
  to = {}
  for _, w, v in out: to.setdefault(w, set()).add(v)
  return [r for r in out if len(to[r[1]]) == 1]


def undo(trees):
  try:
    with open(FILE) as fd: base = json.load(fd)
  except FileNotFoundError: return []
  rs = renamed(trees, base)
  # names whose uses depend on other names that were renamed
  for _ in range(3):
    if not rs: break
    apply(trees, rs)
    more = renamed(trees, base)
    if not more: break
    rs = more
  return rs


def apply(trees, rs):
  attrs = {w: v for q, w, v in rs if ":" in q}
  funcs = {w: v for q, w, v in rs if ":" not in q}
  both = {**funcs, **attrs}
  for t in trees.values():
    for n in ast.walk(t):
      if isinstance(n, ast.Attribute) and n.attr in both: n.attr = both[n.attr]
      elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in both: n.name = both[n.name]
      elif isinstance(n, ast.Name) and n.id in funcs: n.id = funcs[n.id]
      elif isinstance(n, ast.alias):
        if n.name in funcs: n.name, n.asname = funcs[n.name], n.asname
        if n.asname in funcs: n.asname = funcs[n.asname]
      elif isinstance(n, ast.ClassDef):
        for st in n.body:
          if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in st.decorator_list:
              for x in ast.walk(d):
                if isinstance(x, ast.Name) and x.id in attrs: x.id = attrs[x.id]
            continue
          for x in ast.walk(st):
            if isinstance(x, ast.Name) and x.id in attrs: x.id = attrs[x.id]
