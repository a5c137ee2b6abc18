"""Constant folding of module level tables (class references, strings, numbers, containers of them)."""
from __future__ import annotations
import ast
from .program import AnalysisBroken, Class


class Unknown(Exception): pass


def module_value(prog, modname, name):
  r = prog.resolve_in(modname, name)
  if r is None or r[0] != "var": raise AnalysisBroken(f"{modname}.{name} not found")
  vs = r[1].assigns.get(r[2], [])
  if len(vs) != 1: raise AnalysisBroken(f"{modname}.{name} is assigned {len(vs)} times")
  try: return ceval(prog, r[1], vs[0], {})
  except Unknown as e: raise AnalysisBroken(f"{modname}.{name} is not a constant table: {e}")


def ceval(prog, mod, n, env):
  E = lambda x, e=env: ceval(prog, mod, x, e)
  if isinstance(n, ast.Constant): return n.value
  if isinstance(n, ast.Name):
    if n.id in env: return env[n.id]
    return _ref(prog, mod, n)
  if isinstance(n, ast.Attribute):
    r = prog.resolve_expr(n, mod)
    if r is not None: return _ref(prog, mod, n)
    b = E(n.value)
    if isinstance(b, Class):
      for k in prog.mro(b):
        if isinstance(k, Class) and n.attr in k.attrs: return ceval(prog, k.module, k.attrs[n.attr], {})
    raise Unknown(ast.unparse(n))
  if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
    out = []
    for x in n.elts:
      if isinstance(x, ast.Starred): out.extend(E(x.value))
      else: out.append(E(x))
    return tuple(out) if isinstance(n, ast.Tuple) else set(out) if isinstance(n, ast.Set) else out
  if isinstance(n, ast.Dict):
    d = {}
    for k, v in zip(n.keys, n.values):
      if k is None: d.update(E(v))
      else: d[E(k)] = E(v)
    return d
  if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
    out = []
    def go(i, e):
      if i == len(n.generators):
        out.append((E(n.key, e), E(n.value, e)) if isinstance(n, ast.DictComp) else E(n.elt, e)); return
      g = n.generators[i]
      for v in ceval(prog, mod, g.iter, e):
        e2 = dict(e); _bind(g.target, v, e2)
        if all(E(c, e2) for c in g.ifs): go(i + 1, e2)
    go(0, dict(env))
    return dict(out) if isinstance(n, ast.DictComp) else set(out) if isinstance(n, ast.SetComp) else out
  if isinstance(n, ast.Call):
    if isinstance(n.func, ast.Name) and n.func.id in _F and prog.resolve_in(mod.name, n.func.id) is None:
      return _F[n.func.id](*[E(a) for a in n.args], **{k.arg: E(k.value) for k in n.keywords})
    if isinstance(n.func, ast.Attribute) and n.func.attr in ("items", "keys", "values", "index", "copy", "union", "join", "split", "upper", "lower"):
      return getattr(E(n.func.value), n.func.attr)(*[E(a) for a in n.args])
    raise Unknown(ast.unparse(n))
  if isinstance(n, ast.BinOp):
    a, b = E(n.left), E(n.right)
    try:
      return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.BitOr: lambda: a | b, ast.LShift: lambda: a << b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}[type(n.op)]()
    except KeyError: raise Unknown(ast.unparse(n))
  if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): return -E(n.operand)
  if isinstance(n, ast.Subscript): return E(n.value)[E(n.slice)]
  if isinstance(n, ast.Slice): return slice(E(n.lower) if n.lower else None, E(n.upper) if n.upper else None)
  if isinstance(n, ast.IfExp): return E(n.body) if E(n.test) else E(n.orelse)
  if isinstance(n, ast.Compare) and len(n.ops) == 1:
    a, b = E(n.left), E(n.comparators[0])
    ops = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b}
    if type(n.ops[0]) in ops: return ops[type(n.ops[0])]()
  raise Unknown(ast.unparse(n))


_F = {"enumerate": lambda *a, **k: list(enumerate(*a, **k)), "zip": lambda *a: list(zip(*a)), "dict": dict, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
      "range": lambda *a: list(range(*a)), "len": len, "reversed": lambda x: list(reversed(x)), "sorted": sorted, "max": max, "min": min, "sum": sum, "bytes": bytes, "str": str, "int": int}


def _ref(prog, mod, n):
  r = prog.resolve_expr(n, mod)
  if r is None: raise Unknown(ast.unparse(n))
  if r[0] == "class": return r[1]
  if r[0] == "func": return r[1]
  if r[0] == "var":
    vs = r[1].assigns.get(r[2], [])
    if len(vs) == 1: return ceval(prog, r[1], vs[0], {})
  raise Unknown(ast.unparse(n))


def _bind(t, v, env):
  if isinstance(t, ast.Name): env[t.id] = v
  elif isinstance(t, (ast.Tuple, ast.List)):
    for a, b in zip(t.elts, v): _bind(a, b, env)
  else: raise Unknown("target")


def as_term(v):
  from .terms import mk, const
  if isinstance(v, Class): return mk("class", v.qualname)
  if isinstance(v, (bool, int, float, str, bytes)) or v is None: return const(v)
  return None


def table_lookup(prog, gname, key):
  """element of a constant module level table: ('hit', term) | ('miss',) | None when it is not such a table"""
  mod, _, nm = gname.rpartition(".")
  try: t = module_value(prog, mod, nm)
  except AnalysisBroken: return None
  if isinstance(t, list) and key.op == "const" and isinstance(key.a[0], int) and not isinstance(key.a[0], bool):
    if not 0 <= key.a[0] < len(t): return None
    r = as_term(t[key.a[0]])
    return ("hit", r) if r is not None else None
  if not isinstance(t, dict): return None
  k = prog._class_by_qual.get(key.a[0]) if key.op == "class" else key.a[0]
  try:
    if k not in t: return ("miss",)
  except TypeError: return None
  r = as_term(t[k])
  return ("hit", r) if r is not None else None
