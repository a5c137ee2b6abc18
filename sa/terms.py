"""Hash-consed provenance terms: where a value comes from, in a form that does not depend on how the code is written."""
from __future__ import annotations

_TABLE: dict = {}


class T:
  __slots__ = ("op", "a", "_h", "__weakref__")

  def __repr__(self): return show(self)
  def __hash__(self): return self._h
  def __eq__(self, o): return self is o
  def __ne__(self, o): return self is not o
  def __lt__(self, o): return show(self) < show(o)


def _key(x):
  if isinstance(x, T): return x
  if isinstance(x, tuple): return tuple(_key(i) for i in x)
  return (type(x).__name__, x)


def mk(op, *args) -> T:
  k = (op,) + tuple(_key(x) for x in args)
  t = _TABLE.get(k)
  if t is None:
    t = T.__new__(T)
    t.op, t.a, t._h = op, args, hash(k)
    _TABLE[k] = t
  return t


def const(v):
  if isinstance(v, bool): return mk("const", v)
  try: hash(v)
  except TypeError: return mk("opaque", repr(v))
  return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=...):
  if not isinstance(t, T) or t.op != "const": return False
  return v is ... or (t.a[0] == v and type(t.a[0]) is type(v))


def attr(b, n): return mk("attr", b, n)


def show(t, d=0) -> str:
  if isinstance(t, tuple): return "(" + ", ".join(show(x) for x in t) + ")"
  if not isinstance(t, T): return repr(t)
  o, a = t.op, t.a
  if o == "const": return repr(a[0])
  if o == "param": return a[0]
  if o == "self": return "self"
  if o == "attr": return f"{show(a[0])}.{a[1]}"
  if o == "item": return f"{show(a[0])}[{show(a[1])}]"
  if o == "call": return f"{show(a[0])}({', '.join([show(x) for x in a[1]] + [f'{k}={show(v)}' for k, v in a[2]])})"
  if o in ("func", "class", "ext", "global"): return str(a[0]).replace("builtins.", "")
  if o == "bound": return f"{show(a[0])}.{a[1].rsplit('.', 1)[-1]}"
  if o == "elem": return f"each({show(a[0])})"
  if o == "bin": return f"({show(a[1])} {a[0]} {show(a[2])})"
  if o == "cmp": return f"({show(a[1])} {a[0]} {show(a[2])})"
  if o == "not": return f"not {show(a[0])}"
  if o == "truthy": return f"bool({show(a[0])})"
  if o == "isinst": return f"isinstance({show(a[0])}, {a[1]})"
  if o == "coro": return f"coro {show(a[0])}"
  return o + "(" + ", ".join(show(x) for x in a) + ")"


def subterms(t, seen=None):
  """every T below t (t included)"""
  if seen is None: seen = set()
  stack = [t]
  while stack:
    x = stack.pop()
    if isinstance(x, tuple): stack.extend(x); continue
    if not isinstance(x, T) or x in seen: continue
    seen.add(x)
    yield x
    stack.extend(x.a)


def contains(t, pred_or_term):
  if isinstance(pred_or_term, T): return any(s is pred_or_term for s in subterms(t))
  return any(pred_or_term(s) for s in subterms(t))


def rewrite(t, f, memo=None):
  """bottom-up rewriting"""
  if memo is None: memo = {}
  def go(x):
    if isinstance(x, tuple): return tuple(go(i) for i in x)
    if not isinstance(x, T): return x
    if x in memo: return memo[x]
    y = mk(x.op, *[go(i) for i in x.a]) if x.a else x
    z = f(y)
    memo[x] = z
    return z
  return go(t)
