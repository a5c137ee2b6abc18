"""Control-flow graphs with exception and cancellation edges, for whole-repository flow rules (one graph per function, nested functions included)."""
from __future__ import annotations
import ast
from .program import Program, Func, Module, dotted

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
TOTAL_METHODS = {"append", "add", "discard", "clear", "cancel", "done", "items", "keys", "values", "copy", "is_set", "set", "extend", "get", "cancelled", "difference", "union", "intersection", "debug", "info", "warning", "error", "exception", "locked", "is_alive", "lower", "upper", "strip"}
TOTAL_EXT = {"builtins." + n for n in ("set", "list", "dict", "tuple", "frozenset", "len", "isinstance", "issubclass", "repr", "str", "bool", "id", "type", "object", "print", "hasattr", "callable", "range", "enumerate", "zip", "super", "Exception", "ValueError", "property")} | {
  "asyncio.Event", "asyncio.Lock", "asyncio.Queue", "asyncio.Future", "asyncio.Condition", "asyncio.Semaphore", "asyncio.create_task", "asyncio.ensure_future", "asyncio.current_task", "asyncio.get_running_loop", "asyncio.get_event_loop", "threading.Event", "threading.Lock", "time.time", "time.monotonic", "time.perf_counter", "collections.deque", "queue.Queue", "uuid.uuid4", "io.BytesIO", "contextlib.suppress"}


class Fn:
  """one function of the source, with the module and class it is resolved in"""
  def __init__(self, node, module: Module, cls, qual, decos=()):
    self.node, self.module, self.cls, self.qual, self.decos = node, module, cls, qual, decos
    self.is_async = isinstance(node, ast.AsyncFunctionDef)
    self.name = getattr(node, "name", "<lambda>")
  @property
  def where(self): return f"{self.module.relpath}:{self.node.lineno}"


def functions(p: Program):
  def walk(n, m, cls, pre):
    for c in ast.iter_child_nodes(n):
      if isinstance(c, ast.ClassDef): yield from walk(c, m, p._class_by_qual.get(pre + "." + c.name) or next((k for k in p._class_by_qual.values() if k.node is c), cls), pre + "." + c.name)
      elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
        nm = c.name
        if nm == "_" or nm.startswith("__anon"):
          k = next((label(d) for d in c.decorator_list if label(d)), None)
          if k: nm = f"_[{k}]"
        yield Fn(c, m, cls, pre + "." + nm, [ast.unparse(d) for d in c.decorator_list])
        yield from walk(c, m, cls, pre + "." + nm)
      else: yield from walk(c, m, cls, pre)
  for m in p.modules.values(): yield from walk(m.tree, m, None, m.name)


def label(d):
  """what a decorator registers its function for"""
  if isinstance(d, ast.Call) and d.args: return ast.unparse(d.args[0])
  return None


def walk_expr(n):
  """sub-expressions evaluated with n (not the bodies of nested functions)"""
  stack = [n]
  while stack:
    x = stack.pop()
    yield x
    if isinstance(x, FN): continue
    stack.extend(ast.iter_child_nodes(x))


class Raises:
  """which expressions may raise (over-approximation; an explicit list of total calls)"""
  def __init__(self, p: Program): self.p, self._fn, self.coros = p, {}, ()
  def func_total(self, f: Func, depth):
    if f.is_async or f.is_gen: return True
    k = f.qualname
    if k in self._fn: return self._fn[k]
    self._fn[k] = False
    if depth <= 0: return False
    r = True
    for n in ast.walk(f.node):
      if isinstance(n, (ast.Raise, ast.Assert, ast.With, ast.Import, ast.ImportFrom, ast.Yield)): r = False
      elif isinstance(n, ast.expr) and self._one(n, f.module, f.cls, depth - 1): r = False
      if not r: break
    self._fn[k] = r
    return r
  def _one(self, x, m, cls, depth):
    if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom)): return True
    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
      return not isinstance(x.slice, ast.Slice) and not self.is_type(x.value, m)
    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Div, ast.FloorDiv, ast.Mod)): return not isinstance(x.left, ast.Constant)
    if isinstance(x, ast.Call):
      f = x.func
      if isinstance(f, ast.Subscript): f = f.value
      if isinstance(f, ast.Attribute) and f.attr in TOTAL_METHODS:
        r = self.p.resolve_expr(f, m)
        if r is None or r[0] not in ("class", "func"): return False
      if isinstance(f, ast.Name) and f.id == "super": return False
      r = self.p.resolve_expr(f, m) if isinstance(f, (ast.Name, ast.Attribute)) else None
      if r is None and cls is not None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
        t = self.p.method(cls, f.attr, False)
        if t is not None: return not self.func_total(t, depth)
      if r is None and isinstance(f, ast.Name) and f.id in self.coros: return False
      if r is None: return True
      if r[0] == "ext": return r[1] not in TOTAL_EXT and not r[1].startswith("logging.")
      if r[0] == "func": return not self.func_total(r[1], depth)
      if r[0] == "class":
        i = self.p.method(r[1], "__init__", False)
        if i is not None: return not self.func_total(i, depth)
        return not (r[1].is_dataclass and self.p.method(r[1], "__post_init__", False) is None)
      return True
    return False
  def is_type(self, x, m):
    r = self.p.resolve_expr(x, m) if isinstance(x, (ast.Name, ast.Attribute)) else None
    return r is not None and (r[0] == "class" or r[0] == "ext" and r[1].startswith(("typing.", "builtins.list", "builtins.dict", "builtins.tuple", "builtins.set")))
  def expr(self, e, m, cls):
    if e is None: return False
    made = {id(x.args[0]) for x in walk_expr(e) if isinstance(x, ast.Call) and x.args and (dotted(x.func) or "").split(".")[-1] in ("create_task", "ensure_future")}   # making a coroutine runs nothing of it
    return any(self._one(x, m, cls, 6) for x in walk_expr(e) if not isinstance(x, FN) and id(x) not in made)


def has_await(e): return e is not None and any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom)) or isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(g.is_async for g in x.generators) for x in walk_expr(e) if not isinstance(x, FN))


class Node:
  __slots__ = ("kind", "ast", "succ", "exc", "can", "clean", "hand", "line", "loops", "types")
  # kind: stmt, test, bind (targets), dispatch, handler, exit; succ: [(node, label)] label in "", "T", "F"
  def __init__(self, kind, a, clean, hand, loops):
    self.kind, self.ast, self.succ, self.exc, self.can, self.clean, self.hand, self.loops = kind, a, [], None, None, clean, hand, loops
    self.line = getattr(a, "lineno", 0)
    self.types = None


class K:
  """where control goes from here"""
  def __init__(self, nxt, brk, cont, ret, exc, can): self.nxt, self.brk, self.cont, self.ret, self.exc, self.can = nxt, brk, cont, ret, exc, can
  def to(self, nxt): return K(nxt, self.brk, self.cont, self.ret, self.exc, self.can)


CANCELS = {"asyncio.CancelledError", "asyncio.exceptions.CancelledError", "concurrent.futures.CancelledError"}


def catches(types, r: Raises, m: Module):
  """(catches cancellation, catches other exceptions, catches every other exception)"""
  if types is None: return True, True, True
  ts = types.elts if isinstance(types, ast.Tuple) else [types]
  c = o = a = False
  for t in ts:
    x = r.p.resolve_expr(t, m)
    n = x[1] if x and x[0] == "ext" else None
    if n is None and not x and dotted(t): n = dotted(t)
    if n == "builtins.BaseException": c = o = a = True
    elif n in CANCELS: c = True
    elif n == "builtins.Exception": o = a = True
    else: o = True
  return c, o, a


class Graph:
  def __init__(self, fn: Fn, r: Raises):
    self.fn, self.r, self.m, self.nodes = fn, r, fn.module, []
    r.coros = {x.name for x in ast.walk(fn.node) if isinstance(x, ast.AsyncFunctionDef) and x is not fn.node}   # calling one only makes a coroutine
    self.end = self.new("end", fn.node)         # returns normally
    self.fail = self.new("fail", fn.node)       # leaves by exception
    self.cancelled = self.new("cancelled", fn.node)  # leaves by CancelledError
    self.depth = []
    self.clean = self.hand = 0
    body = fn.node.body if not isinstance(fn.node, ast.Lambda) else [ast.Return(fn.node.body)]
    self.entry = self.body(body, K(self.end, None, None, self.end, self.fail, self.cancelled))

  def new(self, kind, a):
    n = Node(kind, a, getattr(self, "clean", 0), getattr(self, "hand", 0), tuple(getattr(self, "depth", ())))
    self.nodes.append(n)
    return n

  def leaf(self, kind, a, exprs, k: K, nxt=None, force=False):
    n = self.new(kind, a)
    if nxt is None: nxt = [(k.nxt, "")]
    n.succ = nxt
    if force or any(self.r.expr(e, self.m, self.fn.cls) for e in exprs if e is not None): n.exc = k.exc
    if any(has_await(e) for e in exprs if e is not None): n.can = k.can; n.exc = k.exc
    return n

  def body(self, stmts, k: K):
    nxt = k.nxt
    for s in reversed(stmts): nxt = self.stmt(s, k.to(nxt))
    return nxt

  def stmt(self, s, k: K):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal)): return self.leaf("stmt", s, [], k)
    if isinstance(s, (ast.Import, ast.ImportFrom)): return self.leaf("stmt", s, [], k, force=True)
    if isinstance(s, ast.Return): return self.leaf("stmt", s, [s.value], k, [(k.ret, "")])
    if isinstance(s, ast.Raise):
      n = self.leaf("stmt", s, [s.exc], k, [])
      t = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
      x = self.r.p.resolve_expr(t, self.m) if isinstance(t, (ast.Name, ast.Attribute)) else None
      if x and x[0] == "ext" and x[1] in CANCELS: n.can = k.can
      elif x and x[0] in ("ext", "class"): n.exc = k.exc
      else: n.can, n.exc = k.can, k.exc   # re-raises whatever it caught
      return n
    if isinstance(s, ast.Break): n = self.new("stmt", s); n.succ = [(k.brk, "")]; return n
    if isinstance(s, ast.Continue): n = self.new("stmt", s); n.succ = [(k.cont, "")]; return n
    if isinstance(s, ast.If):
      n = self.leaf("test", s.test, [s.test], k)
      n.succ = [(self.body(s.body, k), "T"), (self.body(s.orelse, k), "F")]
      return n
    if isinstance(s, ast.While):
      n = self.leaf("test", s.test, [s.test], k)
      out = self.body(s.orelse, k)
      self.depth.append(id(s)); 
      b = self.body(s.body, K(n, k.nxt, n, k.ret, k.exc, k.can))
      self.depth.pop()
      n.succ = [(b, "T"), (out, "F")]
      return n
    if isinstance(s, (ast.For, ast.AsyncFor)):
      h = self.new("stmt", ast.Expr(ast.Constant(None)))
      h.line = s.lineno
      if isinstance(s, ast.AsyncFor): h.exc, h.can, h.ast = k.exc, k.can, s
      out = self.body(s.orelse, k)
      self.depth.append(id(s))
      b = self.body(s.body, K(h, k.nxt, h, k.ret, k.exc, k.can))
      bind = self.new("bind", s.target); bind.succ = [(b, "")]
      self.depth.pop()
      h.succ = [(bind, ""), (out, "")]
      return self.leaf("stmt", ast.copy_location(ast.Expr(s.iter), s), [s.iter], k.to(h))
    if isinstance(s, (ast.With, ast.AsyncWith)): return self.with_(s, s.items, k)
    if isinstance(s, ast.Match):
      cur = k.nxt
      for c in reversed(s.cases):
        b = self.new("bind", c.pattern); b.succ = [(self.body(c.body, k), "")]
        inner = b
        if c.guard is not None:
          g = self.leaf("test", c.guard, [c.guard], k)
          g.succ = b.succ + [(cur, "")] if False else [(b.succ[0][0], "T"), (cur, "F")]
          b.succ = [(g, "")]
        sel = self.new("stmt", ast.copy_location(ast.Expr(ast.Constant(None)), s))
        irref = c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None
        sel.succ = [(inner, "")] if irref else [(inner, ""), (cur, "")]
        cur = sel
      return self.leaf("stmt", ast.copy_location(ast.Expr(s.subject), s), [s.subject], k.to(cur))
    if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))): return self.try_(s, k)
    if isinstance(s, ast.Assign): return self.leaf("stmt", s, [s.value] + [t for t in s.targets if not isinstance(t, ast.Name)], k)
    if isinstance(s, ast.AnnAssign): return self.leaf("stmt", s, [s.value], k)
    if isinstance(s, ast.AugAssign): return self.leaf("stmt", s, [s.value], k)
    if isinstance(s, ast.Expr): return self.leaf("stmt", s, [s.value], k)
    if isinstance(s, ast.Assert): return self.leaf("stmt", s, [s.test], k, force=True)
    if isinstance(s, ast.Delete): return self.leaf("stmt", s, list(s.targets), k, force=any(not isinstance(t, ast.Name) for t in s.targets))
    return self.leaf("stmt", s, [], k, force=True)

  def suppressed(self, e):
    """types given to contextlib.suppress"""
    if isinstance(e, ast.Call):
      x = self.r.p.resolve_expr(e.func, self.m)
      if x == ("ext", "contextlib.suppress"): return ast.Tuple(list(e.args), ast.Load())
    return None

  def with_(self, s, items, k: K):
    if not items: return self.body(s.body, k)
    it = items[0]
    sup = self.suppressed(it.context_expr)
    is_async = isinstance(s, ast.AsyncWith)
    def leaving(target):
      x = self.new("exit", it.context_expr); x.clean += 1
      x.succ = [(target, "")]
      if is_async: x.exc, x.can = k.exc, k.can
      return x
    inner = K(leaving(k.nxt), leaving(k.brk) if k.brk else None, leaving(k.cont) if k.cont else None, leaving(k.ret), leaving(k.exc), leaving(k.can))
    if sup is not None:
      c, o, a = catches(sup, self.r, self.m)
      de, dc = self.new("dispatch", s), self.new("dispatch", s)
      de.succ = ([(k.nxt, "")] if o else []) + ([] if a else [(k.exc, "")])
      dc.succ = [(k.nxt, "")] if c else [(k.can, "")]
      inner.exc, inner.can = de, dc
    b = self.with_(s, items[1:], inner)
    if it.optional_vars is not None:
      x = self.new("bind", it.optional_vars); x.succ = [(b, "")]; b = x
    n = self.leaf("stmt", ast.copy_location(ast.Expr(it.context_expr), s), [it.context_expr], k.to(b), force=sup is None)
    if is_async: n.can, n.exc = k.can, k.exc
    n.types = "with"
    return n

  def try_(self, s, k: K):
    if s.finalbody:
      memo = {}
      def fin(target, clean=True):
        if target is None: return None
        if id(target) not in memo:
          self.clean += 1
          memo[id(target)] = self.body(s.finalbody, K(target, k.brk, k.cont, k.ret, k.exc, k.can))
          self.clean -= 1
        return memo[id(target)]
      k = K(fin(k.nxt), fin(k.brk), fin(k.cont), fin(k.ret), fin(k.exc), fin(k.can))
    if not s.handlers: return self.body(s.body, k.to(self.body(s.orelse, k)))
    de, dc = self.new("dispatch", s), self.new("dispatch", s)
    stop_e = stop_c = False
    for h in s.handlers:
      self.hand += 1
      n = self.new("handler", h)
      n.succ = [(self.body(h.body, k), "")]
      self.hand -= 1
      c, o, a = catches(h.type, self.r, self.m)
      n.types = (c, o, a)
      if o and not stop_e: de.succ.append((n, ""))
      if c and not stop_c: dc.succ.append((n, "")); stop_c = True
      if a: stop_e = True
    if not stop_e: de.succ.append((k.exc, ""))
    if not stop_c: dc.succ.append((k.can, ""))
    after = self.body(s.orelse, k)
    return self.body(s.body, K(after, k.brk, k.cont, k.ret, de, dc))
