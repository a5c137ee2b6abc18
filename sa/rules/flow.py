"""Whole-repository flow rules: what an exception or a cancellation leaves behind, at every point where one can arrive."""
from __future__ import annotations
import ast
from ..cfg import *
from ..program import Class

SENT = "\0"


# ------------------------------------------------------------------ values of locals along every path
def names_of(fn):
  """(locals, parameters)"""
  out, ex = set(), set()
  def w(n):
    for c in ast.iter_child_nodes(n):
      if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): out.add(c.name); continue
      if isinstance(c, ast.Lambda): continue
      if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        for y in ast.walk(c):
          if isinstance(y, ast.NamedExpr): out.add(y.target.id)
        continue
      if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)): out.add(c.id)
      if isinstance(c, ast.ExceptHandler) and c.name: out.add(c.name)
      if isinstance(c, (ast.Import, ast.ImportFrom)):
        for a in c.names: out.add((a.asname or a.name).split(".")[0])
      if isinstance(c, (ast.Global, ast.Nonlocal)): ex.update(c.names)
      if isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name: out.add(c.name)
      w(c)
  w(fn)
  a = fn.args
  return out - ex, {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def nonlocal_writes(fn):
  """locals of fn that nested functions assign"""
  out = set()
  for n in ast.walk(fn):
    if isinstance(n, ast.Nonlocal): out.update(n.names)
  return out


TOP, NN, FALSY, TRUTHY = "?", "nn", "f", "t"
def known(v):
  """(is None, truthy) of an abstract value; None: unknown"""
  if isinstance(v, tuple): return v[1] is None, bool(v[1])
  if v == NN: return False, None
  if v == TRUTHY: return False, True
  if v == FALSY: return None, False
  return None, None


class Values:
  """forward analysis: sets of environments name -> abstract value (absent: not assigned); an environment that came over an exception edge is tagged"""
  CAP = 192
  def __init__(self, g: Graph, report):
    self.g, self.report = g, report
    self.locals, self.params = names_of(g.fn.node)
    self.loose = nonlocal_writes(g.fn.node)

  def run(self):
    ins: dict[Node, set] = {}
    start = frozenset((p, TOP) for p in self.params)
    work = [self.g.entry]; ins[self.g.entry] = {start}; done: dict[Node, set] = {}
    steps = 0
    while work:
      n = work.pop()
      new = ins[n] - done.setdefault(n, set())
      if not new: continue
      done[n] |= new
      for env in new:
        steps += 1
        for t, e in self.step(n, dict(env)):
          s = ins.setdefault(t, set())
          fe = frozenset(e.items())
          if fe in s: continue
          if len(s) >= self.CAP: fe = self.meet(s, fe)
          if fe not in s: s.add(fe); work.append(t)
    return steps

  def meet(self, s, fe):
    cur = dict(fe)
    for o in s:
      o = dict(o)
      for k in list(cur):
        if k not in o: del cur[k]
        elif cur[k] != o[k]: cur[k] = TOP
    return frozenset(cur.items())

  def step(self, n: Node, env):
    if n.exc is not None or n.can is not None:
      x = {k: v for k, v in env.items() if k != SENT}; x[SENT] = ("c", n.line)
      x = env if SENT in env else x
    if n.exc is not None: yield n.exc, x
    if n.can is not None and n.can is not n.exc: yield n.can, x
    a = n.ast
    if n.kind == "test":
      self.read(a, env, n)
      tv = self.truth(a, env)
      for t, l in n.succ:
        if l == "T" and tv is False or l == "F" and tv is True: continue
        e = dict(env)
        if l: self.assume(a, l == "T", e)
        yield t, e
      return
    if n.kind == "stmt": env = self.stmt(a, env, n)
    elif n.kind == "bind": env = self.bind(a, env, n)
    elif n.kind == "handler" and a.name: env[a.name] = NN
    if n.kind == "dispatch": env.setdefault(SENT, ("c", n.line))
    for t, _ in n.succ: yield t, env

  # -- expressions
  def read(self, e, env, n):
    if e is None: return
    def w(x, bound, may=()):
      if isinstance(x, FN): return
      if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        b = set(bound)
        for g in x.generators:
          w(g.iter, b)
          b |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
          for i in g.ifs: w(i, b)
        for p in ([x.elt] if not isinstance(x, ast.DictComp) else [x.key, x.value]): w(p, b)
        return
      if isinstance(x, ast.NamedExpr):
        w(x.value, bound); env[x.target.id] = self.value(x.value, env); return
      if isinstance(x, ast.BoolOp):
        sub = dict(env)
        for v in x.values:
          hold = dict(env); env.clear(); env.update(sub)
          w(v, bound)
          tv = self.truth(v, env)
          self.assume(v, isinstance(x.op, ast.And), env)
          sub = dict(env); env.clear(); env.update({k: hold[k] for k in hold})
          if tv is (not isinstance(x.op, ast.And)): break
        return
      if isinstance(x, ast.IfExp):
        w(x.test, bound)
        tv = self.truth(x.test, env)
        for br, val in ((x.body, True), (x.orelse, False)):
          if tv is (not val): continue
          hold = dict(env); self.assume(x.test, val, env); w(br, bound); env.clear(); env.update(hold)
        return
      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
        if x.id in self.locals and x.id not in bound and x.id not in env and x.id not in self.loose: self.report(x, n, env, "not assigned")
        return
      if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Load) or isinstance(x, (ast.Await, ast.Call)):
        b = x.func if isinstance(x, ast.Call) else x.value
        if isinstance(b, ast.Name) and b.id not in bound and b.id in self.locals and b.id not in self.loose and known(env.get(b.id, TOP))[0]: self.report(b, n, env, "None")
      for c in ast.iter_child_nodes(x): w(c, bound)
    w(e, set())

  def value(self, e, env):
    if isinstance(e, ast.Constant): return ("c", e.value) if e.value is None or isinstance(e.value, (bool, int, str)) else NN
    if isinstance(e, ast.Name): return env.get(e.id, TOP) if e.id in self.locals or e.id in self.params else TOP
    if isinstance(e, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.JoinedStr, ast.ListComp, ast.SetComp, ast.DictComp, ast.Lambda)):
      if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and e.elts and not any(isinstance(x, ast.Starred) for x in e.elts): return NN
      return NN
    if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      t = self.truth(e, env)
      return TOP if t is None else ("c", t)
    if isinstance(e, ast.NamedExpr): return self.value(e.value, env)
    if isinstance(e, ast.IfExp):
      t = self.truth(e.test, env)
      if t is not None: return self.value(e.body if t else e.orelse, env)
    return TOP

  def key(self, e):
    """tests on things that are not tracked as locals are remembered by their text (no calls)"""
    if any(isinstance(x, (ast.Call, ast.Await, ast.NamedExpr)) for x in ast.walk(e)): return None
    return SENT + ast.unparse(e)

  def truth(self, e, env):
    if isinstance(e, ast.Constant): return bool(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      t = self.truth(e.operand, env)
      return None if t is None else not t
    if isinstance(e, ast.BoolOp):
      ts = [self.truth(v, env) for v in e.values]
      if isinstance(e.op, ast.And): return False if False in ts else True if all(t is True for t in ts) else None
      return True if True in ts else False if all(t is False for t in ts) else None
    if isinstance(e, ast.Name) and e.id in env: return known(env[e.id])[1]
    if isinstance(e, ast.NamedExpr): return self.truth(e.value, env)
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
      l, r, op = e.left, e.comparators[0], e.ops[0]
      if isinstance(l, ast.NamedExpr): l = l.target
      if isinstance(r, ast.Constant) and r.value is None and isinstance(l, ast.Name) and l.id in env and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
        t = known(env[l.id])[0]
        if t is not None: return t if isinstance(op, (ast.Is, ast.Eq)) else not t
      a, b = self.value(l, env), self.value(r, env)
      if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        same = a[1] == b[1] and type(a[1]) is type(b[1])
        return same if isinstance(op, (ast.Eq, ast.Is)) else not same
    k = self.key(e)
    return env.get(k) if k else None

  def assume(self, e, val, env):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return self.assume(e.operand, not val, env)
    if isinstance(e, ast.BoolOp):
      if isinstance(e.op, ast.And) == val:
        for v in e.values: self.assume(v, val, env)
      return
    if isinstance(e, ast.NamedExpr):
      self.assume(e.value, val, env); e = e.target
    if isinstance(e, ast.Name):
      if e.id in env and not isinstance(env[e.id], tuple): env[e.id] = TRUTHY if val else FALSY
      return
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
      l = e.left.target if isinstance(e.left, ast.NamedExpr) else e.left
      if isinstance(l, ast.Name):
        if l.id in env and not isinstance(env[l.id], tuple):
          isnone = val == isinstance(e.ops[0], (ast.Is, ast.Eq))
          env[l.id] = ("c", None) if isnone else (env[l.id] if env[l.id] == TRUTHY else NN)
        return
    k = self.key(e)
    if k: env[k] = val

  # -- statements
  def drop(self, name, env):
    for k in [k for k in env if isinstance(k, str) and k.startswith(SENT) and len(k) > 1 and name in k]: del env[k]

  def store(self, t, v, env, n):
    if isinstance(t, ast.Name): env[t.id] = v; self.drop(t.id, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts: self.store(x, TOP, env, n)
    elif isinstance(t, ast.Starred): self.store(t.value, NN, env, n)
    elif isinstance(t, ast.Attribute):
      self.read(t.value, env, n); self.drop(t.attr, env)
      self.deref(t.value, env, n)
    elif isinstance(t, ast.Subscript):
      self.read(t.value, env, n); self.read(t.slice, env, n)

  def deref(self, b, env, n):
    if isinstance(b, ast.Name) and b.id in self.locals and b.id not in self.loose and known(env.get(b.id, TOP))[0]: self.report(b, n, env, "None")

  def stmt(self, s, env, n):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): env[s.name] = NN
    elif isinstance(s, (ast.Import, ast.ImportFrom)):
      for a in s.names: env[(a.asname or a.name).split(".")[0]] = NN
    elif isinstance(s, ast.Assign):
      self.read(s.value, env, n); v = self.value(s.value, env)
      for t in s.targets:
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
          vs = [self.value(x, env) for x in s.value.elts]
          for x, y in zip(t.elts, vs): self.store(x, y, env, n)
        else: self.store(t, v, env, n)
    elif isinstance(s, ast.AnnAssign):
      if s.value is not None:
        self.read(s.value, env, n); self.store(s.target, self.value(s.value, env), env, n)
    elif isinstance(s, ast.AugAssign):
      self.read(s.value, env, n)
      if isinstance(s.target, ast.Name):
        if s.target.id in self.locals and s.target.id not in env and s.target.id not in self.loose: self.report(s.target, n, env, "not assigned")
        env[s.target.id] = TOP; self.drop(s.target.id, env)
      else: self.store(s.target, TOP, env, n)
    elif isinstance(s, (ast.Expr, ast.Return)): self.read(s.value, env, n)
    elif isinstance(s, ast.Raise): self.read(s.exc, env, n)
    elif isinstance(s, ast.Assert): self.read(s.test, env, n); self.assume(s.test, True, env)
    elif isinstance(s, ast.Delete):
      for t in s.targets:
        if isinstance(t, ast.Name): env.pop(t.id, None)
        else: self.read(t, env, n)
    return env

  def bind(self, t, env, n):
    if isinstance(t, ast.expr): self.store(t, TOP, env, n)
    else:
      for x in ast.walk(t):
        if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name: env[x.name] = TOP
    return env


def u02(ctx):
  R = ctx.rule("acquired-first", "wherever an exception or a cancellation can arrive, nothing that runs afterwards (handlers, clean-up, code behind them) uses a local that is then not assigned or None", 300)
  r = Raises(ctx.p)
  for fn in functions(ctx.p):
    g = Graph(fn, r)
    bad = {}
    def rep(x, n, env, what):
      if SENT not in env: return   # not the consequence of an exception
      bad.setdefault((x.id, what), (x, n, env[SENT][1]))
    v = Values(g, rep)
    steps = v.run()
    ctx.scanned(fn.qual)
    for (name, what), (x, n, src) in bad.items():
      ctx.fail(R, f"{fn.qual}:{name}", f"when line {src} fails or is cancelled, '{name}' is {what} where line {n.line or x.lineno} uses it", f"{fn.module.relpath}:{x.lineno}", [f"exception or cancellation at {fn.module.relpath}:{src}", f"use of '{name}' at {fn.module.relpath}:{x.lineno}"])
    if not bad: ctx.ok(R, fn.qual if any(k.kind == "dispatch" or k.clean for k in g.nodes) else None)


# ------------------------------------------------------------------ cancellation
def operands(e):
  """what an await waits for, looking through asyncio.wait / gather / shield / wait_for"""
  while isinstance(e, ast.Call):
    nm = dotted(e.func) or ""
    if nm.split(".")[-1] in ("wait", "gather", "shield", "wait_for") and nm.startswith("asyncio."):
      out = []
      for a in e.args[:1] if nm.split(".")[-1] != "gather" else e.args:
        if isinstance(a, ast.Starred): a = a.value
        if isinstance(a, (ast.List, ast.Tuple, ast.Set)): 
          for x in a.elts: out += operands(x)
        else: out += operands(a)
      return out
    return [e]
  return [e]


class Cancellation:
  def __init__(self, ctx):
    self.ctx, self.p = ctx, ctx.p
    self.r = Raises(self.p)
    self.fns = [f for f in functions(self.p) if f.is_async]
    self.graphs = {f.qual: Graph(f, self.r) for f in self.fns}
    self.by_method = {}
    for f in self.fns:
      if f.cls is not None and f.node in [m.node for m in f.cls.methods.values()]: self.by_method.setdefault(f.name, []).append(f)
    self.by_node = {id(f.node): f for f in self.fns}
    self.swallow = {}   # qual -> Node: ends normally although it was cancelled there

  def awaits(self, n):
    return [x for x in walk_expr(n.ast) if isinstance(x, ast.Await)] if n.kind in ("stmt", "test") and not isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not isinstance(n.ast, (ast.AsyncFor,)) else []

  def cancelled_exprs(self, fn: Fn):
    """texts of what this function (or, for attributes, its class) cancels"""
    out = set()
    def scan(node):
      for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "cancel": out.add(ast.unparse(x.func.value))
    scan(fn.node)
    loops = [x for x in ast.walk(fn.node) if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id in out]
    for l in loops: out.add(ast.unparse(l.iter))
    if fn.cls is not None:
      own = set(out); out.clear()
      for c in [fn.cls] + [c for c in self.p.mro(fn.cls) if isinstance(c, Class)]: scan(c.node)
      out = own | {t for t in out if t.startswith("self.")}
    return out

  def own_task(self, n, fn, ce):
    """does this node only wait for tasks that the function itself cancels?"""
    aw = self.awaits(n)
    if not aw: return False
    for a in aw:
      for o in operands(a.value):
        t = ast.unparse(o)
        if not (isinstance(o, (ast.Name, ast.Attribute)) and t in ce): return False
    return True

  def callees(self, n, fn):
    out = []
    for a in self.awaits(n):
      for o in operands(a.value):
        if not isinstance(o, ast.Call): continue
        f = o.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and fn.cls is not None:
          t = self.p.method(fn.cls, f.attr, False)
          out += [x for x in self.by_method.get(f.attr, []) if t is not None and (x.node is t.node or self.p.is_sub(x.cls, fn.cls))]
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted(f.value.func) == "super" and fn.cls is not None:
          for c in self.p.mro(fn.cls)[1:]:
            if isinstance(c, Class) and f.attr in c.methods: out += [x for x in self.fns if x.node is c.methods[f.attr].node]; break
        elif isinstance(f, (ast.Name, ast.Attribute)):
          x = self.p.resolve_expr(f, fn.module)
          if x and x[0] == "func": out += [y for y in self.fns if y.node is x[1].node]
          elif isinstance(f, ast.Name):
            out += [y for y in self.fns if y.name == f.id and y.module is fn.module and y.qual.startswith(fn.qual + ".")]
    return out

  def follow(self, start, inflight=True):
    """(await the function goes on with, ends normally) once a cancellation goes to `start`; the clean-up on the way and the handler's own awaits are not going on"""
    seen, work, on, normal = set(), [start], None, False
    while work:
      n = work.pop()
      if id(n) in seen: continue
      seen.add(id(n))
      if n.kind == "end": normal = True; continue
      if n.kind in ("fail", "cancelled"): continue
      if n.can is not None and not n.clean and not n.hand and not isinstance(n.ast, ast.Raise):
        on = on or n
        continue
      if isinstance(n.ast, ast.Raise): work += [x for x in ([n.can] if n.can is not None else [n.exc]) if x is not None]
      work += [t for t, _ in n.succ]
    return on, normal


HANDLED = {  # coroutines that answer a cancellation with one last report
  "streamtasks.system.task.TaskHost.run_task": "the way a cancelled task ends is reported by its host (S01)",
}


def is_handler(fn):
  """coroutines a server loop of the package awaits for one message"""
  return any(d.split("(")[0].split(".")[-1] in ("route", "signal") or "route(" in d for d in fn.decos)


def u03(ctx):
  R1 = ctx.rule("ends", "a coroutine that is cancelled, wherever it waits, ends: it does its clean-up and goes on with nothing else", 150)
  R2 = ctx.rule("seen", "a coroutine that answers a cancellation by returning is only awaited where nothing more follows, and no handler of a server loop does so", 3)
  c = Cancellation(ctx)
  for fn in c.fns:
    g = c.graphs[fn.qual]
    ctx.scanned(fn.qual)
    ce = c.cancelled_exprs(fn)
    for n in g.nodes:
      if n.can is None or n.clean or isinstance(n.ast, ast.Raise): continue
      if c.own_task(n, fn, ce): continue
      on, normal = c.follow(n.can)
      if normal: c.swallow.setdefault(fn.qual, n)
      if fn.qual in HANDLED: ctx.note(f"{fn.qual}: {HANDLED[fn.qual]}"); ctx.ok(R1); continue
      ctx.check(on is None, R1, f"{fn.qual}:{text(n)}", f"a cancellation at line {n.line} is swallowed: the coroutine goes on at line {on.line if on else 0}", f"{fn.module.relpath}:{n.line}", [f"cancelled at {fn.module.relpath}:{n.line}", f"goes on at {fn.module.relpath}:{on.line if on else 0}"])
  R3 = ctx.rule("passed-on", "a task or worker that is cancelled leaves its run with that cancellation (it is not taken for one that finished)", 30)
  for _ in range(4):
    grew = False
    for fn in c.fns:
      g = c.graphs[fn.qual]
      for n in g.nodes:
        if n.can is None or n.clean: continue
        for t in c.callees(n, fn):
          if t.qual not in c.swallow or t.qual == fn.qual: continue
          on, normal = None, False
          for s, _ in n.succ:
            o2, n2 = c.follow(s)
            on, normal = on or o2, normal or n2
          if n.hand: on = None
          k = f"{fn.qual}:{text(n)}"
          s = c.swallow[t.qual]
          ctx.check(on is None, R2, k, f"{t.qual} returns when it is cancelled at line {s.line}, and its caller goes on at line {on.line if on else 0}", f"{fn.module.relpath}:{n.line}", [f"cancelled at {t.module.relpath}:{s.line} in {t.qual}", f"awaited at {fn.module.relpath}:{n.line}"])
          if normal and fn.qual not in c.swallow: c.swallow[fn.qual] = n; grew = True
    if not grew: break
  roots = [ctx.p.cls("streamtasks.system.task.Task"), ctx.p.cls("streamtasks.worker.Worker")]
  runs = {id(k.methods["run"].node): k for b in roots for k in ctx.p.subclasses(b) if "run" in k.methods}
  for fn in c.fns:
    if id(fn.node) in runs: ctx.check(fn.qual not in c.swallow, R3, fn.qual, f"run returns normally when it is cancelled at line {c.swallow[fn.qual].line if fn.qual in c.swallow else 0}", fn.where)
    if fn.name == "__aenter__": ctx.check(fn.qual not in c.swallow, R2, fn.qual, f"entering the context succeeds when it is cancelled at line {c.swallow[fn.qual].line if fn.qual in c.swallow else 0}: its body runs all the same", fn.where)
    if is_handler(fn): ctx.check(fn.qual not in c.swallow, R2, fn.qual, f"the handler returns normally when it is cancelled at line {c.swallow[fn.qual].line if fn.qual in c.swallow else 0}: the loop that awaits it goes on", fn.where)


def text(n):
  try: return ast.unparse(n.ast)[:60].replace("\n", " ") if isinstance(n.ast, (ast.expr, ast.stmt)) and n.kind in ("stmt", "test") else n.kind
  except Exception: return n.kind



# ------------------------------------------------------------------ what is acquired is released
TASKS = {"asyncio.create_task", "asyncio.ensure_future"}
RESOURCES = {  # what returns it -> methods that release it
  "asyncio.create_task": ("cancel",), "asyncio.ensure_future": ("cancel",), "sounddevice.RawInputStream": ("close",), "sounddevice.RawOutputStream": ("close",),
  "sounddevice.InputStream": ("close",), "sounddevice.OutputStream": ("close",), "cv2.VideoCapture": ("release",), "cv2.VideoWriter": ("release",), "mss.mss": ("close",), "av.open": ("close",),
  "builtins.open": ("close",), "socket.socket": ("close",), "dbm.open": ("close",), "tempfile.TemporaryFile": ("close",), "tempfile.NamedTemporaryFile": ("close",)}
OPENERS = {"streamtasks.media.container.InputContainer", "streamtasks.media.container.OutputContainer"}
CODERS = {"get_encoder", "get_decoder"}
PAIRS = {"start_recv": "stop_recv"}
WAITERS = {"wait", "gather", "shield", "wait_for", "wait_with_dependencies", "as_completed"}


class Resources:
  def __init__(self, ctx):
    self.ctx, self.p, self.r = ctx, ctx.p, Raises(ctx.p)
    self.fns = list(functions(ctx.p))
    self.by_node = {id(f.node): f for f in self.fns}

  def res(self, f, fn):
    x = self.p.resolve_expr(f, fn.module) if isinstance(f, (ast.Name, ast.Attribute)) else None
    return x

  def acquires(self, e, fn, depth=3):
    """release methods when e evaluates to a resource (or a collection of them)"""
    while isinstance(e, (ast.Await,)): e = e.value
    if isinstance(e, ast.Starred): e = e.value
    if isinstance(e, ast.BoolOp): return next((r for r in (self.acquires(v, fn, depth) for v in e.values) if r), None)
    if isinstance(e, ast.IfExp): return self.acquires(e.body, fn, depth) or self.acquires(e.orelse, fn, depth)
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)): return next((("each",) + r[1:] if r[0] == "each" else ("each",) + r for r in (self.acquires(x, fn, depth) for x in e.elts) if r), None)
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
      r = self.acquires(e.elt, fn, depth)
      return ("each",) + r if r else None
    if isinstance(e, ast.DictComp):
      r = self.acquires(e.value, fn, depth)
      return ("each",) + r if r else None
    if isinstance(e, ast.BinOp): return self.acquires(e.left, fn, depth) or self.acquires(e.right, fn, depth)
    if isinstance(e, ast.Call):
      f = e.func
      x = self.res(f, fn)
      if x and x[0] == "ext" and x[1] in RESOURCES: return RESOURCES[x[1]]
      o = self.target(f, fn)   # a helper that hands out a resource
      if o is not None and o.node is not fn.node and depth > 0 and not isinstance(f, ast.Attribute) or o is not None and o.cls is not None and depth > 0 and o.node is not fn.node:
        made = {n.targets[0].id: r for n in walk_own(o.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) for r in [self.acquires(n.value, o, depth - 1)] if r}
        kept = {ast.unparse(n.value) for n in walk_own(o.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))} | {z.id for n in walk_own(o.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add") and isinstance(n.func.value, ast.Attribute) for z in ast.walk(n) if isinstance(z, ast.Name)}
        for n in walk_own(o.node):
          if isinstance(n, ast.Return) and n.value is not None:
            r = made.get(n.value.id) if isinstance(n.value, ast.Name) and n.value.id not in kept else self.acquires(n.value, o, depth - 1) if not isinstance(n.value, ast.Name) else None
            if r: return r
      if isinstance(f, ast.Attribute) and f.attr == "open":
        x = self.res(f.value, fn)
        if x and x[0] == "class" and x[1].qualname in OPENERS: return ("close",)
      if isinstance(f, ast.Attribute) and f.attr in CODERS: return ("close",)
      if x and x[0] == "class" and x[1].qualname in ("streamtasks.media.codec.Encoder", "streamtasks.media.codec.Decoder"): return ("close",)
      if isinstance(f, ast.Attribute) and f.attr == "create_task" and isinstance(f.value, (ast.Name, ast.Attribute)) and ast.unparse(f.value).endswith("loop"): return ("cancel",)
      if isinstance(f, ast.Name) and f.id in ("list", "set", "tuple") and e.args: return self.acquires(e.args[0], fn, depth)
    return None

  # -- uses of variable v in one node
  def mentions(self, x, v):
    if isinstance(x, ast.Subscript): x = x.value
    return isinstance(x, (ast.Name, ast.Attribute)) and (t := ast.unparse(x)) and (t == v or t in self.alias.get(v, ()))

  alias = {}
  def set_alias(self, g, v):
    """locals that v is moved to"""
    out = set()
    for x in walk_own(g.fn.node):
      if isinstance(x, ast.Assign):
        for t in x.targets:
          ps = zip(t.elts, x.value.elts) if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) else [(t, x.value)]
          out |= {l.id for l, r in ps if isinstance(l, ast.Name) and isinstance(r, (ast.Name, ast.Attribute)) and ast.unparse(r) == v}
      if isinstance(x, ast.NamedExpr) and isinstance(x.value, (ast.Name, ast.Attribute)) and ast.unparse(x.value) == v: out.add(x.target.id)
    self.alias = {v: out}

  def inside(self, e, v): return any(self.mentions(x, v) for x in ast.walk(e))

  def releases(self, n, v, rel, fn, depth=3):
    """does executing node n end resource v, or give it to something that outlives this activation?"""
    each = rel[0] == "each"
    rel = [r for r in rel if r != "each"]
    a = n.ast
    if n.kind == "exit" or a is None or isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): return False
    if n.kind not in ("stmt", "test"): return False
    if n.types == "with" and self.inside(a, v): return True
    for x in walk_expr(a):
      if isinstance(x, FN): continue
      if isinstance(x, ast.Call):
        f = x.func
        if isinstance(f, ast.Attribute) and f.attr in rel and self.mentions(f.value, v) and (not each or isinstance(f.value, ast.Subscript)): return True
        if isinstance(f, ast.Attribute) and f.attr in ("append", "add", "extend", "put", "put_nowait", "push", "enter_context", "enter_async_context", "push_async_callback", "callback", "update", "setdefault", "insert"):
          if any(self.passed(z, v) or isinstance(z, (ast.Attribute, ast.Lambda)) and self.inside(z, v) for z in list(x.args) + [k.value for k in x.keywords]): return True
        elif any(self.passed(z, v) for z in list(x.args) + [k.value for k in x.keywords]):
          t = self.target(f, fn)
          if t is not None and t.node is not fn.node and depth > 0:
            if t.cls is not None and t.name == "__init__": return True
            for p in self.param_of(t, x, v):
              if self.some_release(t, p, (["each"] if each else []) + rel, depth - 1): return True
          elif t is None:
            nm = (dotted(f) or "").split(".")[-1]
            r = self.res(f, fn)
            if nm in WAITERS or r and r[0] == "ext" and r[1].split(".")[0] in ("builtins", "logging", "json"): pass
            elif r and r[0] == "class": return True
            elif not (r and r[0] == "func"): return True
      if isinstance(x, ast.Await):
        if self.mentions(x.value, v) and not each: return True
      if isinstance(x, (ast.Yield, ast.YieldFrom)) and x.value is not None and self.inside(x.value, v): return True
    if isinstance(a, ast.Return) and a.value is not None and self.inside(a.value, v) and not isinstance(a.value, ast.Await): return True
    if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
      ts = a.targets if isinstance(a, ast.Assign) else [a.target]
      for t in ts:
        if isinstance(t, (ast.Attribute, ast.Subscript)) and self.passed(a.value, v): return True
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(a.value, (ast.Tuple, ast.List)):
          for l, r in zip(t.elts, a.value.elts):
            if isinstance(l, (ast.Attribute, ast.Subscript)) and self.passed(r, v): return True
    return False

  def passed(self, e, v):
    """e evaluates to v or to a collection that contains it"""
    if self.mentions(e, v): return True
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)): return any(self.passed(x, v) for x in e.elts)
    if isinstance(e, ast.Dict): return any(self.passed(x, v) for x in e.values)
    if isinstance(e, ast.Starred): return self.passed(e.value, v)
    if isinstance(e, ast.BinOp): return self.passed(e.left, v) or self.passed(e.right, v)
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)): return self.passed(e.elt, v)
    if isinstance(e, ast.IfExp): return self.passed(e.body, v) or self.passed(e.orelse, v)
    return False

  def target(self, f, fn):
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and fn.cls is not None:
      t = self.p.method(fn.cls, f.attr, False)
      return self.by_node.get(id(t.node)) if t is not None else None
    if isinstance(f, ast.Name):
      loc = [o for o in self.fns if o.name == f.id and o.module is fn.module and (o.qual.startswith(fn.qual + ".") or o.qual.rpartition(".")[0] == fn.qual.rpartition(".")[0] and o.cls is None)]
      if loc: return loc[0]
    x = self.res(f, fn)
    if x and x[0] == "func": return self.by_node.get(id(x[1].node))
    return None

  def param_of(self, t, call, v):
    a = t.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if t.cls is not None and ps and ps[0] in ("self", "cls"): ps = ps[1:]
    out = []
    for i, z in enumerate(call.args):
      if isinstance(z, ast.Starred):
        if self.passed(z, v) and a.vararg: out.append(a.vararg.arg)
      elif self.passed(z, v):
        if i < len(ps): out.append(ps[i])
        elif a.vararg: out.append(a.vararg.arg)
    for k in call.keywords:
      if self.passed(k.value, v) and k.arg: out.append(k.arg)
    return out

  def some_release(self, t, p, rel, depth):
    g = Graph(t, self.r)
    return any(self.releases(n, p, tuple(rel), t, depth) for n in g.nodes) or self.loops(g, p, rel)

  def loops(self, g, v, rel):
    """for x in v: x.release()"""
    rel = [r for r in rel if r != "each"]
    for x in walk_own(g.fn.node):
      if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and any(self.mentions(y, v) for y in walk_expr(x.iter)): return True
    return False

  def loop_nodes(self, g, v, rel):
    """nodes at which a loop over v starts that releases each element"""
    rel = [r for r in rel if r != "each"]
    out = set()
    for x in walk_own(g.fn.node):
      if isinstance(x, (ast.For, ast.AsyncFor)) and any(self.mentions(y, v) for y in walk_expr(x.iter)):
        names = {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        if any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in rel and (isinstance(c.func.value, ast.Name) and c.func.value.id in names or isinstance(c.func.value, ast.Subscript) and self.mentions(c.func.value, v)) for c in ast.walk(ast.Module(x.body, []))) or any(isinstance(c, ast.Call) and any(isinstance(z, ast.Name) and z.id in names for z in c.args) for c in ast.walk(ast.Module(x.body, []))):
          out.add(id(x.iter))
      if isinstance(x, (ast.ListComp, ast.SetComp)) and any(self.mentions(y, v) for gg in x.generators for y in walk_expr(gg.iter)):
        if any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in rel for c in ast.walk(x.elt)): out.add(id(x))
    return out

  def leak(self, g, starts, v, rel, fn, extra=None):
    """a way out of the function on which v is not released: list of lines, or None. Failures of the clean-up itself are not followed."""
    each = rel[0] == "each"
    self.set_alias(g, v)
    ln = self.loop_nodes(g, v, rel)
    seen, work = set(), [(s, ()) for s in starts]
    while work:
      n, tr = work.pop()
      if id(n) in seen: continue
      seen.add(id(n))
      if n.kind in ("end", "fail", "cancelled"): return list(tr) + [n.kind]
      tr = tr if tr and tr[-1] == n.line or len(tr) > 20 else tr + (n.line,)
      succ = [(t, l) for t, l in n.succ]
      if n.kind == "test":
        keep = self.branch(n.ast, v)
        if keep is not None: succ = [(t, l) for t, l in succ if l == keep or l == ""]
      done = self.releases(n, v, rel, fn) or (extra is not None and extra(n)) or isinstance(n.ast, ast.Expr) and (id(n.ast.value) in ln or any(id(y) in ln for y in walk_expr(n.ast)))
      if isinstance(n.ast, (ast.Assign, ast.AnnAssign)) and n.kind == "stmt" and n.ast.value is not None and any(isinstance(t, ast.Name) and t.id == v for t in (n.ast.targets if isinstance(n.ast, ast.Assign) else [n.ast.target])):
        if isinstance(n.ast.value, ast.Name): pass
      if done:
        continue
      for x in walk_expr(n.ast) if n.kind == "stmt" and isinstance(n.ast, (ast.Expr, ast.Assign, ast.Return)) else []:   # waiting for all of them until they are done
        if each and isinstance(x, ast.Await) and isinstance(x.value, ast.Call) and (dotted(x.value.func) or "").split(".")[-1] == "gather" and any(self.passed(z, v) for z in x.value.args): succ = []
      for t, _ in succ: work.append((t, tr))
      if not n.clean:
        for t in (n.exc, n.can):
          if t is not None: work.append((t, tr))
    return None

  def branch(self, e, v):
    """the branch taken while v is held"""
    neg = False
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e, neg = e.operand, not neg
    if self.mentions(e, v): return "F" if neg else "T"
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("done", "closed") and self.mentions(e.func.value, v): return "T" if neg else "F"
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
      l = e.left
      if self.mentions(l, v) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
        t = isinstance(e.ops[0], (ast.IsNot, ast.NotEq)) != neg
        return "T" if t else "F"
      if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args and self.mentions(l.args[0], v) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value == 0:
        t = isinstance(e.ops[0], (ast.Gt, ast.NotEq)) != neg
        return "T" if t else "F"
    return None


def walk_own(fn):
  """nodes of a function without those of nested functions"""
  stack = list(ast.iter_child_nodes(fn))
  while stack:
    x = stack.pop()
    yield x
    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
    stack.extend(ast.iter_child_nodes(x))


def u04(ctx):
  R1 = ctx.rule("released", "whatever a function acquires for itself (a background task, a device, a media container, a file, a receiver) is released on every way out of it: on return, on failure and on cancellation at any await", 12)
  R2 = ctx.rule("task-ends", "background work a task starts and keeps in a field has ended when the task ends, however it ends", 1)
  rs = Resources(ctx)
  for fn in rs.fns:
    g = None
    sites = []
    src = list(walk_own(fn.node))
    if not any(isinstance(x, ast.Call) for x in src): continue
    g = Graph(fn, rs.r)
    ctx.scanned(fn.qual)
    seen = set()
    for n in g.nodes:
      a = n.ast
      if n.kind != "stmt" or n.clean or isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): continue
      if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
        t = (a.targets[0] if isinstance(a, ast.Assign) else a.target)
        rel = rs.acquires(a.value, fn) if isinstance(t, ast.Name) else None
        if rel: sites.append((n, t.id, rel, [s for s, _ in n.succ]))
      for x in walk_expr(a) if isinstance(a, (ast.Expr, ast.Assign)) else []:
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "extend") and isinstance(x.func.value, ast.Name) and x.args:
          rel = rs.acquires(x.args[0], fn)
          if rel: sites.append((n, x.func.value.id, ("each",) + tuple(r for r in rel if r != "each"), [s for s, _ in n.succ]))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in PAIRS and isinstance(x.func.value, ast.Name) and x.func.value.id != "self" and any(isinstance(y, ast.Await) and y.value is x for y in walk_expr(a)):
          sites.append((n, x.func.value.id, (PAIRS[x.func.attr],), [s for s, _ in n.succ]))
    params = names_of(fn.node)[1]
    for n, v, rel, starts in sites:
      if v in params and rel[0] == "each": continue     # a collection of the caller
      if v not in names_of(fn.node)[0] and v not in params: continue
      if v in outer_names(fn, v): continue
      way = rs.leak(g, starts, v, rel, fn)
      k = f"{fn.qual}:{v}"
      ctx.check(way is None, R1, k, f"'{v}', acquired at line {n.line}, is not released ({'/'.join(r for r in rel if r != 'each')}) when the function leaves via lines {way}", f"{fn.module.relpath}:{n.line}", [f"{fn.module.relpath}:{l}" for l in way or []])
  base = ctx.p.cls("streamtasks.system.task.Task")
  for c in ctx.p.subclasses(base):
    kept = {}
    for m in c.methods.values():
      f = rs.by_node.get(id(m.node))
      if f is None: continue
      for x in walk_own(f.node):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and ast.unparse(x.targets[0]).startswith("self.") and ast.unparse(x.targets[0]).count(".") == 1:
          rel = rs.acquires(x.value, f)
          if rel: kept.setdefault(ast.unparse(x.targets[0]), []).append((m.name, rel))
    if not kept: continue
    run = ctx.p.method(c, "run", False)
    if run is not None and run.cls is not c and all(m == "__init__" for ms in kept.values() for m, _ in ms) and "init" in c.methods: run = c.methods["init"]   # the base runs it within this context
    fn = rs.by_node.get(id(run.node)) if run is not None else None
    if fn is None: continue
    fn = Fn(fn.node, fn.module, c, fn.qual, fn.decos)
    g = Graph(fn, rs.r)
    for v, ms in kept.items():
      makers = reach(rs, c, {m for m, _ in ms})
      enders = reach(rs, c, {m.name for m in c.methods.values() if m.name != "run" and any(rs.releases(n, v, ms[0][1], Fn(m.node, m.module, c, m.qualname)) for n in Graph(Fn(m.node, m.module, c, m.qualname), rs.r).nodes)}) - {"run"}
      def calls(n, names): return n.kind in ("stmt", "test") and isinstance(n.ast, ast.AST) and not isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and x.func.attr in names for x in walk_expr(n.ast))
      starts = [g.entry] if "__init__" in {m for m, _ in ms} else []
      for n in g.nodes:
        if calls(n, makers - {"run"}) and not n.clean: starts += [s for s in [x for x, _ in n.succ] + [n.exc, n.can] if s is not None]
        elif "run" in {m for m, _ in ms} and isinstance(n.ast, ast.Assign) and any(ast.unparse(t) == v for t in n.ast.targets): starts += [s for s, _ in n.succ]
      ends = {m for m in enders if m not in makers or any(rs.releases(n, v, ms[0][1], Fn(c.methods[m].node, c.methods[m].module, c, m)) for n in Graph(Fn(c.methods[m].node, c.methods[m].module, c, m), rs.r).nodes) and m not in {x for x, _ in ms}} if True else enders
      way = rs.leak(g, starts, v, ms[0][1], fn, lambda n: n.clean and calls(n, ends)) if starts else None
      ctx.check(way is None, R2, f"{c.qualname}.{v[5:]}", f"{v}, started by {ms[0][0]}, goes on when the task leaves via lines {way}", fn.where, [f"{fn.module.relpath}:{l}" for l in way or []])


def outer_names(fn, v): return ()


def reach(rs, c, names):
  """methods of c that call one of names (themselves included)"""
  out = set(names)
  grew = True
  while grew:
    grew = False
    for k in [c] + [x for x in rs.p.mro(c)[1:] if isinstance(x, Class)]:
      for m in k.methods.values():
        if m.name in out: continue
        if any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in out for x in ast.walk(m.node)): out.add(m.name); grew = True
  return out


RULES = {"U02": u02, "U03": u03, "U04": u04}
