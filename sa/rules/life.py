"""Life cycle of components: however one stops its links close and its parts stop; the order in which a system stops."""
from __future__ import annotations
import ast
from .flow import Resources, walk_own, text
from ..cfg import *
from ..program import Class
from .sysr import *

WORKER = "streamtasks.worker.Worker"
PATHS = "streamtasks.system.task_web.TaskWebPathHandler"
CM = "streamtasks.system.connection_manager"
ATM = "streamtasks.utils.AsyncTaskManager"
BUILDER = "streamtasks.system.builder.SystemBuilder"
PROMPT = {"create_client", "create_link", "set_address", "start", "add_local_connection"}   # never suspend: nothing can be cancelled or seen before they are done


class Exits:
  """is something done on every way out of a function?"""
  def __init__(self, ctx):
    self.ctx, self.p = ctx, ctx.p
    self.rs = Resources(ctx)
    self.memo = {}
    self._fails = {}

  def graph(self, fn): 
    k = (id(fn.node), fn.cls.qualname if fn.cls else "")
    if k not in self.memo: self.memo[k] = Graph(fn, self.rs.r)
    return self.memo[k]

  def fn(self, m, c=None):
    f = self.rs.by_node.get(id(m.node))
    return None if f is None else Fn(f.node, f.module, c or f.cls, f.qual, f.decos)

  def own(self, x, fn):
    """the method a call self.name(...) or super().name(...) runs"""
    if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and fn.cls is not None): return None
    v = x.func.value
    if isinstance(v, ast.Name) and v.id == "self": m = self.p.method(fn.cls, x.func.attr, False)
    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
      k = self.rs.by_node.get(id(fn.node))
      ks = [z for z in self.p.mro(k.cls if k and k.cls else fn.cls)[1:] if isinstance(z, Class) and x.func.attr in z.methods]
      m = ks[0].methods[x.func.attr] if ks else None
    else: return None
    return self.fn(m, fn.cls) if m is not None else None

  def calls(self, n):
    if n.kind not in ("stmt", "test", "exit") or n.ast is None or isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Try)): return []
    if n.kind == "exit": return []
    return [x for x in walk_expr(n.ast) if isinstance(x, ast.Call)]

  def done(self, n, fn, pred, depth=4):
    """does passing node n mean that it is done?"""
    if pred(n, fn): return True
    if depth <= 0: return False
    for x in self.calls(n):
      t = self.own(x, fn)
      if t is None and isinstance(x.func, ast.Name): t = self.rs.target(x.func, fn)
      if t is None or t.node is fn.node: continue
      if t.is_async and not any(isinstance(y, ast.Await) and y.value is x for y in walk_expr(n.ast)) and n.types != "with": continue
      g = self.graph(t)
      if n.types == "with":
        ys = [y for y in g.nodes if y.kind == "stmt" and any(isinstance(z, ast.Yield) for z in walk_expr(y.ast))]
        if ys and all(self.escape(g, [s for s in [z for z, _ in y.succ] + [y.exc, y.can] if s is not None], t, pred, depth - 1) is None for y in ys): return True
        continue
      if self.escape(g, [g.entry], t, pred, depth - 1, ends=("end",)) is None: return True
    return False

  def fails(self, n, fn):
    """may a clean-up step raise (other than by being cancelled)?"""
    if n.exc is None: return False
    if isinstance(n.ast, ast.Raise): return True
    for x in self.calls(n):
      nm = (dotted(x.func) or "").split(".")[-1]
      if nm in ("shutdown", "stop_receiving"): continue   # checked by itself
      t = self.own(x, fn)
      if t is not None and t.is_async and not any(isinstance(y, ast.Await) and y.value is x for y in walk_expr(n.ast)): continue
      if t is not None:
        if self.method_fails(t): return True
      elif nm in ("wait", "sleep", "cancel", "create_task", "ensure_future", "done", "len", "list", "chain", "set", "append", "stop", "stop_receiving", "shutdown", "clear") or nm == "gather" and any(k.arg == "return_exceptions" for k in x.keywords): pass
      elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, (ast.Call,)) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == "super": pass
      elif self.rs.r.expr(x, fn.module, fn.cls): return True
    return False

  def method_fails(self, t):
    k = (id(t.node), t.cls.qualname if t.cls else "")
    if k in self._fails: return self._fails[k]
    self._fails[k] = False
    g = self.graph(t)
    seen, work, r = set(), [g.entry], False
    while work:
      n = work.pop()
      if id(n) in seen: continue
      seen.add(id(n))
      if n.kind == "fail": r = True; break
      work += [s for s, _ in n.succ]
      if self.fails(n, t) and n.exc is not None: work.append(n.exc)
    self._fails[k] = r
    return r

  def escape(self, g, starts, fn, pred, depth=4, ends=("end", "fail", "cancelled"), v=None):
    seen, work = set(), [(s, ()) for s in starts]
    while work:
      n, tr = work.pop()
      if id(n) in seen: continue
      seen.add(id(n))
      if n.kind in ("end", "fail", "cancelled"):
        if n.kind in ends: return [x for x in tr] + [n.kind]
        continue
      tr = tr if tr and tr[-1] == n.line or len(tr) > 20 else tr + (n.line,)
      if self.done(n, fn, pred, depth): continue
      succ = n.succ
      if v is not None and n.kind == "test" and (k := self.rs.branch(n.ast, v)) is not None: succ = [(t, l) for t, l in succ if l in (k, "")]
      if n.kind == "test" and isinstance(n.ast, ast.Constant): succ = [(t, l) for t, l in succ if l == ("T" if n.ast.value else "F")]
      for t, _ in succ: work.append((t, tr))
      aw = [x.value for x in walk_expr(n.ast) if isinstance(x, ast.Await)] if n.kind in ("stmt", "test") and isinstance(n.ast, ast.AST) and not isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Try, ast.AsyncFor)) else []
      prompt = n.types != "with" and bool(aw) and all(isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in PROMPT for x in aw)
      if n.clean:
        if n.exc is not None and self.fails(n, fn): work.append((n.exc, tr))
      elif not prompt and not (n.kind == "stmt" and not aw and n.types != "with" and self.starts_only(n)):
        for t in (n.exc, n.can):
          if t is not None: work.append((t, tr))
    return None

  def starts_only(self, n):
    """plain calls that only set a client up"""
    cs = self.calls(n)
    return bool(cs) and not isinstance(n.ast, ast.Raise) and all((dotted(x.func) or "").split(".")[-1] in PROMPT | {"BroadcastingServer", "Client", "FetchServer", "SignalServer"} for x in cs)


def outermost(ctx):
  """(class, method) of every run that is not merely called by another run of the same class"""
  base = ctx.p.cls(WORKER)
  return [(c, c.methods["run"]) for c in ctx.p.subclasses(base) if c is not base and "run" in c.methods]


def is_self_call(x, *names): return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and x.func.attr in names


def s03(ctx):
  R1 = ctx.rule("closes", "however the run of a component ends - it returns, fails or is cancelled, wherever it waits - its own switch is stopped, which closes every link to it", 8)
  R2 = ctx.rule("flags", "what a component sets to show that it is running or ready is cleared however its run ends", 2)
  R3 = ctx.rule("path", "a path a component registered is unregistered under the same id, wherever it was registered, before its switch is stopped, and only once it is", 4)
  R4 = ctx.rule("parts", "however the connection manager ends, every connection and every server it runs is stopped, and a failed one does not keep the others from being stopped", 2)
  R5 = ctx.rule("part-stops", "stopping a connection or server cancels its run and waits for its end, whatever that is; it can be started again; starting a started one does nothing", 4)
  R6 = ctx.rule("switch", "stopping a switch closes every link, whether its receiver ran or not", 2)
  x = Exits(ctx)
  base = ctx.p.cls(WORKER)
  # -- the switch
  def stops(n, fn): return n.kind in ("stmt", "test") and isinstance(n.ast, ast.AST) and any(isinstance(y, ast.Call) and ast.unparse(y.func) == "self.switch.stop_receiving" for y in x.calls(n))
  sd = x.fn(ctx.method(base, "shutdown"), base)
  way = x.escape(x.graph(sd), [x.graph(sd).entry], sd, stops)
  ctx.check(way is None, R1, sd.qual, f"the switch is not stopped on the way {way}", sd.where)
  for c in ctx.p.subclasses(base):
    if c is base: continue
    ctx.scanned(c.qualname)
    if "shutdown" in c.methods:
      f = x.fn(c.methods["shutdown"], c)
      def sup(n, fn): return stops(n, fn) or any(isinstance(y, ast.Await) and isinstance(y.value, ast.Call) and ast.unparse(y.value.func) == "super().shutdown" for y in (walk_expr(n.ast) if n.kind in ("stmt", "test") and isinstance(n.ast, ast.AST) else ()))
      way = x.escape(x.graph(f), [x.graph(f).entry], f, sup)
      ctx.check(way is None, R1, f.qual, f"the switch is not stopped on the way {way}", f.where)
  def shut(n, fn):
    if stops(n, fn): return True
    if n.kind not in ("stmt", "test") or not isinstance(n.ast, ast.AST) or isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): return False
    for y in walk_expr(n.ast):
      if isinstance(y, ast.Await) and isinstance(y.value, ast.Call):
        t = ast.unparse(y.value.func)
        if t in ("self.shutdown", "super().shutdown"): return True
        if t == "super().run": return True   # the run of the base, which is checked itself
        if t.endswith(("wait_for", "shield")) and y.value.args and isinstance(y.value.args[0], ast.Call) and ast.unparse(y.value.args[0].func) == "self.shutdown": return True
      if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("push_async_callback", "enter_async_context", "callback") and any(ast.unparse(a).startswith("self.shutdown") for a in y.args): return True
    return False
  for c, m in outermost(ctx):
    f = x.fn(m, c)
    g = x.graph(f)
    way = x.escape(g, [g.entry], f, shut)
    ctx.check(way is None, R1, f.qual, f"the component ends without stopping its switch via lines {way}", f.where, [f"{f.module.relpath}:{l}" for l in way or []])
    # -- flags
    evs = {t.attr for k in ctx.p.mro(c) if isinstance(k, Class) and "__init__" in k.methods for n in ast.walk(k.methods["__init__"].node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and isinstance(n.value, ast.Call) and (dotted(n.value.func) or "") in ("asyncio.Event", "Event") for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Attribute)}
    for n in g.nodes:
      for y in x.calls(n):
        if isinstance(y.func, ast.Attribute) and y.func.attr == "set" and isinstance(y.func.value, ast.Attribute) and ast.unparse(y.func.value.value) == "self" and y.func.value.attr in evs:
          ev = y.func.value.attr
          def cleared(z, fn): return any(isinstance(w.func, ast.Attribute) and w.func.attr == "clear" and ast.unparse(w.func.value) == f"self.{ev}" for w in x.calls(z))
          way = x.escape(g, [s for s, _ in n.succ], f, cleared)
          ctx.check(way is None, R2, f"{f.qual}:{ev}", f"the component still shows '{ev}' after it ended via lines {way}", f.where, [f"{f.module.relpath}:{l}" for l in way or []])
  switch_stop(ctx, R6)
  path_rules(ctx, x, R3, shut)
  parts(ctx, x, R4, R5)


def switch_stop(ctx, R):
  """stopping a switch closes every link, also one whose receiver never ran"""
  SW = "streamtasks.net.Switch"
  f = ctx.method(SW, "stop_receiving")
  it = ctx.interp(stop={"streamtasks.net.Link.close"})
  def over(t):
    """the collection of links behind a list, view or elements of it"""
    while True:
      if t.op == "copy": t = t.a[1]
      elif t.op == "call" and call_name(t) in ("keys", "values", "items") and call_recv(t) is not None: t = call_recv(t)
      elif t.op == "call" and ext_name(t) in ("builtins.list", "builtins.tuple", "builtins.set") and t.a[1]: t = t.a[1][0]
      else: return t
  def links(t): return t.op == "attr" and contains(t, mk("self", SW)) and not t.a[1].endswith("topics")
  seen = False
  for p in ctx.run(it, f):
    ev = p.events
    facts = [(it.norm(a, p.st), v) for a, v in p.facts]
    none = any(a.op == "truthy" and not v and links(over(a.a[0])) for a, v in facts)
    closes = [i for i, e in enumerate(ev) if e.kind == "call" and call_of(e, "close") and e.recv is not None and e.recv.op == "elem" and links(over(e.recv.a[0]))]
    shut = any(a.op == "truthy" and v and a.a[0].op == "attr" and "closed" in a.a[0].a[1] for a, v in facts)
    ctx.check(bool(closes) or none or shut, R, f"{f.qualname}[closed]", "a link whose receiver never ran stays open", f.file if hasattr(f, "file") else "", p)
    for i in closes:
      seen = True
      loop = max((j for j in range(i) if ev[j].kind == "loop"), default=None)
      if loop is None: continue
      gone = [j for j in range(loop) if ev[j].kind == "call" and call_of(ev[j], "clear") and ev[j].recv is not None and links(ev[j].recv)]
      if not gone: ctx.ok(R, f"{f.qualname}[all]"); continue
      src = ev[loop].recv
      taken = max((j for j in range(loop) if ev[j].kind == "call" and ev[j].recv is not None and links(ev[j].recv) and any(call_of(ev[j], n) for n in ("keys", "values", "items"))), default=None)
      good = src.op == "copy" and (taken is None or taken < gone[0]) and any(call_of(ev[j], n) for j in ([taken] if taken is not None else []) for n in ("keys", "values", "items"))
      ctx.check(good, R, f"{f.qualname}[all]", "the links are forgotten before they are stopped", ev[i].loc, p)
  ctx.check(seen, R, f"{f.qualname}[any]", "no link is stopped")


def sends(ctx, x, fn, const_name, depth=3):
  """does fn send the message named by that constant (transitively through own methods)?"""
  for n in walk_own(fn.node):
    if isinstance(n, ast.Attribute) and n.attr == const_name: return True
    if depth and isinstance(n, ast.Call):
      t = x.own(n, fn)
      if t is not None and t.node is not fn.node and sends(ctx, x, t, const_name, depth - 1): return True
  return False


def path_rules(ctx, x, R, shut):
  c = ctx.p.cls(PATHS)
  f = x.fn(ctx.method(c, "run"), c)
  g = x.graph(f)
  REG, UN = "FD_TMW_REGISTER_PATH", "SD_TMW_UNREGISTER_PATH"
  def sending(e, name, fn): # expression e directly or through a method sends it
    return any(isinstance(y, ast.Attribute) and y.attr == name for y in walk_expr(e)) or any(isinstance(y, ast.Call) and (t := x.own(y, fn)) is not None and t.node is not fn.node and sends(ctx, x, t, name) for y in walk_expr(e))
  # what is iterated where it is unregistered
  def loops(fn, depth=3):
    out = []
    for n in walk_own(fn.node):
      if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and sending(n.elt, UN, fn) and not any(gg.ifs for gg in n.generators): out.append((fn, n, n.generators[0].iter, n.generators[0].target))
      if isinstance(n, (ast.For, ast.AsyncFor)) and any(sending(s, UN, fn) for s in n.body): out.append((fn, n.iter, n.iter, n.target))
      if isinstance(n, ast.Call) and (dotted(n.func) or "") == "map" and len(n.args) == 2 and isinstance(n.args[0], ast.Attribute) and (m := ctx.p.method(c, n.args[0].attr, False)) is not None and sends(ctx, x, x.fn(m, c), UN): out.append((fn, n, n.args[1], None))
    if not out and depth:
      for n in walk_own(fn.node):
        t = x.own(n, fn) if isinstance(n, ast.Call) else None
        if t is not None and t.node is not fn.node and sends(ctx, x, t, UN):
          for (a, b, i, tg) in loops(t, depth - 1):
            if isinstance(i, ast.Name):   # a parameter: what is passed for it
              ps = [q.arg for q in t.node.args.args][1:]
              if i.id in ps and ps.index(i.id) < len(n.args): i = n.args[ps.index(i.id)]; out.append((fn, n, i, None)); continue
            out.append((fn, n, i, tg))
    return out
  ls = loops(f)
  if not ctx.check(bool(ls), R, f.qual + "[unregisters]", "a registered path is never unregistered", f.where): return
  def base_of(i):
    while isinstance(i, ast.Call) and i.args and (dotted(i.func) or "") in ("list", "set", "tuple", "reversed", "sorted"): i = i.args[0]
    return ast.unparse(i)
  V = {base_of(i) for _, _, i, _ in ls}
  ids = {id(n) for _, n, _, _ in ls}
  def unregisters(n, fn): return n.kind in ("stmt", "test") and isinstance(n.ast, ast.AST) and not isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and any(id(y) in ids for y in walk_expr(n.ast))
  regs = [n for n in g.nodes if n.kind == "stmt" and not n.clean and not isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and sending(n.ast, REG, f)]
  if not ctx.check(bool(regs), R, f.qual + "[registers]", "the path is not registered", f.where): return
  v = next(iter(V))
  def grows(n, fn):
    return any(isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "add") and ast.unparse(y.func.value) in V for y in x.calls(n)) or n.kind == "stmt" and isinstance(n.ast, ast.AugAssign) and ast.unparse(n.ast.target) in V or n.kind == "stmt" and isinstance(n.ast, ast.Assign) and any(ast.unparse(t) in V for t in n.ast.targets) and any(isinstance(y, ast.Name) and y.id in V or isinstance(y, ast.Attribute) and ast.unparse(y) in V for y in ast.walk(n.ast.value))
  everywhere = any("register_endpoi" in z for z in V)   # every endpoint it may have registered at
  for n in regs:
    ss = [s for s, _ in n.succ]
    if not everywhere and not before(g, n, lambda z: grows(z, f)):
      way = first_step(x, g, ss, f, grows)
      ctx.check(way is None, R, f.qual + "[remembered]", f"where the path is registered is not remembered before the run can end: lines {way}", f.where)
    way = x.escape(g, ss, f, unregisters, v=v)
    ctx.check(way is None, R, f.qual + "[unregistered]", f"a registered path is not unregistered when the component ends via lines {way}", f.where, [f"{f.module.relpath}:{l}" for l in way or []])
  # before the links are closed
  seen, work = set(), [n for n in g.nodes if shut(n, f)]
  late = False
  while work:
    n = work.pop()
    if id(n) in seen: continue
    seen.add(id(n))
    late = late or unregisters(n, f)
    work += [s for s, _ in n.succ]
  ctx.check(not late, R, f.qual + "[order]", "the path is unregistered only after the links are closed", f.where)
  # waited for, same id
  for fn, n, i, tg in ls:
    if not isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) or fn is not f: continue
    aw = [z for z in g.nodes if unregisters(z, f)]
    ok = all(any(isinstance(y, ast.Await) for y in walk_expr(z.ast)) or isinstance(z.ast, ast.Assign) and any(isinstance(w, ast.Await) and any(isinstance(q, ast.Name) and q.id == ast.unparse(z.ast.targets[0]) for q in ast.walk(w)) for w in walk_own(f.node)) for z in aw)
    ctx.check(ok, R, f.qual + "[sent]", "nothing waits for the path to be unregistered", f.where)
  # ids
  me = mk("self", PATHS)
  fe = {}
  it = ctx.interp(stop={CL + ".fetch", SEND_SIGNAL, CL + ".start", CL + ".request_address", "create_client", "run_inner", CD + ".wait_for_address_name", WORKER + ".shutdown"})
  for p in ctx.run(it, ctx.method(c, "run"), selfcls=c):
    for e in p.events:
      if e.kind == "call" and call_of(e, "fetch"):
        d = dumped(e.args[2]) if e.args and len(e.args) > 2 else None
        fe.setdefault("reg", set()).add(d[1].get("id") if d else None)
        if d: 
          ctx.check(d[1].get("path") is attr(me, "path") and contains(d[1].get("endpoint", NONE), lambda t: t.op == "attr" and t.a[1] == "address") and d[1].get("frontend") is attr(me, "frontend"), R, f.qual + "[what]", "something else than the component's own path, address and frontend is registered", f.where, p)
  un = next((m for m in c.methods.values() if m.name != "run" and sends(ctx, x, x.fn(m, c), UN, 0)), None)
  if un is not None and sends(ctx, x, x.fn(un, c), UN):
    ep = un.node.args.args[1].arg if len(un.node.args.args) > 1 else None
    for p in ctx.run(ctx.interp(stop={SEND_SIGNAL}), un, selfcls=c):
      es = [e for e in p.events if e.kind == "call" and e.name == SEND_SIGNAL]
      for e in es:
        d = dumped(e.args[3]) if e.args and len(e.args) > 3 else None
        ctx.check(d is not None and {d[1].get("id")} == fe.get("reg"), R, un.qualname + "[id]", "another id is unregistered than the one that was registered", at(un), p)
        ctx.check(ep is None or len(e.args) < 2 or e.args[1] is mk("param", ep, un.qualname), R, un.qualname + "[where]", "the path is unregistered elsewhere than asked", at(un), p)
      if p.kind == "return": ctx.check(len(es) == 1, R, un.qualname + "[sent]", "unregistering sends nothing", at(un), p)


def before(g, n, pred):
  """every way from the start to n passes pred"""
  seen, work = set(), [g.entry]
  while work:
    z = work.pop()
    if id(z) in seen: continue
    seen.add(id(z))
    if z is n: return False
    if pred(z): continue
    work += [s for s, _ in z.succ] + [s for s in (z.exc, z.can) if s is not None]
  return True


def first_step(x, g, starts, fn, pred):
  """a way from starts to where something can fail, be cancelled or end, that does not pass pred"""
  seen, work = set(), list(starts)
  while work:
    n = work.pop()
    if id(n) in seen: continue
    seen.add(id(n))
    if pred(n, fn): continue
    if n.kind in ("end", "fail", "cancelled") or n.can is not None or n.exc is not None and not (n.kind == "stmt" and not has_await(n.ast)): return [n.line]
    work += [s for s, _ in n.succ]
  return None


def parts(ctx, x, R4, R5):
  c = ctx.p.cls(CM + ".ConnectionManager")
  f = x.fn(ctx.method(c, "run_inner"), c)
  g = x.graph(f)
  lists = {t.attr for n in ast.walk(ctx.method(c, "__init__").node) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and "UrlData" in ast.unparse(n.annotation) for t in [n.target]}
  if len(lists) < 2: lists |= {"_connection_url_data", "_server_url_data"}
  for v in sorted(lists):
    name = f"self.{v}"
    def stopped(n, fn):
      ids, waits = stop_loops(fn, name)
      return n.kind == "stmt" and isinstance(n.ast, (ast.Expr, ast.Assign, ast.Return)) and any(id(y) in ids for y in walk_expr(n.ast)) and waits
    way = x.escape(g, [g.entry], f, stopped)
    ctx.check(way is None, R4, f"{f.qual}:{v}", f"what is in '{v}' goes on when the connection manager ends via lines {way}", f.where, [f"{f.module.relpath}:{l}" for l in way or []])
  # one part
  b = ctx.p.cls(CM + ".UrlData")
  for k in [b] + [z for z in ctx.p.subclasses(b) if z is not b]:
    if k is not b and not any(n in k.methods for n in ("stop", "start", "run")): continue
    st = x.fn(ctx.method(k, "stop"), k)
    ctx.check(not method_may_fail(x, st), R4, st.qual, "stopping a connection or server that failed fails: the ones after it are never stopped", st.where)
  me = mk("self", b.qualname)
  f = ctx.method(b, "stop")
  TASK = None
  for p in ctx.run(ctx.interp(stop={CM + ".UrlData.run"}), ctx.method(b, "start"), selfcls=b):
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and e.args and e.args[0] is not NONE: TASK = attr(me, e.name)
  if not ctx.check(TASK is not None, R5, b.qualname + ".start", "the run of a connection or server is not kept", b.file): return
  for p in ctx.run(ctx.interp(stop={CM + ".UrlData.run"}), ctx.method(b, "start"), selfcls=b):
    mk_ = [e for e in p.events if e.kind == "call" and (e.name or "").split(".")[-1] in ("create_task", "ensure_future")]
    has = none_fact(p.facts, TASK)
    ctx.check(has is not None and (len(mk_) == 1) == has, R5, b.qualname + ".start[once]", "starting twice runs twice, or starting does not run it", b.file, p)
  for kind in ("ok", "builtins.OSError", "asyncio.CancelledError"):
    it = ctx.interp(raises_fn=lambda e, st: [kind] if kind != "ok" and e.kind == "await" else [])
    for p in ctx.run(it, f, selfcls=b):
      has = none_fact(p.facts, TASK)
      tag = f"{f.qualname}[{kind.split('.')[-1]}]"
      if has: ctx.ok(R5, tag); continue
      can = [i for i, e in enumerate(p.events) if e.kind == "call" and call_of(e, "cancel") and e.recv is TASK]
      ctx.check(bool(can), R5, tag + "[cancel]", "the run is not cancelled", at(f), p)
      aws = [i for i, e in enumerate(p.events) if e.kind == "await" and any(isinstance(a, T) and contains(a, TASK) for a in (e.recv,) + tuple(e.args or ())) or e.kind == "call" and e.awaited and (e.name or "").split(".")[-1] in ("wait", "gather") and any(contains(a, TASK) for a in e.args)]
      ctx.check(bool(aws) and bool(can) and can[0] < aws[0], R5, tag + "[wait]", "nothing waits for the run to end", at(f), p)
      fin = [e.args[0] for e in p.events if e.kind == "setattr" and e.recv is me and e.name == TASK.a[1]]
      ctx.check(bool(fin) and fin[-1] is NONE, R5, tag + "[again]", "it cannot be started again after it stopped", at(f), p)
  r = ctx.method(b, "run")
  for p in ctx.run(ctx.interp(stop={"change_handler"}), r, selfcls=b):
    es = [e for e in p.events if e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] == "run" and contains(e.fterm, lambda t: t.op == "attr" and t.a[1] == "worker")]
    ctx.check(len(es) == 1, R5, r.qualname, "the connection or server itself is not run (once)", at(r), p)
    early = [e for e in p.events if e.kind == "call" and e.name == "asyncio.gather" and len(e.args or ()) > 1 and any(contains(a, lambda t: t.op == "attr" and t.a[1] == "worker") for a in e.args) and dict(e.kw or ()).get("return_exceptions") is not TRUE]
    ctx.check(not early, R5, r.qualname + "[whole]", "cancelling the run ends it before the connection or server has ended (gather ends with the first part that is cancelled)", at(r), p)


def method_may_fail(x, t):
  g = x.graph(t)
  seen, work = set(), [g.entry]
  while work:
    n = work.pop()
    if id(n) in seen: continue
    seen.add(id(n))
    if n.kind == "fail": return True
    work += [s for s, _ in n.succ] + ([n.exc] if n.exc is not None and not n.hand or n.exc is not None and isinstance(n.ast, ast.Raise) else [])
  return False


def stop_loops(fn, name):
  """where every element of the collection is stopped: (ids of those expressions, is it waited for)"""
  names = {name}
  for _ in range(3):
    for z in walk_own(fn.node):
      if isinstance(z, ast.Assign) and isinstance(z.targets[0], ast.Name) and holds(z.value, names): names.add(z.targets[0].id)
  ids = set()
  def stop_of(e, tg): return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "stop" and ast.unparse(e.func.value) == ast.unparse(tg)
  def plain(body, tg):
    """an unconditional stop of the element"""
    for s in body:
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Await) and stop_of(s.value.value, tg): return True
      if isinstance(s, ast.Try) and plain(s.body, tg): return True
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and any(stop_of(z, tg) for z in ast.walk(s.value)): return True
      if isinstance(s, (ast.With, ast.AsyncWith)) and plain(s.body, tg): return True
      if any(isinstance(z, (ast.Break, ast.Return, ast.Continue)) for z in ast.walk(s)): return False
    return False
  for z in walk_own(fn.node):
    if isinstance(z, (ast.For, ast.AsyncFor)) and holds(z.iter, names) and plain(z.body, z.target) and not any(isinstance(q, (ast.Break, ast.Return)) for s in z.body for q in ast.walk(s)): ids.add(id(z.iter))
    if isinstance(z, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and len(z.generators) == 1 and holds(z.generators[0].iter, names) and not z.generators[0].ifs and any(stop_of(q, z.generators[0].target) for q in ast.walk(z.elt)): ids.add(id(z))
  return ids, any(isinstance(y, ast.Await) for y in walk_own(fn.node))


def holds(e, names):
  """does e hold (at least) all elements of one of the named collections?"""
  if isinstance(e, (ast.Name, ast.Attribute)): return ast.unparse(e) in names
  if isinstance(e, ast.Starred): return holds(e.value, names)
  if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add): return holds(e.left, names) or holds(e.right, names)
  if isinstance(e, (ast.List, ast.Tuple, ast.Set)): return any(isinstance(z, ast.Starred) and holds(z, names) for z in e.elts)
  if isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in ("list", "tuple", "set", "chain", "reversed", "copy"): return any(holds(z, names) for z in e.args) or isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and holds(e.func.value, names)
  if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs and ast.unparse(e.elt) == ast.unparse(e.generators[0].target): return holds(e.generators[0].iter, names)
  return False


def none_fact(facts, t):
  """is t None on this path?"""
  for a, v in facts:
    if a.op == "is" and a.a[0] is t and a.a[1] is NONE: return v
    if a.op == "truthy" and a.a[0] is t: return not v
  return None


RULES = {"S03": s03}


# ------------------------------------------------------------------ the order in which a system stops
GROUPS = [  # what stops first comes first
  ("task hosts", {"streamtasks.system.task.TaskHost"}),
  ("local components", {CM + ".ConnectionManager", "streamtasks.asgi.HTTPServerOverASGI"}),
  ("shared services", {"streamtasks.services.discovery.DiscoveryWorker", "streamtasks.system.task.TaskManager", "streamtasks.system.task_web.TaskWebBackend", "streamtasks.system.named_topic_manager.NamedTopicManager", "streamtasks.system.secret_manager.SecretManager"}),
  ("connections to other nodes", {"streamtasks.connection.AutoReconnector", "streamtasks.connection.ServerBase"}),
]


def group_of(ctx, w):
  """which group a started worker belongs to"""
  if w.op == "call" and call_name(w) == "get_all_task_hosts" or contains(w, lambda t: t.op == "call" and call_name(t) == "get_all_task_hosts"): return 0
  if w.op == "call" and call_name(w) == "create_server" or w.op == "new" and False: return 3
  q = w.a[0] if w.op in ("new", "inst") else None
  if isinstance(q, str):
    try: c = ctx.p.cls(q)
    except Exception: return None
    for i, (_, qs) in enumerate(GROUPS):
      if any(isinstance(k, Class) and k.qualname in qs for k in ctx.p.mro(c)): return i
  return None


def s04(ctx):
  R1 = ctx.rule("tracked", "a started component is attached to the system's switch before it runs, and its run is kept, with its priority, until it ended", 6)
  R2 = ctx.rule("order", "task hosts have the lowest priority, then what only this node needs, then what everyone needs, then the connections to other nodes", 4)
  R3 = ctx.rule("groups", "stopping cancels exactly the running components of the lowest priority, waits for them, and goes on with the next priority only when none of them is left; those that did not end are cancelled again", 4)
  R4 = ctx.rule("together", "when one component ends all others are stopped, and a component that has already ended counts", 3)
  c = ctx.p.cls(BUILDER)
  me = mk("self", BUILDER)
  prio = {}
  stop = {"create_server", "_wait_discovery", "get_all_task_hosts", "run", "add_link", ATM + ".create", "create_link", "streamtasks.env.get_data_sub_dir", "streamtasks.pydanticdb.PydanticDB.__init__", "streamtasks.net.Switch.__init__"}
  for name in sorted(c.methods):
    m = c.methods[name]
    if not m.is_async or name.startswith("_") or not makes_workers(ctx, c, m): continue
    starts_others = [n for n in ast.walk(m.node) if is_self_call(n, *[k for k in c.methods if k.startswith("start_") and k != name])]
    if len(starts_others) > 1: continue
    it = ctx.interp(stop=stop)
    for p in ctx.run(it, m, selfcls=c):
      if p.kind != "return": continue
      runs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] == "run" or e.kind == "call" and call_of(e, "run") and e.recv is not None]
      made = [e for e in p.events if e.kind == "call" and e.name == ATM + ".create" and e.args]
      for i, e in runs:
        w = e.fterm.a[0] if e.fterm is not None and e.fterm.op == "attr" else e.recv
        g = group_of(ctx, w)
        if g is None: continue
        lk = [j for j, x in enumerate(p.events[:i]) if x.kind == "call" and call_of(x, "add_link") and x.awaited and x.args and contains(x.args[0], lambda t: t.op == "call" and call_name(t) == "create_link" and call_recv(t) is w) and x.recv is attr(me, "switch")]
        ctx.check(bool(lk), R1, f"{m.qualname}[linked]", "a component runs without being attached to the system's switch", at(m), p)
        kept = [x for x in made if contains(x.args[0], lambda t: t.op == "call" and call_name(t) == "run" and call_recv(t) is w) and x.recv is not None and contains(x.recv, lambda t: t is me)]
        if not ctx.check(len(kept) == 1, R1, f"{m.qualname}[kept]", "the run of a component is not kept (once)", at(m), p): continue
        pt = dict(kept[0].kw or ()).get("priority") or (kept[0].args[1] if len(kept[0].args) > 1 else const(0))
        pr = pt.a[0] if is_const(pt) and isinstance(pt.a[0], (int, float)) else None
        if not ctx.check(pr is not None, R1, f"{m.qualname}[priority]", "a component is kept without a definite priority", at(m), p): continue
        prio.setdefault(g, {}).setdefault(pr, m.qualname)
  for g, (nm, _) in enumerate(GROUPS): ctx.check(g in prio, R2, nm, f"nothing starts the {nm}", c.file)
  for g in prio:
    for h in prio:
      if g < h:
        a, b = max(prio[g]), min(prio[h])
        ctx.check(a < b, R2, f"{GROUPS[g][0]}<{GROUPS[h][0]}", f"{GROUPS[g][0]} (priority {a} in {prio[g][a]}) are not stopped before {GROUPS[h][0]} (priority {b} in {prio[h][b]})", c.file)
  cancel_order(ctx, R3)
  together(ctx, c, me, R4)


def makes_workers(ctx, c, m):
  names = {k for k in c.methods}
  for n in ast.walk(m.node):
    if is_self_call(n, *[k for k in c.methods if k.startswith("_start")]): return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "run": return True
  return False


def cancel_order(ctx, R):
  c = ctx.p.cls(ATM)
  me = mk("self", ATM)
  f = ctx.method(c, "cancel_all")
  TASKS = None
  k = ctx.method(c, "create")
  pr = mk("param", k.node.args.args[2].arg, k.qualname)
  ctask = lambda t: t.op == "call" and call_name(t) in ("create_task", "ensure_future")
  for p in ctx.run(ctx.interp(), k, selfcls=c):
    ts = [(e.recv, e.args[0]) for e in p.events if e.kind == "call" and (call_of(e, "append") or call_of(e, "add")) and e.args] + [(attr(me, e.name), e.args[0]) for e in p.events if e.kind == "setattr" and e.recv is me and e.args and contains(e.args[0], ctask)]
    for r, v in ts:
      if contains(v, ctask) and contains(v, lambda t: t is pr): TASKS = r
    ctx.check(bool(ts) and contains(p.value, ctask), R, k.qualname, "a created task is not kept or not handed out", at(k), p)
  if not ctx.check(TASKS is not None, R, c.qualname + ".create[priority]", "created tasks are not kept with their priority", c.file): return
  def pair(t, i): return t.op == "sub" and t.a[1] is const(i) or t.op == "item" and t.a[1] is const(i)
  def min_of(t):
    """the lowest priority of all tasks"""
    if pair(t, 0) and t.a[0].op == "call" and call_name(t.a[0]) == "min": return contains(t.a[0], lambda y: y is TASKS)
    if t.op == "call" and call_name(t) == "min":
      arg = t.a[1][0] if t.a[1] else None
      if arg is None: return False
      if arg.op == "comp": return any(contains(x, lambda y: y is TASKS) for ok, _, x in arg.a[2] if ok and isinstance(x, T)) and all(not fs or not any(isinstance(a, T) and a.op not in ("truthy",) for a, _ in fs) for ok, fs, x in arg.a[2] if ok)
      return contains(arg, lambda y: y is TASKS)
    return False
  n = 0
  for p in ctx.run(ctx.interp(), f, selfcls=c):
    some = fact(p.facts, mk("truthy", TASKS))
    can = [i for i, e in enumerate(p.events) if e.kind == "call" and call_of(e, "cancel")]
    if p.kind == "raise": continue
    low = [(a, v) for a, v in p.facts if a.op in ("eq", "le", "lt") and any(isinstance(x, T) and min_of(x) for x in a.a)]
    waits = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.name or "").split(".")[-1] in ("wait", "gather")]
    if can:
      n += 1
      e = p.events[can[0]]
      ctx.check(e.recv is not None and contains(e.recv, lambda t: t is TASKS), R, f.qualname + "[which]", "something else than a kept task is cancelled", at(f), p)
      lows = [v if a.op == "eq" or a.op == "le" and min_of(a.a[1]) else not v if a.op == "lt" and min_of(a.a[0]) else None for a, v in low]
      ctx.check(bool(lows) and all(x is True for x in lows), R, f.qualname + "[lowest]", "a task is cancelled although its priority is not the lowest of those left", at(f), p)
      ctx.check(any(i > can[0] and not any(isinstance(v, T) and contains(v, lambda y: y.op == "const" and y.a[0] in ("FIRST_COMPLETED", "FIRST_EXCEPTION") or y.op in ("global", "attr", "ext", "enum") and str(y.a[-1]).split(".")[-1] in ("FIRST_COMPLETED", "FIRST_EXCEPTION")) for _, v in e.kw or ()) for i, e in waits), R, f.qualname + "[waits]", "the next priority is cancelled without waiting for this one", at(f), p)
    elif some and low:
      v = [v if a.op == "eq" else None for a, v in low]
      ctx.check(True not in v, R, f.qualname + "[all]", "a task of the lowest priority is not cancelled", at(f), p)
    # who is kept for the next round: exactly those that have not ended
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and attr(me, e.name) is TASKS:
        t = e.args[0]
        if t.op == "comp":
          for ok, fs, x in t.a[2]:
            d = [v for a, v in fs if a.op == "truthy" and isinstance(a.a[0], T) and contains(a.a[0], lambda y: y.op == "call" and call_name(y) == "done")]
            if ok: ctx.check(d == [False], R, f.qualname + "[left]", "a component that has not ended is forgotten, or one that has ended is kept for ever", at(f), p)
            elif some is not False and d: ctx.check(d == [True], R, f.qualname + "[left]", "a component that has not ended is forgotten", at(f), p)
        elif t.op == "obj":
          put = any(x.kind == "call" and (call_of(x, "append") or call_of(x, "add")) and x.recv is t for x in p.events)
          d = [v for a, v in p.facts if a.op == "truthy" and isinstance(a.a[0], T) and contains(a.a[0], lambda y: y.op == "call" and call_name(y) == "done")]
          if d: ctx.check(put == (not d[-1]), R, f.qualname + "[left]", "a component that has not ended is forgotten, or one that has ended is kept for ever", at(f), p)
          elif some: ctx.check(put is False and not d, R, f.qualname + "[left]", "components that have ended are kept for ever", at(f), p)
        else: ctx.check(some is False, R, f.qualname + "[left]", "components that have not ended are forgotten", at(f), p)
  ctx.check(n > 0, R, f.qualname + "[cancels]", "stopping cancels nothing", at(f))
  # the loop goes on while any is left
  g = ctx.p.func_fn(f) if hasattr(ctx.p, "func_fn") else None
  loops = [x for x in ast.walk(f.node) if isinstance(x, ast.While)]
  ctx.check(any(not any(isinstance(y, (ast.Break, ast.Return)) for y in ast.walk(ast.Module(x.body, []))) or any(isinstance(y, ast.If) and any(isinstance(z, (ast.Break, ast.Return)) for z in y.body) and len_test(y.test) for y in ast.walk(ast.Module(x.body, []))) for x in loops) or bool([x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.AsyncFor))]) and not loops and sorted_groups(f), R, f.qualname + "[until]", "stopping ends while components are left", at(f))


def len_test(e): return isinstance(e, (ast.UnaryOp, ast.Compare, ast.Name, ast.Attribute))


def sorted_groups(f): return any(isinstance(x, ast.Call) and (dotted(x.func) or "") == "sorted" for x in ast.walk(f.node))


def together(ctx, c, me, R):
  f = ctx.method(c, "wait_done")
  w, ca = ATM + ".wait", ATM + ".cancel_all"
  for p in ctx.run(ctx.interp(stop={w, ca}), f, selfcls=c):
    ws = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == w or e.kind == "call" and e.name == "asyncio.wait"]
    cs = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == ca and e.awaited]
    if p.kind != "return": continue
    ctx.check(bool(ws) and any(x is const("FIRST_COMPLETED") or x.op == "ext" and "FIRST_COMPLETED" in str(x.a[0]) for x in list(ws[0][1].args or ()) + [v for _, v in ws[0][1].kw or ()]), R, f.qualname + "[first]", "the system does not wait for the first component to end", at(f), p)
    ctx.check(bool(cs) and bool(ws) and cs[-1] > ws[0][0], R, f.qualname + "[stops]", "the others go on when a component has ended", at(f), p)
  f = ctx.method(c, "stop")
  for p in ctx.run(ctx.interp(stop={ca}), f, selfcls=c):
    if p.kind == "return": ctx.check(any(e.kind == "call" and e.name == ca and e.awaited for e in p.events), R, f.qualname, "stopping the system stops nothing", at(f), p)
  k = ctx.p.cls(ATM)
  for p in ctx.run(ctx.interp(stop={"streamtasks.net.Switch.__init__"}), ctx.method(c, "__init__"), selfcls=c):
    mks = [e for e in p.events if e.kind == "setattr" and e.name == "_frozen"]
    ends = k.methods.get("_on_task_done")
    keeps = ends is None or not any(isinstance(n, ast.If) for n in ast.walk(ends.node)) and False
    ctx.check(ends is None or bool(mks) and mks[-1].args[0] is TRUE, R, c.qualname + ".__init__", "a component that ends before it is waited for is forgotten: the others go on", at(ctx.method(c, "__init__")), p)


RULES = {"S03": s03, "S04": s04}
