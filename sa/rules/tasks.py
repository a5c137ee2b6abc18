"""Tasks: what they do with the messages they get and the topics they use."""
from __future__ import annotations
import ast
from .runs import *
from .client import VALERR, CANCEL
from ..interp import State

TASKC, SYNCC = TSK + ".Task", TSK + ".SyncTask"
RAWD = "streamtasks.net.serialization.RawData"
CTRLD = "streamtasks.net.messages.TopicControlData"
INT, OUTT = "streamtasks.client.topic.InTopic", "streamtasks.client.topic.OutTopic"
MU = "streamtasks.message.utils"
CLIENTC = "streamtasks.client.Client"


def is_sync(ctx, k): return ctx.p.is_sub(k, ctx.p.cls(SYNCC)) is True


MADE_OF = {}


def made_of(ctx):
  """{attribute of a task: entries of the configuration it is made of}: a topic or a setting has its part in a task whatever its attribute is called"""
  if MADE_OF.get("") is ctx: return
  MADE_OF.clear(); MADE_OF[""] = ctx
  mods = {k.module.name: k.module for k in ctx.p.subclasses(ctx.p.cls(TASKC))}
  for k in [k for m in mods.values() for k in m.classes.values()]:
    f = k.methods.get("__init__")
    if f is None: continue
    for n in ast.walk(f.node):
      if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None: continue
      v = n.value
      if isinstance(v, ast.Call): v = next(iter(v.args), v)
      if isinstance(v, ast.Name) and v.id in [a.arg for a in f.node.args.args]: v = ast.Attribute(ast.Name("config"), v.id)
      if not (isinstance(v, ast.Attribute) and (isinstance(v.value, ast.Name) and v.value.id == "config" or isinstance(v.value, ast.Attribute) and v.value.attr == "config")): continue
      for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
        if isinstance(t, ast.Attribute) and t.attr != v.attr: MADE_OF.setdefault(t.attr, set()).add(v.attr)


def task_classes(ctx):
  """every class of tasks that can be run"""
  made_of(ctx)
  out = []
  for k in sorted(ctx.p.subclasses(ctx.p.cls(TASKC)), key=lambda k: k.qualname):
    if is_sync(ctx, k):
      f = ctx.p.method(k, "init", False)
      if f is None or f.is_abstract: continue
    else:
      f = ctx.p.method(k, "run", False)
      if f is None or f.is_abstract: continue
    if any(m is not None and m.is_abstract for m in (ctx.p.method(k, n, False) for n in ("run_other", "context", "run_sync", "_run_input"))): continue
    out.append(k)
  return out


class Got:
  """models of messages that tasks receive: control (paused or not) or data"""
  def __init__(self, ctx, modes=("control", "data"), bad=True, errors=()):
    self.ctx, self.modes, self.bad, self.kept = ctx, modes, bad, {}

  def mapping(self, t):
    """is what a field holds always a copy of a mapping?"""
    if stem(t) is not t: return True
    return t.op == "attr" and bool(self.kept.get(t)) and all(x is NONE or x.op == "copied" for x in self.kept[t])

  def learn(self, runs):
    for r in runs:
      for p in r.paths:
        for e in p.events:
          if e.kind == "setattr" and e.recv is not None: self.kept.setdefault(attr(e.recv, e.name), set()).add(e.args[0])

  def receive(self, both):
    def m(it, f, a, k, n, st, fr):
      t = f.a[0] if f.op in ("attr", "bound") else None
      if t is None: return None
      nth = sum(1 for x in st.events if x.kind == "call" and x.node is n)
      out = []
      for mode in self.modes:
        if mode == "control" and not both: continue
        r = mk("received", t, n.lineno, n.col_offset, nth, mode)
        it.types[r] = self.ctx.p.cls(CTRLD if mode == "control" else RAWD)
        s = st.event(it._mkev("call", st, fr, n, name="recv_data_control" if both else "recv_data", recv=t, args=tuple(a), fterm=f, res=r, awaited=True, kw=tuple(k)))
        for c in (CTRLD, RAWD):
          s2 = it.assume(mk("isinst", r, c), (c == CTRLD) == (mode == "control"), s)
          s = s2 if s2 is not None else s
        out.append(("v", mk("got", r), s))
      return out
    return m

  def validate(self, it, f, a, k, n, st, fr):
    if not a or not contains(a[0], lambda x: x.op == "received"): return None
    cls = f.a[0] if f.op in ("attr", "bound") else f
    r = mk("msg", show(cls).strip("'"), a[0])
    s = st.event(it._mkev("call", st, fr, n, name="model_validate", recv=cls, args=tuple(a), fterm=f, res=r, awaited=False, kw=tuple(k)))
    out = [("v", r, s.event(it._mkev("usable", s, fr, n, args=(a[0],))))]
    if self.bad: out.append(("x", exc_of(VALERR), s.event(it._mkev("unusable", s, fr, n, name=VALERR, args=(a[0],)))))
    return out

  def stamp(self, it, f, a, k, n, st, fr):
    if not a: return None
    r = mk("stamp", a[0])
    s = st.event(it._mkev("call", st, fr, n, name=MU + ".get_timestamp_from_message", recv=None, args=tuple(a), fterm=f, res=r, awaited=False, kw=tuple(k)))
    known = [e for e in st.events if e.kind in ("usable", "unusable") and e.args[0] is stem(a[0]) and e.name != VALERR]
    if known and known[-1].kind == "usable": return [("v", r, s)]
    out = [("v", r, s.event(it._mkev("usable", s, fr, n, name="stamp", args=(stem(a[0]),))))]
    if self.bad: out.append(("x", exc_of("builtins.ValueError"), s.event(it._mkev("unusable", s, fr, n, name="stamp", args=(stem(a[0]),)))))
    return out

  def restamp(self, it, f, a, k, n, st, fr):
    if len(a) + len(k) < 2: return None
    s = st.event(it._mkev("call", st, fr, n, name=MU + ".set_timestamp_on_message", recv=None, args=tuple(a), fterm=f, res=NONE, awaited=False, kw=tuple(k)))
    ok = stamped(st, a[0])
    out = [("v", NONE, s)]
    if self.bad and not ok: out.append(("x", exc_of("builtins.ValueError"), s.event(it._mkev("unusable", s, fr, n, name="stamp", args=(stem(a[0]),)))))
    return out

  def copied(self, it, f, a, k, n, st, fr):
    t = f.a[0] if f.op in ("attr", "bound") else None
    if t is None: return None
    nth = sum(1 for x in st.events if x.kind == "call" and x.node is n)
    r = mk("copied", t, n.lineno, n.col_offset, nth)
    it.types[r] = self.ctx.p.cls(RAWD)
    s = st.event(it._mkev("call", st, fr, n, name="shallow_copy", recv=t, args=(), fterm=f, res=r, awaited=False, kw=()))
    out = [("v", r, s)]
    if self.bad and not stamped(st, t) and not self.mapping(t): out.append(("x", exc_of("builtins.TypeError"), s.event(it._mkev("unusable", s, fr, n, name="mapping", args=(stem(t),)))))
    return out

  def raw(self, it, f, a, k, n, st, fr):
    x = a[0] if a else (k[0][1] if k else None)
    if x is None: return None
    st, nr = st.fresh()
    r = mk("rawdata", x, nr)
    it.types[r] = self.ctx.p.cls(RAWD)
    return [("v", r, st.event(it._mkev("call", st, fr, n, name=RAWD, recv=None, args=(x,), fterm=f, res=r, awaited=False, kw=())))]

  def models(self):
    more = {q: self.receive(n == "recv_data_control") for n in ("recv_data", "recv_data_control") for kl in [self.ctx.p.cls(INT), *self.ctx.p.subclasses(self.ctx.p.cls(INT))] for q in [kl.qualname + "." + n]}
    return {**more, "recv_data_control": self.receive(True), "recv_data": self.receive(False), "model_validate": self.validate, RAWD: self.raw, "shallow_copy": self.copied, RAWD + ".shallow_copy": self.copied,
            MU + ".get_timestamp_from_message": self.stamp, MU + ".set_timestamp_on_message": self.restamp}


def exc_of(name): return mk("exc", name, NONE)


def stem(t):
  while t.op == "copied": t = t.a[0]
  return t


def stamped(st, t):
  """is it known on a path that a message has a timestamp?"""
  return any(e.kind == "usable" and e.name == "stamp" and e.args[0] is stem(t) for e in st.events)


IN_TASKS = ("streamtasks.system", "streamtasks.utils", "streamtasks.message")


def task_code(func, fr):
  if func.module.name.startswith(IN_TASKS) and not func.module.name.startswith("streamtasks.message.utils"): return None
  if func.qualname.split(".")[-1] == "__init__" and func.cls is not None and func.qualname.startswith(("streamtasks.net.messages", "streamtasks.message")): return None
  return False


class Run:
  """the coroutines and the thread of a task, each with its paths"""
  def __init__(self, k, func, it, paths, ident): self.k, self.func, self.it, self.paths, self.ident, self.spawned = k, func, it, paths, ident, []
  @property
  def name(self): return f"{self.k.name}.{self.func.name}"


def coro_in(t): return [x for x in subterms(t) if x.op in ("coro", "genobj")]


def within(t, st):
  """coroutines that a value holds, also those kept by generators and collections"""
  seen, todo, out = set(), [t], []
  while todo:
    x = todo.pop()
    for y in subterms(x):
      if y in seen: continue
      seen.add(y)
      if y.op == "coro": out.append(y)
      if y.op in ("genobj", "coro") and isinstance(st.heap.get(y.a[0] if y.op == "genobj" else y.a[1]), tuple):
        h = st.heap[y.a[0] if y.op == "genobj" else y.a[1]]
        todo += [z for z in list(h[1][1].values() if isinstance(h[1][1], dict) else h[1][2] or ()) if isinstance(z, T)]
      if y.op == "obj":
        todo += [z for z in flat_terms(st.heap.get(y.a[0], st.heap.get(y)))]
  return out


def flat_terms(v):
  if isinstance(v, T): yield v
  elif isinstance(v, (tuple, list)):
    for x in v: yield from flat_terms(x)
  elif isinstance(v, dict):
    for x in v.values(): yield from flat_terms(x)


SKIP_ROOTS = ()


def made(p, key):
  """(index of the event a coroutine was made by, awaited there?)"""
  for i, e in enumerate(p.events):
    if e.kind == "call" and e.inlined and e.fterm is not None and p.st.heap[key][1][0] is e.target and (e.res is None or e.res.op == "coro" and e.res.a[1] == key): return i, bool(e.awaited)
  return None, False


def task_runs(ctx, k, got=None, roots=None, **cfg):
  """[Run] of a task: what it is started with and every coroutine that it spawns"""
  made_of(ctx)
  got = got or Got(ctx)
  models = {**got.models(), **cfg.pop("models", {})}
  stop = set(cfg.pop("stop", ()))
  todo = []
  if roots is None: roots = ["init", "run_sync"] if is_sync(ctx, k) else ["run"]
  for r in roots: todo.append((ctx.method(k, r), None, None, None))
  done, out, byid = set(), [], {}
  while todo:
    f, bind, st, ident = todo.pop(0)
    it = ctx.interp(models=models, inline_fn=task_code, stop=stop, **cfg)
    ps = ctx.run(it, f, selfcls=k, bind=bind, st=st)
    r = Run(k, f, it, ps, ident)
    out.append(r)
    if ident is not None: byid[ident] = r
    for p in ps:
      for key, h in list(p.st.heap.items()):
        if st is not None and key in st.heap: continue
        if not (isinstance(h, tuple) and h and h[0] == "coro"): continue
        target, sterm, args, kw, pf, cls = h[1]
        if not target.module.name.startswith(IN_TASKS[:1]) or target.name in SKIP_ROOTS: continue
        i, awaited = made(p, key)
        if awaited: continue
        b = bound_args(target, args, kw)
        ident2 = (target.qualname, tuple(sorted((n, show(v)) for n, v in b.items())))
        r.spawned.append((p, key, i, ident2))
        if ident2 in done: continue
        done.add(ident2)
        s = State(); s.heap = dict(p.st.heap); s.counter = p.st.counter
        todo.append((target, b, s, ident2))
  return out


def bound_args(func, args, kw):
  names = [a.arg for a in func.node.args.args]
  if func.cls is not None and not func.is_staticmethod and names: names = names[1:]
  b = dict(zip(names, args)); b.update({n: v for n, v in kw})
  return b


def received(t):
  """messages that a value holds"""
  return [x for x in subterms(t) if x.op == "received"]


def last_unusable(p):
  es = [(i, e) for i, e in enumerate(p.events) if e.kind == "unusable"]
  return es[-1] if es else (None, None)


def unread(t):
  """does a value stem from the content of a message that was not validated?"""
  return contains(rewrite(t, lambda x: const("valid") if x.op in ("msg", "stamp", "rawdata") or x.op == "call" and x.a[0].op not in ("attr", "bound") else x), lambda x: x.op == "attr" and x.a[1] == "data" and x.a[0].op in ("received", "copied"))


MAPS = ("builtins.dict", "collections.abc.Mapping", "typing.Mapping", "collections.abc.MutableMapping")
CONV = {"builtins.int": ("builtins.ValueError", "builtins.TypeError"), "builtins.float": ("builtins.ValueError", "builtins.TypeError"), "builtins.len": ("builtins.TypeError",), "builtins.dict": ("builtins.TypeError", "builtins.ValueError"), "builtins.round": ("builtins.TypeError",)}


def hazards(e, st):
  """what can go wrong with content that was not validated"""
  def mapping(t): return any(v and a.op == "isinst" and a.a[0] is t and str(a.a[1] if not isinstance(a.a[1], T) else show(a.a[1])).strip("'") in MAPS + tuple(m.split(".")[-1] for m in MAPS) for a, v in st.facts)
  if e.kind == "getitem" and e.recv is not None and unread(e.recv):
    has = any(v and a.op == "in" and a.a[0] is e.args[0] and a.a[1] is e.recv for a, v in st.facts)
    return ([] if has else ["builtins.KeyError"]) + ([] if mapping(e.recv) else ["builtins.TypeError"])
  if e.kind == "test" and e.name in ("in", "not in") and unread(e.recv): return [] if mapping(e.recv) else ["builtins.TypeError"]
  if e.kind == "test" and e.name in ("<", "<=", ">", ">=") and (unread(e.recv) or unread(e.args[0])): return [] if any(v and a.op == "isinst" and unread(a.a[0]) for a, v in st.facts) else ["builtins.TypeError"]
  if e.kind == "call" and e.name in CONV and e.fterm is not None and e.fterm.op == "ext" and any(unread(a) for a in e.args): return list(CONV[e.name])
  if e.kind == "call" and e.recv is not None and unread(e.recv) and e.fterm is not None and e.fterm.op in ("attr", "bound"): return [] if mapping(e.recv) else ["builtins.AttributeError"]
  return []


def t01(ctx):
  R1 = ctx.rule("T01", "a message a task cannot use (its content does not validate, it has no timestamp, it is no mapping) never ends the coroutine that receives messages: on every path after one the next message is waited for", 20)
  R2 = ctx.rule("T01-control", "a pause or resume that arrives is never read, forwarded or validated as if it was data, and data never as if it was a pause", 20)
  R3 = ctx.rule("T01-stamp", "reading the timestamp of a message gives an integer or fails with ValueError, setting it sets it or fails with ValueError", 2)
  stamp_functions(ctx, R3)
  for k in task_classes(ctx):
    got = Got(ctx)
    got.learn(task_runs(ctx, k, got))
    for r in task_runs(ctx, k, got, raises_fn=hazards, want_getitem=True, want_tests=True):
      tag = r.name
      for p in r.paths:
        hz = [(i, e) for i, e in enumerate(p.events) if p.kind != "loopback" and e.kind in ("getitem", "test", "call") and hazards(e, p.st)]
        if p.kind == "raise": ctx.check(not any(p.value.a[0] in hazards(e, p.st) for _, e in hz), R1, tag + "[content]", "the content of a message that does not fit ends the task", hz[-1][1].loc if hz else "", p)
        elif p.kind == "return": ctx.check(not hz or not any(x.kind == "handle" for x in p.events[hz[-1][0]:]), R1, tag + "[content]", "no more messages are received after one whose content does not fit", hz[-1][1].loc if hz else "", p)
        if p.kind == "raise":
          i, e = last_unusable(p)
          if e is not None:
            hs = [x for x in p.events[i:] if x.kind == "handle"]
            ctx.check(bool(hs) and p.value.a[0] != FAILS.get(e.name, VALERR), R1, tag + "[ends]", "a message that cannot be used ends the task", e.loc, p)
        elif p.kind == "return":
          i, e = last_unusable(p)
          if e is not None and received(e.args[0]): ctx.fail(R1, tag + "[stops]", "no more messages are received after one that cannot be used", e.loc, p)
        elif any(e.kind == "unusable" for e in p.events): ctx.ok(R1, tag)
        for e in p.events:
          if e.kind == "call" and e.name in ("recv_data", "recv_data_control") and e.res is not None and e.res.op == "received":
            bad = misuse(p, e.res)
            ctx.check(bad is None, R2, tag, bad or "", e.loc, p)


def stamp_functions(ctx, R):
  def ints(it, f, a, k, n, st, fr):
    x = a[0] if len(a) == 1 else None
    if x is None: return None
    r = mk("call", f, tuple(a), (), None)
    s = st.event(it._mkev("call", st, fr, n, name="builtins.int", recv=None, args=tuple(a), fterm=f, res=r, awaited=False, kw=()))
    out = [("v", r, s)]
    fin = any(v and y.op == "truthy" and call_name(y.a[0]) == "isfinite" and y.a[0].a[1][0] is x for y, v in st.facts if y.a and isinstance(y.a[0], T) and y.a[0].op == "call")
    inf = any(not v and y.op == "truthy" and call_name(y.a[0]) == "isinf" and y.a[0].a[1][0] is x for y, v in st.facts if y.a and isinstance(y.a[0], T) and y.a[0].op == "call")
    if not fin: out.append(("x", exc_of("builtins.ValueError"), s))
    if not fin and not inf: out.append(("x", exc_of("builtins.OverflowError"), s))
    return out
  DATA = mk("message")
  it = ctx.interp(models={"builtins.int": ints, "int": ints})
  it.types[DATA] = ctx.p.cls(RAWD)
  for p in ctx.run(it, ctx.p.func(MU + ".get_timestamp_from_message"), bind={"data": DATA}):
    if p.kind == "raise": ctx.check(p.value.a[0] == "builtins.ValueError", R, "get_timestamp_from_message[fails]", f"a message without a usable timestamp makes it fail with {p.value.a[0]}", p.events[-1].loc if p.events else "", p)
    else:
      v = p.value
      isint = v.op == "call" and ext_name(v) in ("builtins.int", "int") or any(t and a is mk("isinst", v, "builtins.int") for a, t in p.facts)
      src = v.a[1][0] if v.op == "call" and v.a[1] else v
      of = (get_of(src) or (None, None))[1] is const("timestamp") or src.op == "attr" and src.a[1] == "timestamp"
      ctx.check(isint and of, R, "get_timestamp_from_message[answer]", "the timestamp of a message is not the integer it holds", p.events[-1].loc if p.events else "", p)
  it = ctx.interp()
  it.types[DATA] = ctx.p.cls(RAWD)
  TIME = mk("time")
  for p in ctx.run(it, ctx.p.func(MU + ".set_timestamp_on_message"), bind={"data": DATA, "timestamp": TIME}):
    sets = [e for e in p.events if e.kind == "setitem" and e.args and e.args[0] is const("timestamp")]
    if p.kind == "raise": ctx.check(p.value.a[0] == "builtins.ValueError" and not sets, R, "set_timestamp_on_message[fails]", f"it fails with {p.value.a[0]}", p.events[-1].loc if p.events else "", p)
    else:
      raws = [e for e in p.events if e.kind == "setattr" and e.name == "_raw" and e.recv is DATA]
      ctx.check(len(sets) == 1 and sets[0].args[-1] is TIME and bool(raws) and raws[-1].args[0] is NONE, R, "set_timestamp_on_message[sets]", "the timestamp is not set, or what was serialized before is kept", p.events[-1].loc if p.events else "", p)


FAILS = {"stamp": "builtins.ValueError", "mapping": "builtins.TypeError"}


def misuse(p, r):
  ctrl = r.a[-1] == "control"
  wrong = "data" if ctrl else "paused"
  def bad(t): return contains(t, lambda x: x.op == "attr" and x.a[0] is r and x.a[1] in (("data", "_data", "serialize", "deserialize", "shallow_copy", "copy", "update", "_raw") if ctrl else ("paused",)) or ctrl and x.op in ("msg", "stamp", "copied") and x.a[-1 if x.op == "msg" else 0] is r)
  for e in p.events:
    ts = list(e.args or ()) + [v for _, v in e.kw or ()] + ([e.recv] if e.recv is not None else [])
    if any(bad(t) for t in ts if isinstance(t, T)): return "a pause is used as data" if ctrl else "data is used as a pause"
    if ctrl and e.kind == "call" and (e.name or "").split(".")[-1] in ("send", "send_data", "put", "put_nowait", "append") and any(x is r or x.op == "rawdata" and x.a[0] is r for x in e.args or ()): return "a pause is passed on as data"
  for a, v in p.facts:
    if bad(a): return "a pause is used as data" if ctrl else "data is used as a pause"
  return None


OPS_IN, OPS_OUT = ("recv_data", "recv_data_control"), ("send", "set_paused")


def registers(t):
  """the topic of a registration context"""
  return t.a[0].a[0] if t.op == "call" and call_name(t) == "RegisterContext" and t.a[0].op in ("attr", "bound") else None


def every(t): return rewrite(t, lambda x: mk("each", x.a[0]) if x.op in ("each", "elem") and len(x.a) > 1 else x)


class Open:
  """topics opened and registered, in the order they were"""
  def __init__(self, opened=(), registered=(), started=False, none=()): self.opened, self.registered, self.started, self.none = set(opened), set(registered), started, set(none)
  def copy(self): return Open(self.opened, self.registered, self.started, self.none)
  def enter(self, t):
    t = every(t)
    r = registers(t)
    if r is not None: self.registered.add(r)
    else: self.opened.add(t)
  def leave(self, t):
    t = every(t)
    r = registers(t)
    if r is not None: self.registered.discard(r)
    else: self.opened.discard(t)
  def step(self, e):
    if e.kind == "enter" and e.recv is not None: self.enter(e.recv)
    elif e.kind == "exit" and e.recv is not None: self.leave(e.recv)
    elif e.kind == "call":
      n = (e.name or "").split(".")[-1]
      if n == "enter_async_context" and e.args: self.enter(e.args[0])
      elif n == "start" and e.recv is not None and is_client(e.recv): self.started = True
      elif n == "start" and e.recv is not None and e.awaited: self.opened.add(e.recv)
      elif n == "stop" and e.recv is not None: self.opened.discard(e.recv)
      elif n == "set_registered" and e.recv is not None and e.args and e.awaited: (self.registered.add if e.args[0] is TRUE else self.registered.discard)(e.recv)
  def key(self): return (frozenset(self.opened), frozenset(self.registered), self.started, frozenset(self.none))
  def holds(self, t, what):
    """is a topic open (registered), or one of a collection that has none?"""
    t = every(t)
    return t in getattr(self, what) or any(x.op in ("each", "elem") and x.a[0] in self.none for x in subterms(t))


def is_client(t): return t.op == "attr" and t.a[1] in ("client", "_client") or t.op == "param" and t.a[0] == "client"


def at(p, i, base):
  o = base.copy()
  for e in p.events[:i]: o.step(e)
  for a, v in p.facts:
    if a.op == "truthy" and not v: o.none.add(a.a[0])
  return o


def spawn_at(p, key, made_at):
  """index of the event that hands a coroutine over to be run, and if it is waited for there"""
  for j in range((made_at or 0), len(p.events)):
    e = p.events[j]
    if e.kind == "call" and j != made_at and any(isinstance(a, T) and any(c.op == "coro" and c.a[1] == key for c in within(a, p.st)) for a in e.args or ()): return j
    if e.kind == "enter" and e.recv is not None and any(c.op == "coro" and c.a[1] == key for c in within(e.recv, p.st)): return j
  return len(p.events) if made_at is None else made_at


def started_later(p): return any(e.kind == "call" and (e.name or "").split(".")[-1] == "start" and e.recv is not None and is_client(e.recv) for e in p.events)


def set_up(ctx, k):
  """is the client of a task started whenever its setup has ended?"""
  f = ctx.p.method(k, "setup", False)
  if f is None or not any(isinstance(m, Class) and m.methods.get("setup") for m in ctx.p.mro(k)): return False
  it = ctx.interp(inline_fn=task_code)
  return all(started_later(p) for p in ctx.run(it, f, selfcls=k) if p.kind == "return")


def contexts(ctx, runs):
  """{id of a run: what is open when it runs, for every place it is started from}"""
  base = {id(r): {} for r in runs}
  def add(r, o):
    if o.key() in base[id(r)]: return False
    base[id(r)][o.key()] = o
    return True
  for r in runs:
    if r.ident is None and r.func.name != "run_sync": add(r, Open(started=set_up(ctx, r.k)))
  init = next((r for r in runs if r.func.name == "init"), None)
  for r in runs:
    if r.func.name == "run_sync" and r.ident is None and init is not None:
      for p in init.paths:
        for i in [i for i, e in enumerate(p.events) if e.kind == "yield"] or ([len(p.events)] if p.kind == "return" else []): add(r, at(p, i, Open(started=set_up(ctx, r.k))))
  byid = {r.ident: r for r in runs if r.ident is not None}
  started = any(started_later(p) for r in runs for p in r.paths)
  change = True
  while change:
    change = False
    for r in runs:
      for p, key, i, ident in r.spawned:
        c = byid.get(ident)
        if c is None or c is r: continue
        j = spawn_at(p, key, i)
        for b in list(base[id(r)].values()):
          o = at(p, j, b)
          o.started = o.started or started
          if len(base[id(c)]) < 200 and add(c, o): change = True
  return base


def topic_ops(ctx, r, p):
  """(index, event, topic, is it an input) of every use of a topic on a path"""
  for i, e in enumerate(p.events):
    if e.kind != "call": continue
    n = (e.name or "").split(".")[-1]
    if n in OPS_IN and e.recv is not None: yield i, e, e.recv, True
    elif n in OPS_OUT and e.recv is not None and is_topic(ctx, r, e): yield i, e, e.recv, False


def is_topic(ctx, r, e):
  if (e.name or "").startswith(OUTT): return True
  t = r.it.types.get(e.recv)
  return isinstance(t, Class) and ctx.p.is_sub(t, ctx.p.cls("streamtasks.client.topic._TopicBase")) is True or "topic" in show(e.recv)


def t02(ctx):
  R1 = ctx.rule("T02", "wherever a task receives from, sends to, pauses or resumes a topic, the topic is open, registered, and the client of the task is started", 60)
  for k in task_classes(ctx):
    got = Got(ctx, modes=("control", "data"), bad=False)
    runs = task_runs(ctx, k, got)
    base = contexts(ctx, runs)
    for r in runs:
      for p in r.paths:
        for i, e, t, inp in topic_ops(ctx, r, p):
          what = show(t)[:60]
          for b in base[id(r)].values():
            o = at(p, i, b)
            ctx.check(o.holds(t, "opened"), R1, f"{r.name}[{what} open]", f"{what} is used ({e.name}) where it is not open", e.loc, p)
            ctx.check(o.holds(t, "registered"), R1, f"{r.name}[{what} registered]", f"{what} is used ({e.name}) where it is not registered", e.loc, p)
            ctx.check(o.started, R1, f"{r.name}[client]", "a topic is used by a client that is not started", e.loc, p)


def is_stop(e, *names): return e.kind == "call" and (e.name or "").split(".")[-1] in names and e.recv is not None and e.recv.op == "attr" and e.recv.a[1] == "stop_event"


def t03(ctx):
  R1 = ctx.rule("T03", "however a task with a worker thread ends (also when it is cancelled), its thread is told to stop and waited for while the topics of the task are still open", 3)
  R2 = ctx.rule("T03-loop", "a worker thread looks at the request to stop in every round, and never waits for a message without a limit", 15)
  R3 = ctx.rule("T03-send", "what a worker thread sends is sent on the loop of the task, and the data is the message", 10)
  for k in [ctx.p.cls(SYNCC), *[k for k in task_classes(ctx) if is_sync(ctx, k) and "run" in k.methods]]:
    it = ctx.interp(cancel=True)
    starts = 0
    for p in ctx.run(it, ctx.method(k, "run"), selfcls=k):
      ev = p.events
      st = [i for i, e in enumerate(ev) if e.kind == "call" and (e.name or "").split(".")[-1] in ("run_in_executor", "to_thread") and any(contains(a, lambda x: x.op in ("attr", "bound") and "run_sync" in show(x)) for a in e.args or ())]
      if not st: continue
      starts += 1
      i = st[0]; fut = ev[i].res
      if p.known_false(fut) if hasattr(p, "known_false") else any(a is mk("truthy", fut) and not v for a, v in p.facts): continue
      ins = [j for j, e in enumerate(ev) if e.kind == "enter" and j < i and contains(e.recv, lambda x: x.op == "call" and call_name(x) == "init" or x.op == "genobj" and "init" in str(x.a[-1]))]
      outs = [j for j, e in enumerate(ev) if e.kind == "exit" and j > i and contains(e.recv, lambda x: x.op == "call" and call_name(x) == "init" or x.op == "genobj" and "init" in str(x.a[-1]))]
      sets = [j for j, e in enumerate(ev) if j > i and is_stop(e, "set")]
      waits = [j for j, e in enumerate(ev) if j > i and (e.kind == "await" and e.recv is fut or e.kind == "call" and e.awaited and (e.name or "").split(".")[-1] in ("wait", "gather") and any(contains(a, lambda x: x is fut) for a in e.args or ()))]
      end = outs[-1] if outs else len(ev)
      ctx.check(bool(ins), R1, k.name + ".run[open]", "the thread is started before the topics are opened", ev[i].loc, p)
      ctx.check(bool(sets) and sets[0] < end, R1, k.name + ".run[told]", "the thread is not told to stop before the topics are closed", ev[i].loc, p)
      ctx.check(any(sets and sets[0] < j < end for j in waits), R1, k.name + ".run[waited]", "the topics are closed before the thread has ended", ev[i].loc, p)
      early = [j for j in waits if not sets or j < sets[0]]
      ctx.check(not early, R1, k.name + ".run[shield]", "a cancellation of the task is passed to the thread's result instead of telling the thread to stop", ev[i].loc, p)
    ctx.check(starts > 0, R1, k.name + ".run[thread]", "the worker thread is never started", "")
  sd = ctx.method(SYNCC, "send_data")
  TOP, DAT = mk("topic"), mk("message")
  it = ctx.interp()
  for p in ctx.run(it, sd, bind={a.arg: v for a, v in zip(sd.node.args.args[1:], (TOP, DAT))}):
    es = [e for e in p.events if e.kind == "call" and (e.name or "").endswith("run_coroutine_threadsafe")]
    ok = len(es) == 1 and attr_is(es[0].arg(1, "loop"), "loop") and any(e.kind == "call" and (e.name or "").split(".")[-1] == "send" and e.recv is TOP and e.args and e.args[0] is DAT for e in p.events) and not any(e.kind == "call" and e.name.split(".")[-1] == "send" and e.awaited for e in p.events if e.name)
    ctx.check(ok, R3, "SyncTask.send_data", "the message is not sent to the topic, once, on the loop of the task", sd.func.loc if hasattr(sd, "func") else f"{sd.file}:{sd.line}", p)
  for k in task_classes(ctx):
    if not is_sync(ctx, k): continue
    r = task_runs(ctx, k, Got(ctx, bad=False), roots=["run_sync"], stop={"send_data"})[0]
    for f in {r.func, *[e.target for p in r.paths for e in p.events if e.kind == "call" and e.inlined and e.target is not None]}:
      for n in ast.walk(f.node):
        if isinstance(n, ast.While) and all(isinstance(x, (ast.Pass, ast.Continue)) for x in n.body):
          ctx.check(any(isinstance(x, ast.Attribute) and x.attr in ("is_set", "wait") for x in ast.walk(n.test)), R2, f"{k.name}.run_sync[spin]", "the thread waits without looking at the request to stop", f"{f.file}:{n.lineno}")
    for p in r.paths:
      gets = [e for e in p.events if e.kind == "call" and (e.name or "").split(".")[-1] == "get" and e.recv is not None and "queue" in show(e.recv)]
      for e in gets:
        lim = e.arg(1, "timeout")
        ctx.check(lim is not None and lim is not NONE or e.arg(0, "block") is FALSE, R2, f"{k.name}.run_sync[wait]", "the thread waits for a message without a limit, and does not see that it has to stop", e.loc, p)
      sends = [e for e in p.events if e.kind == "call" and (e.name or "").split(".")[-1] == "send_data"]
      work = gets + sends
      if p.kind == "loopback" or work: ctx.check(any(is_stop(e, "is_set", "wait") for e in p.events), R2, f"{k.name}.run_sync[stop]", "the thread works on without looking at the request to stop", work[0].loc if work else f"{r.func.file}:{r.func.line}", p)
      stops = [a for a, v in p.facts if v and a.op == "truthy" and contains(a, lambda x: x.op == "call" and call_name(x) in ("is_set", "wait") and attr_is(x.a[0].a[0] if x.a[0].a else None, "stop_event"))]
      for e in p.events:
        if e.kind == "call" and e.inlined and e.target is not None and e.target.is_async: ctx.fail(R3, f"{k.name}.run_sync[coroutine]", "a coroutine is made in the thread and never runs", e.loc, p)
        if e.kind == "call" and (e.name or "").split(".")[-1] in ("send", "set_paused") and is_topic(ctx, r, e): ctx.fail(R3, f"{k.name}.run_sync[send]", "a topic is used in the thread", e.loc, p)
      for e in sends:
        ctx.check(e.arg(0, "topic") is not None and "topic" in show(e.arg(0, "topic")) and contains(e.arg(1, "data") or NONE, lambda x: x.op == "rawdata"), R3, f"{k.name}.run_sync[message]", "what is sent is not a message for a topic", e.loc, p)


def attr_is(t, name): return t is not None and t.op == "attr" and (t.a[1] == name or name in MADE_OF.get(t.a[1], ()))


RULES = {"T01": t01, "T02": t02, "T03": t03}
