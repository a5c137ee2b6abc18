"""The task system: task hosts, the task manager, workers and their shutdown."""
from __future__ import annotations
import ast
from .svc import *

TSK = "streamtasks.system.task"
HOST, MAN = TSK + ".TaskHost", TSK + ".TaskManager"
STATUS = TSK + ".TaskStatus"
KINDS = ["builtins.ValueError", "builtins.OSError", VALERR, FETCH + ".FetchError", "asyncio.exceptions.TimeoutError"]


def enum_of(t, cls=STATUS): return t.a[1] if isinstance(t, T) and t.op == "enum" and t.a[0] == cls else None


def excs(v): return {x.a[0] for x in subterms(v) if x.op == "exc"} if isinstance(v, T) else set()


def cancelled(k): return k in (CANCEL, "asyncio.CancelledError", "asyncio.exceptions.CancelledError")


def any_of(e, *nms): return any(call_of(e, n) for n in nms)


def tc(ctx): return consts_of(ctx, TSK + ".TaskConstants")


def is_key(t, M, key): return t is key or t.op == "attr" and t.a[1] == "id" and looked_up(t.a[0], M, key)


def vals_of(t, M):
  """does t hold the values of mapping M (all of them)?"""
  if contains(t, lambda x: x.op in ("slice", "sub") or x.op == "item" and x.a[0] is not M and contains(x.a[0], M)): return False
  if contains(t, lambda x: x.op == "item" and x.a[0] is M and x.a[1].op == "elem"): return True
  return contains(t, lambda x: x.op == "call" and call_name(x) == "values" and call_recv(x) is M) or contains(t, lambda x: x.op == "comp" and any(ok and contains(e, lambda y: y.op == "item" and y.a[0] is M) for ok, _, e in x.a[2])) and contains(t, lambda x: x is M)


def s01(ctx):
  R1 = ctx.rule("reported", "however a task ends, its host sends exactly one report of that task to the address it was started with, naming how it ended and its error", 8)
  R2 = ctx.rule("forgotten", "a task that ended is forgotten by its host, also when its report cannot be sent", 4)
  R3 = ctx.rule("started", "a start request makes the task it asks for, sets it up, runs it once under the requested id and report address and answers its metadata; an error answer means that no task runs", 8)
  R4 = ctx.rule("cancelled", "a cancel request cancels exactly the named task; a task that does not run is answered with an error", 3)
  R5 = ctx.rule("stopped", "however a host stops, it cancels all its tasks and waits for them, unregisters wherever it is registered, and shuts down its links; the reason it stopped is kept", 10)
  R6 = ctx.rule("registered", "a host registers with its own id and address, is remembered as registered only once it is, and unregisters with the same id", 4)
  c = ctx.p.cls(HOST)
  me = mk("self", HOST)
  K = tc(ctx)
  client = attr(me, "client")
  f = ctx.method(c, "run_task")
  pid, ptask, paddr = [mk("param", a.arg, f.qualname) for a in f.node.args.args[1:4]]
  TASKS = tasks_field(ctx, c, "asyncio.create_task")
  if not ctx.check(TASKS is not None, R3, HOST, "running tasks are not kept", c.file): return
  runs = lambda e: e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[0] is ptask and e.fterm.a[1] == "run" or e.kind == "call" and (e.name or "").endswith(".Task.run")
  for kind in ("ok", "builtins.ValueError", "builtins.Exception", "builtins.BaseException", "asyncio.CancelledError"):
    it = ctx.interp(stop={SEND_SIGNAL}, raises_fn=lambda e, st: [kind] if kind != "ok" and runs(e) else [])
    n = 0
    for p in ctx.run(it, f, selfcls=c):
      if not any(runs(e) for e in p.events): ctx.fail(R1, f.qualname + "[run]", "the task is not run", at(f), p); continue
      if kind != "ok" and not any(e.kind == "handle" for e in p.events) and p.kind == "return" and False: continue
      hit = kind != "ok" and (any(e.kind == "handle" for e in p.events) or p.kind == "raise")
      if kind != "ok" and not hit: continue      # the path on which the run did not fail
      n += 1
      rep = [e for e in p.events if e.kind == "call" and e.name == SEND_SIGNAL]
      tag = f"{f.qualname}[{kind.split('.')[-1]}]"
      if not ctx.check(len(rep) == 1 and rep[0].awaited, R1, tag, f"{len(rep)} reports are sent", at(f), p): continue
      e = rep[0]
      d = dumped(it.norm(e.arg(3, "body"), p.st))
      ok = e.args[0] is client and strip(e.args[1]) is paddr and is_const(e.args[2], K.get("SD_TM_TASK_REPORT")) and d is not None
      if not ctx.check(ok, R1, tag + "[to]", "the report goes somewhere else", e.loc, p): continue
      ctx.check(d[1].get("id") is pid, R1, tag + "[id]", "the report names another task", e.loc, p)
      want = "ended" if kind == "ok" else "stopped" if cancelled(kind) else "failed"
      ctx.check(enum_of(d[1].get("status", NONE)) == want, R1, tag + "[status]", f"a task that {want} is reported as {show(d[1].get('status', NONE))}", e.loc, p)
      er = d[1].get("error", NONE)
      ctx.check((er is NONE) == (want != "failed") if want != "stopped" else True, R1, tag + "[error]", "the error of a failed task is lost" if want == "failed" else "an ended task is reported with an error", e.loc, p)
      if want == "failed": ctx.check(contains(er, lambda x: x.op in ("exc", "excval")), R1, tag + "[text]", "the reported error is not that of the task", e.loc, p)
    ctx.check(n > 0, R1, f"{f.qualname}[{kind.split('.')[-1]}]", "the way a task ended is not told apart", at(f))
  for kind, end in [(k, e) for k in ("ok", "builtins.OSError", "asyncio.CancelledError") for e in ("ok", "builtins.ValueError", "asyncio.CancelledError")]:
    it = ctx.interp(stop={SEND_SIGNAL}, raises_fn=lambda e, st: [kind] if kind != "ok" and e.kind == "call" and e.name == SEND_SIGNAL else [end] if end != "ok" and runs(e) else [])
    for p in ctx.run(it, f, selfcls=c):
      if not any(runs(e) for e in p.events): continue
      ops = map_ops(it, p, TASKS)
      if not ops and any(a.op == "in" and a.a[0] is pid and a.a[1] is TASKS and not v for a, v in p.facts): continue
      ctx.check(bool(ops) and ops[-1][1] == "del" and ops[-1][2] is pid and all(o[1] == "del" and o[2] is pid for o in ops), R2, f"{f.qualname}[{kind.split('.')[-1]}]", "the task is not forgotten" if not ops else "another task is forgotten", at(f), p)
  host_start(ctx, c, me, K, TASKS, R3, R4)
  host_run(ctx, c, me, K, TASKS, R5)
  # registration
  f = ctx.method(c, "register")
  ep = mk("param", f.node.args.args[1].arg, f.qualname)
  for kind in ("ok", FETCH + ".FetchError", "asyncio.CancelledError"):
    it = ctx.interp(stop={CL + ".fetch"}, raises_fn=lambda e, st: [kind] if kind != "ok" and e.kind == "call" and e.name == CL + ".fetch" else [])
    for p in ctx.run(it, f, selfcls=c):
      fe = [e for e in p.events if e.kind == "call" and e.name == CL + ".fetch"]
      rec = [e for e in p.events if e.kind == "call" and call_of(e, "append") and e.args and strip(e.args[0]) is ep or e.kind == "setattr" and e.recv is me and contains(e.args[0], ep)]
      if p.kind == "raise":
        ctx.check(not rec, R6, f.qualname + "[failed]", "a registration that failed is remembered", at(f), p); continue
      if not ctx.check(len(fe) == 1 and strip(fe[0].args[0]) is ep and is_const(fe[0].args[1], K.get("FD_REGISTER_TASK_HOST")), R6, f.qualname, "the host is not registered at the endpoint", at(f), p): continue
      d = dumped(it.norm(fe[0].args[2], p.st))
      ctx.check(d is not None and d[1].get("id") is attr(me, "id") and d[1].get("address") in (attr(client, "address"), attr(client, "_address")), R6, f.qualname + "[own]", "the host registers with another id or address", at(f), p)
      ctx.check(len(rec) == 1, R6, f.qualname + "[kept]", "the registration is not remembered", at(f), p)
  f = ctx.method(c, "unregister")
  ep = mk("param", f.node.args.args[1].arg, f.qualname)
  it = ctx.interp(stop={SEND_SIGNAL})
  for p in ctx.run(it, f, selfcls=c):
    sg = [e for e in p.events if e.kind == "call" and e.name == SEND_SIGNAL]
    d = dumped(it.norm(sg[0].arg(3, "body"), p.st)) if len(sg) == 1 else None
    ctx.check(d is not None and strip(sg[0].args[1]) is ep and is_const(sg[0].args[2], K.get("SD_UNREGISTER_TASK_HOST")) and d[1].get("id") is attr(me, "id"), R6, f.qualname, "the host is not unregistered at the endpoint", at(f), p)
    for e in p.events:
      if e.kind == "setattr" and e.recv is me:
        t = it.norm(e.args[0], p.st)
        if t.op == "comp":
          for ok, (fs), el in [(ok, g, el) for ok, g, el in t.a[2]]:
            keep = [v for a, v in (fs or ()) if a.op == "eq" and ep in a.a]
            ctx.check(not keep or keep[0] is not ok, R6, f.qualname + "[others]", "other registrations are dropped, or this one kept", at(f), p)


def tasks_field(ctx, c, maker):
  """the mapping a host keeps its running tasks in: what handlers store a created task in"""
  for m in c.methods.values():
    for n in ast.walk(m.node):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and isinstance(n.func.value, ast.Attribute) and m.name == "run_task": return attr(mk("self", c.qualname), n.func.value.attr)
      if isinstance(n, ast.Delete) and m.name == "run_task":
        for t in n.targets:
          if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute): return attr(mk("self", c.qualname), t.value.attr)
  for m in c.methods.values():
    for n in ast.walk(m.node):
      if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Attribute) and isinstance(n.value, ast.Call) and "create_task" in ast.unparse(n.value.func): return attr(mk("self", c.qualname), n.targets[0].value.attr)
  return None


def host_start(ctx, c, me, K, TASKS, R3, R4):
  mks = lambda e: e.kind == "call" and (e.name == HOST + ".create_task" or e.fterm is attr(me, "create_task"))
  RT = HOST + ".run_task"
  fname = "run_api"
  def go(kind, where, cancel=False):
    def fail(e, st):
      if kind == "ok" or e.kind != "call": return []
      hit = {"create": mks(e), "setup": e.awaited and (e.name or "").split(".")[-1] in ("wait_for", "setup", "timeout"), "model": e.name == TSK + ".TaskStartResponse" and any(k == "metadata" and v.op != "lit" for k, v in e.kw), "respond": e.name == RESP}[where]
      return [kind] if hit else []
    return handlers(ctx, fname, c, extra_stop={RT, HOST + ".create_task"}, models=RAW, raises_fn=fail)
  key = ("fetch", K["FD_TASK_START"])
  body = attr(REQ, "body")
  for kind, where in [("ok", "")] + [(k, w) for k in ("builtins.ValueError", "builtins.BaseException", "asyncio.CancelledError") for w in ("create", "setup", "respond")] + [(VALERR, "model"), ("asyncio.exceptions.TimeoutError", "setup")]:
    f, hs = go(kind, where)
    if not ctx.check(key in hs, R3, "fetch:start", "nobody handles the start request", at(f)): return
    tag = "fetch:start" + (f"[{where}: {kind.split('.')[-1]}]" if where else "")
    for it, p, h, subs in hs[key]:
      for s in subs:
        mkd = [e for e in s.events if mks(e)]
        runs = [e for e in s.events if e.kind == "call" and e.name == RT]
        sets = [o for o in map_ops(it, s, TASKS, s.events) if o[1] == "set"]
        ans = answers(it, s)
        err = [e for e in s.events if e.kind == "call" and e.name == RERR]
        hit = kind == "ok" or s.kind == "raise" or any(e.kind == "handle" for e in s.events)
        if not hit: continue
        if cancelled(kind):
          ctx.check(s.kind == "raise" and any(cancelled(x) for x in excs(s.value)), R3, tag, "a cancelled host goes on serving", at(f), s)
          if where != "respond": ctx.check(not runs and not sets, R3, tag + "[none]", "a task runs though its start was cancelled", at(f), s)
          continue
        if where == "respond": continue
        if kind != "ok":
          ctx.check(s.kind == "raise" or bool(err) or len(ans) == 1 and _errs(ans[0][1]), R3, tag, "a failed start is answered as a success", at(f), s)
          ctx.check(not runs and not sets, R3, tag + "[none]", "a task runs though its start failed", at(f), s)
          for e, t in ans:
            d = dumped(t)
            ctx.check(d is not None and mfield(d[1].get("id", NONE), "id", body), R3, tag + "[id]", "the answer names another task", e.loc, s)
          continue
        if not ctx.check(s.kind == "return" and len(ans) == 1 and not err, R3, tag, "a successful start is not answered", at(f), s): continue
        ok = len(mkd) == 1 and mkd[0].awaited and len(mkd[0].args) == 2 and mfield(mkd[0].args[0], "config", body) and mfield(mkd[0].args[1], "topic_space_id", body)
        if not ctx.check(ok, R3, tag + "[made]", "not the task asked for is made", at(f), s): continue
        task = mk("awaited", mkd[0].res)
        ok = len(runs) == 1 and mfield(runs[0].arg(0, "id"), "id", body) and runs[0].arg(1, "task") is task and mfield(runs[0].arg(2, "report_address"), "report_address", body)
        ctx.check(ok, R3, tag + "[run]", "not exactly the made task is run once with its id and report address", at(f), s)
        cr = [e for e in s.events if e.kind == "call" and (e.name or "").endswith("create_task") and e.args and runs and contains(e.args[0], lambda x: x is runs[0].res or x.op == "coro")]
        cr = [e for e in cr if not mks(e)]
        ctx.check(len(cr) == 1 and len(sets) == 1 and mfield(sets[0][2], "id", body) and sets[0][3] is cr[0].res, R3, tag + "[kept]", "the running task is not kept under its id", at(f), s)
        e, t = ans[0]
        d = dumped(t)
        md = d[1].get("metadata") if d else None
        ctx.check(d is not None and mfield(d[1].get("id", NONE), "id", body) and d[1].get("error") is NONE and md is not None and contains(md, lambda x: x.op == "call" and call_name(x) in ("setup", "wait_for") or x.op == "coro" and "setup" in show(x)), R3, tag + "[answer]", "the answer is not the id and metadata of the task", e.loc, s)
  key = ("fetch", K["FD_TASK_CANCEL"])
  body = attr(REQ, "body")
  f, hs = handlers(ctx, fname, c, extra_stop={RT, HOST + ".create_task"}, models=RAW)
  if not ctx.check(key in hs, R4, "fetch:cancel", "nobody handles the cancel request", at(f)): return
  for it, p, h, subs in hs[key]:
    for s in subs:
      cs = [e for e in s.events if e.kind == "call" and call_of(e, "cancel")]
      ok = [e for e in cs if e.fterm.op == "attr" and any(looked_up(e.fterm.a[0], TASKS, x) for x in subterms(e.fterm.a[0]) if mfield(x, "id", body))]
      absent = not cs and any(e.kind == "call" and e.name == RERR for e in s.events)
      ctx.check(len(ok) == len(cs) <= 1 and (bool(cs) or absent or s.kind == "raise"), R4, "fetch:cancel", "not exactly the named task is cancelled", at(f), s)
      if ok and s.kind == "return": ctx.check(any(is_const(t, "OK") for _, t in answers(it, s)) or not answers(it, s) or True, R4, "fetch:cancel[answer]", "", at(f), s)
  absent = lambda e, st: ["builtins.KeyError"] if e.kind in ("getitem", "delitem") and e.recv is TASKS or e.kind == "call" and call_of(e, "pop") and e.recv is TASKS and len(e.args) < 2 else []
  f, hs = handlers(ctx, fname, c, extra_stop={RT, HOST + ".create_task"}, models=RAW, want_getitem=True, raises_fn=absent)
  for it, p, h, subs in hs.get(key, []):
    un = [s for s in subs if not any(e.kind == "call" and call_of(e, "cancel") for e in s.events)]
    ctx.check(bool(un), R4, "fetch:cancel[unknown]", "a task that does not run is not told apart", at(f))
    for s in un: ctx.check(s.kind == "raise" or any(e.kind == "call" and e.name == RERR for e in s.events), R4, "fetch:cancel[unknown]", "a task that does not run is reported as cancelled", at(f), s)


def _errs(t):
  d = dumped(t)
  return d is not None and d[1].get("error", NONE) is not NONE


def host_run(ctx, c, me, K, TASKS, R5):
  f = ctx.method(c, "run")
  SD = "streamtasks.worker.Worker.shutdown"
  stop = {CL + ".start", CL + ".request_address", CL + ".fetch", SEND_SIGNAL, CD + ".wait_for_topic_signal", "create_client", "run_api", "register", "unregister", "register_routes", "add_handler", SD}
  REG = None
  for n in ast.walk(ctx.method(c, "register").node):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Attribute): REG = attr(me, n.func.value.attr)
  g = ctx.method(c, "register")
  for p in ctx.run(ctx.interp(stop={CL + ".fetch"}), g, selfcls=c) if REG is None else ():
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and contains(e.args[0], lambda x: x.op == "param" and x.a[0] == g.node.args.args[1].arg): REG = attr(me, e.name)
  ctx.check(REG is not None, R5, HOST + ".register", "where the host is registered is not kept", c.file)
  for kind in ("ok", "builtins.OSError", "asyncio.CancelledError"):
    down = lambda st: any(e.kind == "call" and (e.recv is TASKS and call_of(e, "values") or e.name == SD) for e in st.events)
    it = ctx.interp(stop=stop, raises_fn=lambda e, st: [kind] if kind != "ok" and e.kind == "call" and e.awaited and not e.inlined and not down(st) and not (e.name or "").endswith("asyncio.wait") else [])
    tag = f"{f.qualname}[{kind.split('.')[-1]}]"
    for p in ctx.run(it, f, selfcls=c):
      if kind != "ok" and p.kind == "return" and any(e.kind == "handle" for e in p.events): ctx.fail(R5, tag + "[kept]", "the reason the host stopped is lost", at(f), p)
      if kind != "ok": ctx.ok(R5, tag + "[kept]")
      sd = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == SD]
      if not ctx.check(bool(sd) and p.events[sd[-1]].awaited, R5, tag + "[links]", "the host's links are not shut down", at(f), p): continue
      some = fact(p.facts, mk("truthy", TASKS))
      canc = [i for i, e in enumerate(p.events) if e.kind == "call" and call_of(e, "cancel") and contains(e.fterm, lambda x: x.op == "item" and x.a[0] is TASKS or x.op == "each" and contains(x, TASKS))]
      looped = any(e.kind == "loop" and contains(e.recv if e.recv is not None else e.args[0] if e.args else NONE, TASKS) for e in p.events) or some is not None
      if not ctx.check(looped and (some is False or bool(canc)), R5, tag + "[tasks]", "running tasks are not all cancelled", at(f), p): continue
      waits = [i for i, e in enumerate(p.events) if e.kind == "call" and (e.name or "").split(".")[-1] in ("wait", "gather") and e.awaited and any(vals_of(it.norm(a, p.st), TASKS) or vals_of(a, TASKS) for a in e.args)]
      waits += [i for i, e in enumerate(p.events) if e.kind == "await" and contains(e.args[0] if e.args else NONE, lambda x: x.op == "item" and x.a[0] is TASKS)]
      sets = [a for a, v in p.facts if a.op == "truthy" and not v and a.a[0] is not TASKS and (vals_of(it.norm(a.a[0], p.st), TASKS) or REG is not None and contains(it.norm(a.a[0], p.st), REG) and a.a[0] is not REG)]
      if canc: ctx.check((bool(waits) and min(canc) < max(waits) < sd[-1]) or bool(sets), R5, tag + "[waited]", "cancelled tasks are not waited for before the links are shut down", at(f), p)
      if REG is not None:
        un = [e for e in p.events if e.kind == "call" and ((e.name or "").endswith(".unregister") or e.name == SEND_SIGNAL) and any(contains(a, REG) for a in e.args)]
        ctx.check(fact(p.facts, mk("truthy", REG)) is False or bool(un), R5, tag + "[unregistered]", "the host is not unregistered where it is registered", at(f), p)
        ctx.check(fact(p.facts, mk("truthy", REG)) is not None, R5, tag + "[registrations]", "registrations are not looked at", at(f), p)
        for e in un:
          i = p.events.index(e)
          w = e.awaited or any(x.kind == "call" and x.awaited and (x.name or "").split(".")[-1] in ("wait", "gather") and any(contains(it.norm(a, p.st), REG) for a in x.args) for x in p.events[i:sd[-1]]) or bool(sets)
          ctx.check(w, R5, tag + "[sent]", "the links are shut down before the host is unregistered", e.loc, p)


def s02(ctx):
  R1 = ctx.rule("scheduled", "scheduling stores a new scheduled task for the named host and topic space under an id of its own and answers it", 5)
  R2 = ctx.rule("started", "starting asks the host of the named task exactly once to start that task with its topic space and the given configuration and to report to the manager; the task then runs or, where the host answered an error, failed and is forgotten; the answer is the task", 8)
  R3 = ctx.rule("cancelled", "cancelling asks the host of the named task to cancel exactly that task, and is answered as a success only where the host did", 4)
  R4 = ctx.rule("reported", "a report sets status and error of exactly the reported task, which is forgotten unless it is running, and then goes out to those who follow that task", 6)
  R5 = ctx.rule("hosts", "a host is known with its registration from its registering on until it unregisters, which removes exactly its tasks; both are announced after they took effect", 6)
  R6 = ctx.rule("answered", "lists and single lookups answer what is stored under the asked id; unknown ids and malformed requests are answered with an error that says so", 10)
  R7 = ctx.rule("client", "each call of the manager's client makes the one request that stands for it, with what it was given; waiting for a cancelled task listens before it asks and returns only an inactive task", 8)
  c = ctx.p.cls(MAN)
  me = mk("self", MAN)
  K = tc(ctx)
  body, client = attr(REQ, "body"), attr(me, "client")
  BCS = {BCAST}
  def hand(**cfg):
    out = {}
    for m in c.methods.values():
      if not any(isinstance(n, (ast.Name, ast.Attribute)) and (n.attr if isinstance(n, ast.Attribute) else n.id) in ("FetchServer", "SignalServer") for n in ast.walk(m.node)): continue
      f, hs = handlers(ctx, m.name, c, extra_stop=BCS, models=RAW, **cfg)
      for k, v in hs.items(): out.setdefault(k, []).extend(v)
    return out
  hs = hand()
  want = {"schedule": ("fetch", K["FD_TM_TASK_SCHEDULE"]), "start": ("fetch", K["FD_TM_TASK_START"]), "cancel": ("fetch", K["FD_TM_TASK_CANCEL"]), "report": ("signal", K["SD_TM_TASK_REPORT"]),
          "unhost": ("signal", K["SD_UNREGISTER_TASK_HOST"]), "host": ("fetch", K["FD_REGISTER_TASK_HOST"]), "list": ("fetch", K["FD_TM_LIST_TASK_HOSTS"]), "gethost": ("fetch", K["FD_TM_GET_TASK_HOST"]), "get": ("fetch", K["FD_TM_TASK_GET"])}
  for k, d in want.items(): ctx.check(d in hs, R6, f"{d[0]}:{d[1]}", "nobody handles the request", c.file)
  each = lambda k: [(it, s) for it, p, h, subs in hs.get(want[k], []) for s in subs]
  # where tasks and hosts are kept
  TASKS = HOSTS = None
  for it, s in each("schedule"):
    for e in s.events:
      if e.kind == "setitem" or e.kind == "call" and any_of(e, "update", "setdefault"): TASKS = TASKS or (e.recv if e.recv is not None and e.recv.op == "attr" and e.recv.a[0] is me else None)
  for it, s in each("host"):
    for e in s.events:
      if e.kind == "setitem" or e.kind == "call" and any_of(e, "update", "setdefault"): HOSTS = HOSTS or (e.recv if e.recv is not None and e.recv.op == "attr" and e.recv.a[0] is me else None)
  if not ctx.check(TASKS is not None, R1, "schedule", "scheduled tasks are not kept", c.file): return
  if not ctx.check(HOSTS is not None, R5, "register", "registered hosts are not kept", c.file): return
  fine = lambda s: not any(e.kind == "handle" for e in s.events) and not any(e.kind == "raise" for e in s.events)
  for it, s in each("schedule"):
    if not fine(s): continue
    sets = map_ops(it, s, TASKS, s.events)
    an = answers(it, s)
    if not ctx.check(s.kind == "return" and len(sets) == 1 and sets[0][1] == "set" and len(an) == 1, R1, "schedule", "not exactly one task is stored and answered", c.file, s): continue
    v = it.norm(sets[0][3], s.st)
    v = v.a[1] if v.op == "copy" else v
    if not ctx.check(v.op == "inst" and v.a[0] == TSK + ".TaskInstance", R1, "schedule[made]", "no task is made", c.file, s): continue
    fs = fields(v)
    idt = fs.get("id", NONE)
    ctx.check(idt.op == "call" and ext_name(idt).startswith(("uuid.", "secrets.")), R1, "schedule[id]", "the task has no id of its own", c.file, s)
    k = sets[0][2]
    ctx.check(k is idt or k.op == "attr" and k.a[1] == "id" and it.norm(k.a[0], s.st) is v or k.op == "attr" and k.a[1] == "id", R1, "schedule[key]", "the task is not stored under its id", c.file, s)
    ctx.check(mfield(fs.get("host_id", NONE), "host_id", body) and mfield(fs.get("topic_space_id", NONE), "topic_space_id", body), R1, "schedule[for]", "the task is for another host or topic space", c.file, s)
    ctx.check(enum_of(fs.get("status", NONE)) == "scheduled" and fs.get("error", NONE) is NONE, R1, "schedule[status]", "a new task is not scheduled", c.file, s)
    d = dumped(an[0][1])
    ctx.check(d is not None and d[1].get("id") is idt, R1, "schedule[answer]", "the answer is not the task", c.file, s)
  def the_task(t): return t.op in ("item", "call") and any(looked_up(t, TASKS, x) for x in subterms(t) if x.op == "attr" and x.a[1] == "id" and validated_as(x.a[0], body) is not None)
  for name, R, fd in (("start", R2, "FD_TASK_START"), ("cancel", R3, "FD_TASK_CANCEL")):
    n = 0
    for it, s in each(name):
      fe = [e for e in s.events if e.kind == "call" and e.name == CL + ".fetch"]
      an = answers(it, s)
      if not fe:
        ctx.check(not an, R, name + "[asked]", "answered without asking the host", c.file, s); continue
      if not ctx.check(len(fe) == 1 and fe[0].recv is client or len(fe) == 1 and fe[0].fterm is not None and contains(fe[0].fterm, client), R, name + "[once]", "the host is asked more than once", c.file, s): continue
      a = fe[0].args
      hostd = strip(a[0])
      hk = [x for x in subterms(hostd) if x.op == "attr" and x.a[1] == "host_id"]
      ok = hostd.op == "attr" and hostd.a[1] == "address" and len(hk) >= 1 and looked_up(hostd.a[0], HOSTS, hk[0]) and the_task(hk[0].a[0]) and is_const(a[1], K[fd])
      if not ctx.check(ok, R, name + "[host]", "another host is asked than that of the task", fe[0].loc, s): continue
      task = hk[0].a[0]
      d = dumped(it.norm(a[2], s.st))
      if not ctx.check(d is not None, R, name + "[request]", "the request to the host is not known", fe[0].loc, s): continue
      key = [x for x in subterms(task) if x.op == "attr" and x.a[1] == "id" and validated_as(x.a[0], body) is not None][0]
      own = lambda t, f: t is attr(task, f)
      ctx.check(is_key(d[1].get("id", NONE), TASKS, key), R, name + "[id]", "the host is asked about another task", fe[0].loc, s)
      if name == "start":
        ctx.check(own(d[1].get("topic_space_id", NONE), "topic_space_id"), R, name + "[space]", "the task is started in another topic space", fe[0].loc, s)
        ctx.check(mfield(d[1].get("config", NONE), "config", body), R, name + "[config]", "the task is started with another configuration", fe[0].loc, s)
        ctx.check(d[1].get("report_address") in (attr(client, "address"), attr(client, "_address")), R, name + "[report]", "the task reports to somebody else", fe[0].loc, s)
        res = mk("awaited", fe[0].res)
        if not fine(s): continue
        n += 1
        err = [v for a2, v in s.facts if a2.op == "is" and a2.a[1] is NONE and a2.a[0].op == "attr" and a2.a[0].a[1] == "error" and validated_as(a2.a[0].a[0], res) is not None]
        sets = {}
        for e in s.events:
          if e.kind == "setattr" and e.recv is task: sets[e.name] = it.norm(e.args[0], s.st)
        ctx.check("error" in sets and (mfield(sets["error"], "error", res) or err and err[0] and sets["error"] is NONE), R, "start[error]", "the error of a failed start is lost", c.file, s)
        ctx.check("metadata" in sets and mfield(sets["metadata"], "metadata", res), R, "start[metadata]", "the metadata of the started task are lost", c.file, s)
        stt = enum_of(sets.get("status", NONE))
        if not ctx.check(bool(err), R, "start[told]", "a failed start is not told from a successful one", c.file, s): continue
        ctx.check(stt == ("running" if err[0] else "failed"), R, "start[status]", f"a task whose start {'succeeded' if err[0] else 'failed'} is {stt}", c.file, s)
        ops = map_ops(it, s, TASKS, s.events)
        gone = [o for o in ops if o[1] == "del" and is_key(o[2], TASKS, key)]
        ctx.check(len(gone) == len(ops) and bool(gone) == (not err[0]), R, "start[forgotten]", "a started task is forgotten" if err[0] else "a task that failed to start is kept", c.file, s)
        if ctx.check(len(an) == 1, R, "start[answered]", "the start is not answered", c.file, s):
          t = an[0][1]
          last = max(i for i, e in enumerate(s.events) if e.kind == "setattr" and e.recv is task) if sets else -1
          dumpi = [i for i, e in enumerate(s.events) if e.kind == "call" and e.res is t]
          ctx.check(t.op == "call" and call_name(t) == "model_dump" and call_recv(t) is task and all(i > last for i in dumpi), R, "start[answer]", "the answer is not the started task", an[0][0].loc, s)
      else:
        res = mk("awaited", fe[0].res)
        okf = [v for a2, v in s.facts if a2.op == "eq" and res in a2.a]
        ctx.check(not map_ops(it, s, TASKS, s.events) and not any(e.kind == "setattr" and e.recv is task for e in s.events), R, "cancel[kept]", "the task is changed before its host reported how it ended", c.file, s)
        n += bool(an)
        if an: ctx.check(okf == [True] and is_const(an[0][1], "OK"), R, "cancel[answer]", "a cancellation the host refused is answered as a success", c.file, s)
    ctx.check(n > 0, R, name, "never succeeds", c.file)
  # the namespace is the same on both sides, and every task has its own
  g = ctx.p.func(TSK + ".get_namespace_by_task_id")
  a0 = mk("param", g.node.args.args[0].arg, g.qualname)
  for p in ctx.run(ctx.interp(), g): ctx.check(contains(p.value, a0), R4, g.qualname, "all tasks share one namespace", at(g), p)
  NSV = {p.value for p in ctx.run(ctx.interp(), g)}
  src = DATA
  n = 0
  for it, s in each("report"):
    if not fine(s): continue
    keyv = [x for x in {y for e in s.events for a in list(e.args or ()) + ([e.recv] if e.recv is not None else []) if isinstance(a, T) for y in subterms(a)} if mfield(x, "id", src)]
    task = next((e.recv for e in s.events if e.kind == "setattr" and any(looked_up(e.recv, TASKS, k) for k in keyv)), None)
    if task is None:
      ctx.check(not any(e.kind == "setattr" for e in s.events) and any(a.op == "is" and a.a[1] is NONE or a.op == "in" for a, v in s.facts), R4, "report", "the reported task is not changed", c.file, s); continue
    n += 1
    sets = {e.name: it.norm(e.args[0], s.st) for e in s.events if e.kind == "setattr" and e.recv is task}
    others = [e for e in s.events if e.kind == "setattr" and e.recv is not task]
    ctx.check(not others and mfield(sets.get("status", NONE), "status", src) and mfield(sets.get("error", NONE), "error", src), R4, "report[taken]", "status or error of the reported task are not taken over", c.file, s)
    run = [v for a, v in s.facts if a.op in ("eq", "is") and any(mfield(x, "status", src) for x in a.a) and any(enum_of(x) == "running" for x in a.a)]
    ops = map_ops(it, s, TASKS, s.events)
    key = keyv[0]
    dels = [o for o in ops if o[1] == "del"]
    if not run:
      one = {enum_of(y): v for a, v in s.facts if a.op in ("eq", "is") and any(mfield(x, "status", src) for x in a.a) for y in a.a if enum_of(y)}
      run = [True] if one.get("running") else [False] if any(v for v in one.values()) else []
      if not run:
        ins = [(a, v) for a, v in s.facts if a.op == "in" and any(mfield(x, "status", src) for x in subterms(a.a[0]))]
        if ins:
          el = {enum_of(y) for y in subterms(ins[0][0].a[1])} - {None}
          act = "running" in el
          run = [ins[0][1] == act] if (not act or el <= {"running", "scheduled"}) else []
    if ctx.check(bool(run), R4, "report[told]", "ended tasks are not told from running ones", c.file, s):
      ctx.check(bool(dels) == (not run[0]) and all(is_key(o[2], TASKS, key) for o in dels) and len(ops) == len(dels), R4, "report[forgotten]", "a running task is forgotten" if run[0] else "an ended task is kept, or another is forgotten", c.file, s)
    bc = [e for e in s.events if e.kind == "call" and e.name == BCAST]
    if ctx.check(len(bc) == 1 and bc[0].awaited, R4, "report[announced]", "the change is not announced once", c.file, s):
      ns, data = it.norm(bc[0].args[0], s.st), it.norm(bc[0].args[1], s.st)
      ctx.check(any(ns is rewrite(v, lambda y: x if y is a0 else y) for x in subterms(ns) if is_key(x, TASKS, key) for v in NSV) and contains(data, task), R4, "report[to]", "another task is announced", bc[0].loc, s)
      di = [i for i, e in enumerate(s.events) if e.kind == "call" and call_of(e, "model_dump")]
      last = max([i for i, e in enumerate(s.events) if e.kind == "setattr"] or [-1])
      ctx.check(all(i > last for i in di), R4, "report[new]", "the task is announced as it was before", bc[0].loc, s)
  ctx.check(n > 0, R4, "report", "reports change nothing", c.file)
  for it, s in each("host"):
    if not fine(s): continue
    ops = map_ops(it, s, HOSTS, s.events)
    ok = len(ops) == 1 and ops[0][1] == "set" and mfield(ops[0][2], "id", body) and validated_as(it.norm(ops[0][3], s.st), body) is not None
    ctx.check(ok, R5, "register", "the registration is not stored under its id", c.file, s)
    bc = [e for e in s.events if e.kind == "call" and e.name == BCAST]
    ctx.check(len(bc) == 1 and bc[0].awaited and is_const(bc[0].args[0], K["BC_TASK_HOST_REGISTERED"]) and ok and s.events.index(ops[0][0]) < s.events.index(bc[0]), R5, "register[announced]", "the registration is not announced once it took effect", c.file, s)
    if bc: ctx.check(contains(it.norm(bc[0].args[1], s.st), lambda x: validated_as(x, body) is not None), R5, "register[what]", "something else is announced", c.file, s)
  for it, s in each("unhost"):
    if not fine(s): continue
    hid = lambda t: mfield(t, "id", src)
    ops = map_ops(it, s, HOSTS, s.events)
    known = [v for a, v in s.facts if a.op == "in" and hid(a.a[0]) and a.a[1] is HOSTS]
    ctx.check(len(ops) == 1 and ops[0][1] == "del" and hid(ops[0][2]) or known == [False] and not ops, R5, "unregister", "not exactly the named host is forgotten", c.file, s)
    bc = [e for e in s.events if e.kind == "call" and e.name == BCAST]
    ctx.check(len(bc) == 1 and bc[0].awaited and is_const(bc[0].args[0], K["BC_TASK_HOST_UNREGISTERED"]) and (not ops or s.events.index(ops[0][0]) < s.events.index(bc[0])) or not ops and not bc, R5, "unregister[announced]", "the unregistration is not announced once it took effect", c.file, s)
    st = [e for e in s.events if e.kind == "setattr" and e.recv is me and attr(me, e.name) is TASKS]
    tops = [o for o in map_ops(it, s, TASKS, s.events)]
    if st:
      t = it.norm(st[-1].args[0], s.st)
      ok = t.op == "comp"
      for keep, g_, el in (t.a[2] if ok else ()):
        byhost = [v for a, v in (g_ or ()) if a.op == "eq" and any(x.op == "attr" and x.a[1] == "host_id" and contains(x, TASKS) for x in a.a) and any(hid(x) for x in a.a)]
        if not byhost: 
          if keep: ok = False
          continue
        if keep == byhost[0]: ok = False
        if keep: ok = ok and el is not None and el.op in ("kv", "tuple") and not (el.a[0].op == "const")
      ctx.check(ok, R5, "unregister[tasks]", "not exactly the tasks of the host are removed", st[-1].loc, s)
    else:
      okp = True
      hostof = [(a, v) for a, v in s.facts if a.op == "eq" and any(x.op == "attr" and x.a[1] == "host_id" for x in a.a) and any(hid(x) for x in a.a)]
      ctx.check(bool(tops) == any(v for _, v in hostof) and (bool(hostof) or fact(s.facts, mk("truthy", TASKS)) is False or contains_loop(s, TASKS)), R5, "unregister[tasks]", "not exactly the tasks of the host are removed", c.file, s)
  for it, s in each("list"):
    if not fine(s): continue
    an = answers(it, s)
    ctx.check(len(an) == 1 and vals_of(an[0][1], HOSTS), R6, "list", "not all hosts are answered", c.file, s)
  for name, M in (("gethost", HOSTS), ("get", TASKS)):
    n = 0
    for it, s in each(name):
      an = answers(it, s)
      if not fine(s) or not an: continue
      n += 1
      t = an[0][1]
      r = call_recv(t) if t.op == "call" and call_name(t) == "model_dump" else t
      ctx.check(len(an) == 1 and r is not None and any(looked_up(r, M, x) for x in subterms(r) if mfield(x, "id", body)), R6, name, "something else is answered than what was asked for", c.file, s)
    ctx.check(n > 0, R6, name, "never answered", c.file)
  # unknown ids and malformed requests
  codes = enum_values(ctx, FETCH + ".FetchErrorStatusCode")
  NF_, BR = codes.get("NOT_FOUND"), codes.get("BAD_REQUEST")
  def absent(e, st): return ["builtins.KeyError"] if e.kind in ("getitem", "delitem") and e.recv in (TASKS, HOSTS) or e.kind == "call" and call_of(e, "pop") and e.recv in (TASKS, HOSTS) and len(e.args) < 2 else []
  def invalid(e, st): return [VALERR] if e.kind == "call" and any_of(e, "model_validate", "validate_python") and e.args and e.args[0] is body else []
  for how, fn, code in (("unknown", absent, NF_), ("malformed", invalid, BR)):
    h2 = hand(want_getitem=True, raises_fn=fn)
    for name in ("start", "cancel", "get", "gethost") + (("schedule", "host") if how == "malformed" else ()):
      er = 0
      for it, p, h, subs in h2.get(want[name], []):
        for s in subs:
          bad = [e for e in s.events if e.kind == "call" and e.name == RERR]
          if s.kind == "raise":
            k = excs(s.value)
            if how == "malformed" and VALERR in k: er += 1      # the server answers those itself
            elif how == "unknown" and "builtins.KeyError" in k: ctx.fail(R6, f"{name}[{how}]", "an unknown id ends the request with a general error", c.file, s)
            continue
          miss = how == "unknown" and any(any(looked_up(x, M, k) for k in subterms(x) if k.op == "attr") and a.op in ("is", "truthy") or a.op == "in" and a.a[1] is M for a, v in s.facts if v is (a.op == "is") for x in a.a if isinstance(x, T) for M in (TASKS, HOSTS))
          if not miss and not any(e.kind == "handle" and (VALERR if how == "malformed" else "KeyError") in (repr(e)) for e in s.events): continue
          er += 1
          ctx.check(len(bad) == 1 and code_of(it.norm(bad[0].args[0], s.st)) == code, R6, f"{name}[{how}]", "answered with another error", c.file, s)
      ctx.check(er > 0, R6, f"{name}[{how}]", f"a request with {'an unknown id' if how == 'unknown' else 'a malformed body'} is not answered as such", c.file)
  manager_client(ctx, R7, K)


def contains_loop(s, M): return any(e.kind == "loop" and any(contains(a, M) for a in (e.args or ()) if isinstance(a, T)) or e.kind == "loop" and e.recv is not None and contains(e.recv, M) for e in s.events)


def ext_name(t): return t.a[0].a[0] if t.op == "call" and t.a[0].op == "ext" else ""


def code_of(t): return t.a[0].a[0] if t.op == "tuple" and t.a and is_const(t.a[0]) else None


def enum_values(ctx, qual):
  c = ctx.p.cls(qual)
  out = {}
  for n in c.node.body:
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant): out[n.targets[0].id] = n.value.value
  return out


def manager_client(ctx, R, K):
  c = ctx.p.cls(TSK + ".TaskManagerClient")
  me = mk("self", c.qualname)
  def par(f, i): return mk("param", f.node.args.args[i].arg, f.qualname)
  for name, fd, flds in (("get_task", "FD_TM_TASK_GET", {"id": 1}), ("get_task_host", "FD_TM_GET_TASK_HOST", {"id": 1}), ("schedule_task", "FD_TM_TASK_SCHEDULE", {"host_id": 1, "topic_space_id": 2}), ("start_task", "FD_TM_TASK_START", {"id": 1, "config": 2}), ("cancel_task", "FD_TM_TASK_CANCEL", {"id": 1}), ("list_task_hosts", "FD_TM_LIST_TASK_HOSTS", {})):
    f = ctx.method(c, name)
    it = ctx.interp(stop={CL + ".fetch"})
    for p in ctx.run(it, f, selfcls=c):
      fe = [e for e in p.events if e.kind == "call" and (e.name == CL + ".fetch" or call_of(e, "fetch"))]
      if not ctx.check(len(fe) == 1 and fe[0].args[0] is attr(me, "address_name") and is_const(fe[0].args[1], K[fd]), R, f.qualname, "another request is made", at(f), p): continue
      d = dumped(it.norm(fe[0].args[2], p.st)) if len(fe[0].args) > 2 else None
      if flds: ctx.check(d is not None and all(d[1].get(k) is par(f, i) for k, i in flds.items()), R, f.qualname + "[with]", "the request is about something else", at(f), p)
      if name != "cancel_task" and p.kind == "return": ctx.check(contains(p.value, mk("awaited", fe[0].res)) and validated_as(p.value, mk("awaited", fe[0].res)) is not None, R, f.qualname + "[result]", "returns something else than the answer", at(f), p)
  f = ctx.method(c, "cancel_task_wait")
  tid = par(f, 1)
  TRX = {RECV + ".start_recv", RECV + ".stop_recv", RECV + ".get", TSK + ".TaskManagerClient.cancel_task"}
  for kind in ("ok", FETCH + ".FetchError", "asyncio.CancelledError"):
    it = ctx.interp(stop=TRX, raises_fn=lambda e, st: [kind] if kind != "ok" and e.kind == "call" and e.name == TSK + ".TaskManagerClient.cancel_task" else [])
    for p in ctx.run(it, f, selfcls=c):
      ca = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == TSK + ".TaskManagerClient.cancel_task"]
      st = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == RECV + ".start_recv"]
      sp = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == RECV + ".stop_recv"]
      if not ctx.check(len(ca) == 1 and p.events[ca[0]].args[0] is tid, R, f.qualname + "[cancels]", "not the named task is cancelled", at(f), p): continue
      ctx.check(bool(st) and st[0] < ca[0], R, f.qualname + "[order]", "it asks before it listens, and may miss the end of the task", at(f), p)
      if p.kind in ("return", "raise"): ctx.check(bool(sp) and sp[-1] > ca[0], R, f.qualname + "[stops]", "it keeps listening", at(f), p)
      if kind == "asyncio.CancelledError": continue
      if p.kind == "return":
        act = [v for a, v in p.facts if contains(a, lambda x: x.op == "attr" and x.a[1] in ("is_active", "status") and contains(x, p.value))]
        en = {enum_of(y): v for a, v in p.facts if a.op in ("eq", "is") and contains(a, p.value) for y in a.a if enum_of(y)}
        isin = [(a, v) for a, v in p.facts if a.op == "in" and contains(a.a[0], p.value)]
        ok = isin and all(not v for _, v in isin) or en and not en.get("running", False) and ("running" in en and "scheduled" in en) or act and not any(act)
        ctx.check(bool(ok), R, f.qualname + "[result]", "returns while the task is active", at(f), p)
    if kind == FETCH + ".FetchError":
      rs = [p for p in it.run(f, selfcls=c)]
      nf = [p for p in rs if p.kind == "raise" and any(x.endswith("TaskNotFoundError") for x in excs(p.value))]
      ctx.check(bool(nf) and all(any(a.op == "eq" and v and any(enum_of(y, FETCH + ".FetchErrorStatusCode") == "NOT_FOUND" or is_const(y, "not_found") for y in a.a) for a, v in p.facts) for p in nf), R, f.qualname + "[unknown]", "an unknown task is not told apart from other errors", at(f))
      ctx.check(all(p.kind == "raise" or not any(e.kind == "handle" for e in p.events) for p in rs), R, f.qualname + "[errors]", "an error is swallowed", at(f))
  act = ctx.p.cls(STATUS).methods.get("is_active")
  if act is not None:
    for m in ("scheduled", "running", "stopped", "ended", "failed"):
      it = ctx.interp()
      vs = {it.norm(p.value, p.st) if isinstance(p.value, T) else p.value for p in ctx.run(it, act, selfterm=mk("enum", STATUS, m), selfcls=ctx.p.cls(STATUS))}
      ctx.check(vs == {const(m in ("scheduled", "running"))}, R, act.qualname + f"[{m}]", f"a {m} task is {'not ' if m in ('scheduled', 'running') else ''}taken for an active one", at(act))
  for name, cls_, ns in (("task_receiver", "TaskBroadcastReceiver", None), ("task_host_registered_receiver", "TaskHostRegisteredReceiver", "BC_TASK_HOST_REGISTERED"), ("task_host_unregistered_receiver", "TaskHostUnregisteredReceiver", "BC_TASK_HOST_UNREGISTERED")):
    f = ctx.method(c, name)
    it = ctx.interp(stop={BC + ".BroadcastReceiver.__init__", RECV + ".__init__"})
    for p in ctx.run(it, f, selfcls=c):
      e = [e for e in p.events if e.kind == "call" and (e.name or "").endswith(cls_)]
      if not ctx.check(len(e) == 1 and e[0].res is p.value and len(e[0].args) == 3 and e[0].args[2] is attr(me, "address_name"), R, f.qualname, "listens for something else", at(f), p): continue
      if ns: ctx.check(contains(it.norm(e[0].args[1], p.st), const(K[ns])), R, f.qualname + "[namespace]", "listens in another namespace", at(f), p)
      else:
        t = strip(it.norm(e[0].args[1], p.st))
        ids = par(f, 1)
        part = contains(t, lambda y: y.op == "slice" or y.op == "sub" and strip(y.a[0]) is ids)
        if t.op == "comp": part = part or any(not ok and not any(a.op == "truthy" and strip(a.a[0]) is ids and not v for a, v in fs) for ok, fs, _ in t.a[2]) or any(ok and isinstance(x, T) and not contains(x, lambda y: y.op in ("elem", "each") and strip(y.a[0]) is ids) for ok, _, x in t.a[2])
        ctx.check(contains(t, ids) and not part, R, f.qualname + "[namespace]", "listens for some of the named tasks only", at(f), p)


RULES = {"S01": s01, "S02": s02}
