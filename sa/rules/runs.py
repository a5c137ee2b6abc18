"""Runs of deployments, secrets and named topics."""
from __future__ import annotations
import ast
from .persist import *


def together(it, f, a, k, n, st, fr):
  """model of waiting for coroutines: each of them runs (one of many for those of a collection)"""
  def coros(t, s):
    """-> (coroutine or None, state)"""
    if t.op in ("star", "copy"): yield from coros(t.a[-1], s); return
    if t.op == "coro": yield t, s; return
    if t.op == "call" and call_name(t) in ("create_task", "ensure_future", "shield", "wait_for") and t.a[1]: yield from coros(t.a[1][0], s); return
    if t.op in ("comp", "obj", "tuple") or it.exact_items(t, s) is not None:
      for kind, x, s1 in it.iter_alts(t, f"{n.lineno}:{n.col_offset}@{fr.frid}", s):
        if kind == "none": yield None, s1
        else: yield from coros(x, s1)
      return
    yield None, s
  out = []
  quiet = it.callee_name(f) == "asyncio.wait" or any(x == "return_exceptions" and v is not FALSE for x, v in k)
  def go(i, s):
    if i == len(a):
      res = mk("gathered", n.lineno, n.col_offset)
      s = s.event(it._mkev("call", s, fr, n, name="asyncio.gather", args=tuple(a), fterm=f, res=res, awaited=True, kw=tuple(k)))
      out.append(("v", res, s)); return
    seen = False
    for c, s1 in coros(a[i], s):
      if c is None: go(i + 1, s1); continue
      for r in it.await_value(c, s1, fr, n):
        if r[0] != "x": go(i + 1, r[2])
        elif quiet: go(i + 1, r[2].event(it._mkev("handle", r[2], fr, n, name=r[1].a[0], res=r[1])))
        else: out.append(("x", r[1], r[2].event(it._mkev("abandon", r[2], fr, n, name=r[1].a[0], res=r[1]))))     # the others are not waited for
  go(0, st)
  return out


GATHER = {"asyncio.gather": together, "asyncio.wait": together}
TMC = TSK + ".TaskManagerClient"
NOTFOUND = TSK + ".TaskNotFoundError"
REGSPACE, DELSPACE = "streamtasks.client.discovery.register_topic_space", "streamtasks.client.discovery.delete_topic_space"
RUNSTOP = {TMC + ".schedule_task", TMC + ".start_task", TMC + ".cancel_task_wait", TMC + ".cancel_task", TMC + ".task_receiver", REGSPACE, DELSPACE}
DID = mk("wparam", "id", "uuid")
DASHID = mk("wparam", "id")


def answered(name, pair=False):
  """model of a request that is answered with something (or a pair)"""
  def m(it, f, a, k, n, st, fr):
    nth = sum(1 for x in st.events if x.kind == "call" and x.node is n)
    res = mk("answer", name, n.lineno, n.col_offset, nth)
    v = mk("tuple", mk("part", res, 0), mk("part", res, 1)) if pair else res
    s = st.event(it._mkev("call", st, fr, n, name=name, recv=f.a[0] if f.a and isinstance(f.a[0], T) else None, args=tuple(a), fterm=f, res=res, awaited=True, kw=tuple(k)))
    return [("v", v, s)]
  return m


ASKED = {**GATHER, TMC + ".schedule_task": answered(TMC + ".schedule_task"), TMC + ".start_task": answered(TMC + ".start_task"), REGSPACE: answered(REGSPACE, True)}


def fields(t): return {x[0]: x[1] for x in t.a[1]} if t is not None and t.op == "inst" else {}


def entries_of(t):
  """[(key, value)] of a mapping written out"""
  return [(x.a[0], x.a[1]) for x in t.a[1:] if isinstance(x, T) and x.op == "kv"] if t.op == "lit" and t.a[0] == "dict" else []


def waited(e): return e.kind == "call" and e.awaited and not e.inlined


def from_result(t, call):
  """is t what a call answered (awaited)?"""
  return t is call.res or t is mk("awaited", call.res) or t.op in ("copy", "awaited") and from_result(t.a[-1], call)


def all_topics(t, TK, facts):
  """does a set of topic ids hold the topics of all outputs of the tasks of the deployment?"""
  want = lambda y: y.op in ("item", "call") and (get_of(y) or (None, NONE))[1] is const("topic_id") and of_outputs(get_of(y)[0], TK)
  if not contains(t, want): return False
  def fine(x):
    if x.op == "comp":
      for ok, fs, e in x.a[2]:
        if not ok and not any(a.op == "truthy" and v is False and (a.a[0] is TK or a.a[0].op == "attr" and a.a[0].a[1] == "outputs" and of(a.a[0].a[0], TK)) or key_eq(a, TK, "deployment_id", DID) and v is False for a, v in fs): return False
        if ok and e is not None and not fine(e): return False
      return True
    if x.op == "call" and (ext_name(x) or "").split(".")[-1] in ("from_iterable", "chain", "set", "list", "tuple", "int", "frozenset"): return all(fine(y) for y in x.a[1])
    if x.op in ("slice",): return False
    if x.op in ("lit", "spread", "star", "copy", "tuple"): return all(fine(y) for y in x.a if isinstance(y, T))
    if x.op == "bin": return x.a[0] in ("|", "+") and fine(x.a[1]) and fine(x.a[2])
    return True
  return fine(t)


def of_outputs(t, TK): return t.op == "elem" and t.a[0].op == "attr" and t.a[0].a[1] == "outputs" and of(t.a[0].a[0], TK)


def s07(ctx):
  R1 = ctx.rule("space", "a deployment that is scheduled gets one topic space, for the topics of all outputs of all its tasks, and is kept with it", 1)
  R2 = ctx.rule("scheduled", "each task of the deployment, and no other, is scheduled on its own host in that space; the instance is kept under the task, the configuration of the task under the instance", 3)
  R3 = ctx.rule("started", "each instance is started with the configuration kept for it, and the answer is kept under the same task", 2)
  R4 = ctx.rule("stopped", "each instance is cancelled and waited for, one that is not known any more does not matter; then the topic space is deleted, listening ends, and only then the deployment counts as not running; it goes on counting as running when cancelling failed", 6)
  R5 = ctx.rule("updates", "a reported change is kept under the task of the instance it is about", 1)
  R6 = ctx.rule("shown", "a deployment is shown as running once it was started, as scheduled before, and as neither when it is stopped; its tasks are shown with their own instances", 4)
  c = ctx.p.cls(TWB)
  B, store = bases(ctx)
  RD = running_field(ctx, store)
  if not ctx.check(RD is not None and B.get(DEP) is not None and B.get(TSKM) is not None, R1, STORE, "running deployments are not kept", ctx.p.cls(STORE).file): return
  D, TK = B[DEP], B[TSKM]
  w = Web(ctx, TWB, "run_asgi_server", RUNSTOP, models=ASKED)
  me = mk("self", TWB)
  P = "/api/deployment/{id}"
  space = inst = conf = listeners = None
  born, done_any = {}, False
  # -- schedule
  for s in w.subs("POST", P + "/schedule") or []:
    it, ev = w.it, s.events
    facts = cfacts(it, s)
    if impossible(facts, (D, TK)): continue
    sch = [(i, e) for i, e in enumerate(ev) if e.kind == "call" and e.name == TMC + ".schedule_task"]
    regs = [(i, e) for i, e in enumerate(ev) if e.kind == "call" and e.name == REGSPACE]
    mine = veq(facts, TK, "deployment_id", DID)
    if mine is not True:
      ctx.check(not sch, R2, "schedule[other]", "a task of another deployment is scheduled", sch[0][1].loc if sch else "", s)
    ok = [a for a in web_answers(it, s) if a[1] is None or a[1] < 300]
    if not ok: continue
    if not ctx.check(len(regs) == 1 and waited(regs[0][1]), R1, "schedule[space]", "no topic space is registered, or several", c.file, s): continue
    i, rg = regs[0]
    sets = [(j, e) for j, e in enumerate(ev) if e.kind == "setitem" and e.recv is not None and C(it, s, e.recv) is RD]
    if not ctx.check(len(sets) == 1 and C(it, s, sets[0][1].args[0]) is DID, R1, "schedule[kept]", "the scheduled deployment is not kept", c.file, s): continue
    d = fields(C(it, s, sets[0][1].args[1]))
    def is_space(t): return t.op == "part" and t.a[0] is rg.res and t.a[1] == 0
    sp = [k for k, v in d.items() if is_space(v)]
    if ctx.check(len(sp) == 1, R1, "schedule[space kept]", "the topic space of the deployment is not kept", sets[0][1].loc, s): space = sp[0]
    born = born or {k: v for k, v in d.items()}
    if mine is True:
      outs = [v for a, v in facts if a.op == "truthy" and a.a[0].op == "attr" and a.a[0].a[1] == "outputs" and of(a.a[0].a[0], TK)]
      if False not in outs: ctx.check(all_topics(C(it, s, rg.args[1]) if len(rg.args) > 1 else NONE, TK, facts), R1, "schedule[topics]", "topics of some outputs are not in the topic space", rg.loc, s)
      if ctx.check(len(sch) == 1, R2, "schedule[each]", "a task of the deployment is not scheduled, or more than once", sch[0][1].loc if sch else c.file, s):
        j, e = sch[0]
        a = [C(it, s, x) for x in e.args] + [C(it, s, v) for _, v in e.kw or ()]
        t = next((x.a[0] for x in a if x.op == "attr" and x.a[1] == "task_host_id" and of(x.a[0], TK)), None)
        ctx.check(t is not None and a[0] is attr(t, "task_host_id"), R2, "schedule[host]", "a task is not scheduled on its own host", e.loc, s)
        ctx.check(len(a) > 1 and is_space(a[1]), R2, "schedule[in space]", "a task is not scheduled in the topic space of its deployment", e.loc, s)
        ctx.check(waited(e), R2, "schedule[waited]", "scheduling is not waited for", e.loc, s)
        f1 = [k for k, v in d.items() for x, y in entries_of(v) if t is not None and x is attr(t, "id") and from_result(y, e)]
        f2 = [k for k, v in d.items() for x, y in entries_of(v) if t is not None and x.op == "attr" and x.a[1] == "id" and from_result(x.a[0], e) and y is attr(t, "config")]
        if ctx.check(len(f1) == 1, R2, "schedule[instance]", "the instance is not kept under its task", e.loc, s): inst = f1[0]
        if ctx.check(len(f2) == 1, R2, "schedule[config]", "the configuration of a task is not kept under its instance", e.loc, s): conf = f2[0]
        ctx.check(j > sets[0][0], R1, "schedule[first]", "tasks are scheduled before the deployment counts as scheduled", e.loc, s)
        lst = [(k, x) for k, x in enumerate(ev) if x.kind == "setitem" and x.recv is not None and C(it, s, x.recv).op == "attr" and C(it, s, x.recv).a[0] is me and C(it, s, x.args[0]) is DID]
        if ctx.check(len(lst) == 1 and lst[0][0] > j, R5, "schedule[listening]", "nobody listens for changes of the scheduled instances", e.loc, s): listeners = C(it, s, lst[0][1].recv)
    done_any = True
  ctx.check(done_any, R2, "schedule", "deployments cannot be scheduled", c.file)
  if not (space and inst and conf): return
  # -- start
  became = []
  n = 0
  for s in w.subs("POST", P + "/start") or []:
    it, ev = w.it, s.events
    facts = cfacts(it, s)
    run = lambda t: looked_up(t, RD, DID)
    if impossible(facts, (D, TK)): continue
    st = [(i, e) for i, e in enumerate(ev) if e.kind == "call" and e.name == TMC + ".start_task"]
    some = [v for a, v in facts if a.op == "truthy" and a.a[0].op == "attr" and a.a[0].a[1] == inst and run(a.a[0].a[0])]
    ups = [(i, e) for i, e in enumerate(ev) if e.kind == "setattr" and e.recv is not None and run(C(it, s, e.recv))]
    if [a for a in web_answers(it, s) if a[1] is None or a[1] < 300]:
      b = {e.name: C(it, s, e.args[0]) for i, e in ups}
      if b not in became: became.append(b)
      if some and some[-1] or not some:
        ctx.check(len(st) == 1, R3, "start[each]", "an instance is not started, or more than once", c.file, s)
    for i, e in st:
      n += 1
      a = [C(it, s, x) for x in e.args] + [C(it, s, v) for _, v in e.kw or ()]
      x = a[0].a[0] if a and a[0].op == "attr" and a[0].a[1] == "id" else None
      g = get_of(x) if x is not None else None
      good = g is not None and g[0].op == "attr" and g[0].a[1] == inst and run(g[0].a[0])
      if not ctx.check(good, R3, "start[which]", "what is started are not the instances of the deployment", e.loc, s): continue
      ctx.check(len(a) > 1 and looked_up(a[1], attr(g[0].a[0], conf), a[0]), R3, "start[config]", "an instance is not started with the configuration of its task", e.loc, s)
      ctx.check(waited(e), R3, "start[waited]", "starting is not waited for", e.loc, s)
      ctx.check(all(j > i for j, y in ups), R3, "start[order]", "the deployment counts as started before its tasks are", e.loc, s)
      kept = [y for y in ev[i:] if y.kind == "setitem" and y.recv is not None and C(it, s, y.recv) is g[0] and C(it, s, y.args[0]) is g[1] and from_result(C(it, s, y.args[1]), e)]
      if s.kind == "return": ctx.check(bool(kept), R3, "start[kept]", "the started instance is not kept under its task", e.loc, s)
  ctx.check(n > 0, R3, "start", "deployments cannot be started", c.file)
  # -- stop
  n = 0
  for kind in ("", NOTFOUND, "builtins.RuntimeError"):
    w2 = w if not kind else Web(ctx, TWB, "run_asgi_server", RUNSTOP, models=ASKED, raises_fn=lambda e, st, kind=kind: [kind] if e.kind == "call" and e.name in (TMC + ".cancel_task_wait",) else [])
    for s in w2.subs("POST", P + "/stop") or []:
      it, ev = w2.it, s.events
      facts = cfacts(it, s)
      run = lambda t: looked_up(t, RD, DID)
      if impossible(facts, (D, TK)): continue
      can = [(i, e) for i, e in enumerate(ev) if e.kind == "call" and e.name in (TMC + ".cancel_task_wait", TMC + ".cancel_task")]
      some = [v for a, v in facts if a.op == "truthy" and a.a[0].op == "attr" and a.a[0].a[1] == inst and run(a.a[0].a[0])]
      gone = [i for i, e in enumerate(ev) if e.kind == "call" and call_of(e, "pop") and e.recv is not None and C(it, s, e.recv) is RD and C(it, s, e.args[0]) is DID or e.kind == "delitem" and e.recv is not None and C(it, s, e.recv) is RD and C(it, s, e.args[0]) is DID]
      if kind == "builtins.RuntimeError":
        if s.kind == "raise" and can: ctx.ok(R4, "stop[failed]")
        handled = [e for e in ev if e.kind == "handle" and e.name == kind and can]
        if handled: ctx.check(not gone, R4, "stop[failed]", "a deployment counts as stopped although an instance could not be cancelled", handled[0].loc, s)
        continue
      if kind == NOTFOUND and s.kind == "raise":
        ctx.check(not (can and not gone), R4, "stop[unknown]", "an instance that is not known any more keeps the deployment from being stopped", can[0][1].loc if can else "", s)
        continue
      if not [a for a in web_answers(it, s) if a[1] is None or a[1] < 300]: continue
      left = [e for e in ev if e.kind == "abandon"]
      ctx.check(not left, R4, "stop[all]", "an instance that is not known any more keeps others from being waited for", left[0].loc if left else "", s)
      if some and some[-1] or not some:
        if ctx.check(len(can) == 1 and can[0][1].name.endswith("_wait") and waited(can[0][1]), R4, "stop[each]", "an instance is not cancelled, or not waited for", c.file, s):
          i, e = can[0]
          a = C(it, s, e.args[0])
          g = get_of(a.a[0]) if a.op == "attr" and a.a[1] == "id" else None
          ctx.check(g is not None and g[0].op == "attr" and g[0].a[1] == inst and run(g[0].a[0]), R4, "stop[which]", "what is cancelled are not the instances of the deployment", e.loc, s)
          n += 1
      last = can[-1][0] if can else -1
      dl = [(i, e) for i, e in enumerate(ev) if e.kind == "call" and e.name == DELSPACE and len(e.args) > 1 and C(it, s, e.args[1]).op == "attr" and C(it, s, e.args[1]).a[1] == space and run(C(it, s, e.args[1]).a[0])]
      ctx.check(len(dl) == 1 and dl[0][0] > last and waited(dl[0][1]), R4, "stop[space]", "the topic space is not deleted, or before its tasks have ended", c.file, s)
      ctx.check(len(gone) == 1 and gone[0] > last and (not dl or gone[0] > dl[0][0]), R4, "stop[gone]", "the deployment does not stop counting as running, or before its tasks have ended", c.file, s)
      if listeners is not None:
        def lk(t): return looked_up(t, listeners, DID) or t.op == "call" and call_name(t) == "pop" and call_recv(t) is listeners and t.a[1] and t.a[1][0] is DID
        cn = [e for e in ev if e.kind == "call" and call_of(e, "cancel") and e.recv is not None and lk(C(it, s, e.recv))]
        none = any(a.op == "is" and v and NONE in a.a and any(lk(x) for x in a.a) or a.op == "truthy" and not v and lk(a.a[0]) or a.op == "in" and not v and a.a[1] is listeners for a, v in facts)
        ctx.check(bool(cn) or none, R4, "stop[listening]", "listening for a stopped deployment does not end", c.file, s)
  ctx.check(n > 0, R4, "stop", "deployments cannot be stopped", c.file)
  # -- updates
  n = 0
  for f in [x for x in c.methods.values() if any(isinstance(y, (ast.Assign, ast.Call)) and (isinstance(y, ast.Assign) and any(isinstance(z, ast.Subscript) and isinstance(z.value, ast.Attribute) and z.value.attr == inst for z in y.targets) or isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("update", "__setitem__") and isinstance(y.func.value, ast.Attribute) and y.func.value.attr == inst) for y in ast.walk(x.node)) and x.name != "run_asgi_server"]:
    it = ctx.interp(stop=RUNSTOP | {RECV + ".get"})
    for p in ctx.run(it, f, selfcls=c):
      for e in p.events:
        if e.kind != "setitem" or e.recv is None: continue
        m = C(it, p, e.recv)
        if m.op != "attr" or m.a[1] != inst: continue
        k, v = C(it, p, e.args[0]), C(it, p, e.args[1])
        got = contains(v, lambda y: y.op == "call" and call_name(y) == "get")
        ctx.check(got and under_its_task(k, v, m, cfacts(it, p, e.facts)), R5, f.qualname, "a change is kept under another task, or something else is kept", e.loc, p)
        n += 1
        for t in p.events:
          if t.kind == "call" and t.name == TMC + ".task_receiver":
            a = C(it, p, t.args[0])
            full = contains(a, m) and not contains(a, lambda y: y.op == "slice" or y.op == "comp" and any(not ok and not any(b.op == "truthy" and not v2 and contains(b.a[0], m) and b.a[0].op != "attr" or b.op == "truthy" and not v2 and b.a[0] is m for b, v2 in fs) for ok, fs, _ in y.a[2]))
            ctx.check(full, R5, f.qualname + "[all]", "changes of some instances are not heard of", t.loc, p)
  ctx.check(n > 0, R5, TWB, "reported changes are not kept", c.file)
  # -- shown
  after = [{**born, **b} for b in became] or [born]
  seen = set()
  for s in w.subs("GET", P) or []:
    it = w.it
    facts = cfacts(it, s)
    if impossible(facts, (D, TK)) or not [a for a in web_answers(it, s) if a[1] is None or a[1] < 300]: continue
    sets = [e for e in s.events if e.kind == "setattr" and e.name == "status" and e.recv is not None and of(C(it, s, e.recv), D)]
    v = C(it, s, sets[-1].args[0]) if sets else const("offline")
    for name, vals in [("offline", None), ("scheduled", born)] + [("running", x) for x in after]:
      if not fits(facts, RD, vals): continue
      seen.add(name)
      ctx.check(v is const(name), R6, f"GET[{name}]", f"a deployment that is {name} is shown as {v.a[0] if is_const(v) else 'something else'}", sets[-1].loc if sets else c.file, s)
  for x in ("offline", "scheduled", "running"): ctx.check(x in seen, R6, f"GET[{x}]", f"a {x} deployment cannot be shown", c.file)
  for s in w.subs("GET", P + "/tasks") or []:
    it = w.it
    facts = cfacts(it, s)
    if impossible(facts, (TK,)) or veq(facts, TK, "deployment_id", DID) is not True: continue
    els = [x for a, v in facts for x in subterms(a) if of(x, TK)]
    if not els: continue
    x = els[0]
    dep = attr(x, "deployment_id")
    sets = [C(it, s, e.args[0]) for e in s.events if e.kind == "setattr" and e.name == "task_instance" and e.recv is not None and C(it, s, e.recv) is x]
    r = in_run(facts, RD, dep)
    if r is True or r is None and sets:
      good = bool(sets) and (lambda g: g is not None and g[1] is attr(x, "id") and g[0].op == "attr" and g[0].a[1] == inst and get_of(g[0].a[0]) is not None and get_of(g[0].a[0])[0] is RD and get_of(g[0].a[0])[1] is dep)(get_of(sets[-1]))
      ctx.check(good, R6, "GET tasks", "a task of a running deployment is not shown with its own instance", c.file, s)


def under_its_task(k, v, m, facts):
  """is the key the one under which the instance with the id of v is kept in m?"""
  idv = attr(v, "id")
  g = get_of(k)
  if g is not None and g[0].op in ("comp", "lit") and g[1] is idv:      # a map from instances to tasks
    es = [e for ok, _, e in g[0].a[2] if ok] if g[0].op == "comp" else list(g[0].a[1:])
    return all(e is not None and e.op in ("tuple", "kv") and e.a[0].op == "attr" and e.a[0].a[1] == "id" and get_of(e.a[0].a[0]) is not None and get_of(e.a[0].a[0])[0] is m and get_of(e.a[0].a[0])[1] is e.a[1] for e in es)
  for a, b in facts:
    if a.op == "eq" and b and idv in a.a:
      y = a.a[0] if a.a[1] is idv else a.a[1]
      h = get_of(y.a[0]) if y.op == "attr" and y.a[1] == "id" else None
      if h is not None and h[0] is m and h[1] is k: return True
  return False


def fits(facts, RD, vals):
  """can what is known be true of a deployment that is not running (None), or runs with these values?"""
  def here(t): return (get_of(t) or (None,))[0] is RD
  for a, v in facts:
    r = None
    if a.op == "in" and a.a[1] is RD: r = vals is not None
    elif a.op == "is" and NONE in a.a and any(here(x) for x in a.a): r = vals is None
    elif a.op == "truthy" and here(a.a[0]): r = vals is not None
    elif contains(a, lambda y: y.op == "attr" and here(y.a[0])):
      if vals is None: return False
      x = next(y for y in subterms(a) if y.op == "attr" and here(y.a[0]))
      z = vals.get(x.a[1])
      if z is not None:
        if a.op == "truthy" and a.a[0] is x and is_const(z): r = bool(z.a[0])
        elif a.op == "is" and NONE in a.a and x in a.a: r = z is NONE
        elif a.op in ("eq", "is") and x in a.a and is_const(z):
          o = a.a[0] if a.a[1] is x else a.a[1]
          if is_const(o): r = z.a[0] == o.a[0]
    if r is not None and r is not v: return False
  return True


RULES = {"S07": s07}
