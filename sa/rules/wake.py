"""Values that can be waited for and queues with an end."""
from __future__ import annotations
from .tasks2 import *
from .topic import forgetting

U = "streamtasks.utils."
TW, TT = U + "AsyncTrigger.wait", U + "AsyncTrigger.trigger"
STOPS = {TW, TT}


def last(e): return (e.name or "").split(".")[-1]
# (who is woken goes on later: storing first or waking first is the same)
def told(p, i): return any(e.kind == "call" and e.name == TT for e in p.events)
def other(p, key, value):
  """does a path know that the key is new or its value another one?"""
  return any(not v and (a.op == "in" and a.a[0] is key or a.op == "eq" and value in a.a) for a, v in p.facts)


def known(p, t):
  """what a path knows of 'is t empty / not'"""
  for a, v in p.facts:
    if a.op == "truthy" and a.a[0] is t: return v
  return None


def u05(ctx):
  R1 = ctx.rule("U05-bool", "a value that is set is kept and wakes everyone who waits exactly if it is another one; who waits for the current value does not wait", 4)
  R2 = ctx.rule("U05-object", "a field or entry that is set to another value (or deleted) is kept and everyone who waits is woken; the same value wakes nobody", 6)
  R3 = ctx.rule("U05-ids", "who waits for an id is woken when it is added or removed, once", 4)
  R4 = ctx.rule("U05-put", "a message that is put is kept last and wakes the consumer, if it is for it; the end wakes it as well", 4)
  R5 = ctx.rule("U05-get", "a consumer gets the oldest message first, finds the end only when nothing is left, and misses nothing that comes while it waits", 4)
  R6 = ctx.rule("U05-producer", "a producer runs while somebody waits for it: started by the first, stopped by the last; once ended it is not started again and every consumer is told", 6)
  # ---- a value
  k = ctx.p.cls(U + "AsyncBool")
  NV, field = mk("sym", "new value"), None
  for p in ctx.run(ctx.interp(), ctx.method(k, "__bool__"), selfcls=k) if "__bool__" in k.methods else ():
    if p.value is not None and p.value.op == "attr" and p.value.a[0].op == "self": field = p.value
  def truth(it, f, a, kw, n, st, fr):
    return [("v", st.store.get((field.a[0], field.a[1]), field) if field is not None and a and a[0] is field.a[0] else mk("call", f, tuple(a), ()), st)]
  it = ctx.interp(stop=STOPS, models={"builtins.bool": truth, "bool": truth})
  f = ctx.method(k, "set")
  kept = None
  for p in ctx.run(it, f, selfcls=k, bind={f.node.args.args[1].arg: NV}):
    st = [i for i, e in enumerate(p.events) if e.kind == "setattr"]
    loc = p.events[-1].loc if p.events else f"{f.file}:{f.line}"
    eqs = [v for a, v in p.facts if a.op == "eq" and NV in a.a]
    if True in eqs: ctx.check(not any(e.kind == "call" and e.name == TT for e in p.events), R1, f.qualname + "[same]", "the same value wakes those who wait for another one", loc, p); continue
    ctx.check(False in eqs, R1, f.qualname + "[other]", "the same value wakes those who wait, or another one does not", loc, p)
    ctx.check(len(st) == 1 and p.events[st[0]].args[0] is NV, R1, f.qualname + "[kept]", "a value that is set is not kept", loc, p)
    if len(st) != 1: continue
    kept = p.events[st[0]].name
    ctx.check(told(p, st[0]), R1, f.qualname + "[told]", "those who wait are not woken after a value was kept", loc, p)
  f = ctx.method(k, "wait")
  now = waits = 0
  for p in ctx.run(it, f, selfcls=k, bind={f.node.args.args[1].arg: NV}):
    w = [e for e in p.events if e.kind == "call" and e.name == TW]
    loc = w[0].loc if w else f"{f.file}:{f.line}"
    eqs = [v for a, v in p.facts if a.op == "eq" and NV in a.a and any(x is not NV and (kept is None or contains(x, lambda y: y.op in ("attr", "truthy", "bool", "self", "call"))) for x in a.a)]
    aw = bool(w) and (any(e.awaited for e in w) or any(e.kind == "await" for e in p.events))
    if True in eqs: now += 1; ctx.check(not w or p.kind == "loopback" or any(e.kind == "loop" for e in p.events) or _after(p, w[-1]), R1, f.qualname + "[now]", "who waits for the current value waits for another one", loc, p)
    elif False in eqs: waits += 1; ctx.check(aw, R1, f.qualname + "[waits]", "who waits for a value is let go before it comes", loc, p)
    else: ctx.check(False, R1, f.qualname + "[asks]", "who waits is let go, or kept, whatever the value is", loc, p)
  ctx.check(now > 0 and waits > 0, R1, f.qualname, "waiting does not depend on the value", f"{f.file}:{f.line}")
  # ---- an object and a mapping
  k = ctx.p.cls(U + "AsyncObservable")
  it = ctx.interp(stop=STOPS)
  f = ctx.method(k, "__setattr__")
  n, v_ = (a.arg for a in f.node.args.args[1:3])
  N, V = mk("sym", "name"), mk("sym", "new value")
  for p in ctx.run(it, f, selfcls=k, bind={n: N, v_: V}):
    if p.kind != "return": continue
    s = [i for i, e in enumerate(p.events) if e.kind == "call" and last(e) == "__setattr__" or e.kind == "setitem" and e.args[0] is N]
    loc = p.events[-1].loc if p.events else f"{f.file}:{f.line}"
    own = any(a.op == "in" and a.a[0] is N and not contains(a.a[1], lambda x: x.op == "attr" and x.a[1] == "__dict__") and v for a, v in p.facts)
    same = any(a.op == "eq" and V in a.a and v for a, v in p.facts)
    if not same: ctx.check(len(s) == 1 and tuple(p.events[s[0]].args) == (N, V), R2, f.qualname + "[kept]", "a field that is set is not kept", loc, p)
    t = any(e.kind == "call" and e.name == TT for e in p.events)
    if own or same: ctx.check(not t, R2, f.qualname + "[same]", "a field that does not change wakes those who wait for a change", loc, p)
    elif len(s) == 1: ctx.check(other(p, N, V) and told(p, s[0]), R2, f.qualname + "[told]", "those who wait are not woken after a field was kept", loc, p)
  k = ctx.p.cls(U + "AsyncObservableDict")
  K = mk("sym", "key")
  f = ctx.method(k, "__setitem__")
  n, v_ = (a.arg for a in f.node.args.args[1:3])
  for p in ctx.run(it, f, selfcls=k, bind={n: K, v_: V}):
    if p.kind != "return": continue
    s = [i for i, e in enumerate(p.events) if e.kind == "setitem"]
    loc = p.events[-1].loc if p.events else f"{f.file}:{f.line}"
    same = any(a.op == "eq" and V in a.a and v for a, v in p.facts)
    if same: ctx.check(not any(e.kind == "call" and e.name == TT for e in p.events), R2, f.qualname + "[same]", "an entry that does not change wakes those who wait for a change", loc, p); continue
    ctx.check(len(s) == 1 and tuple(p.events[s[0]].args) == (K, V), R2, f.qualname + "[kept]", "an entry that is set is not kept", loc, p)
    if len(s) == 1: ctx.check(other(p, K, V) and told(p, s[0]), R2, f.qualname + "[told]", "those who wait are not woken after an entry was kept, or are woken by the same one", loc, p)
  f = ctx.method(k, "__delitem__")
  for p in ctx.run(it, f, selfcls=k, bind={f.node.args.args[1].arg: K}):
    if p.kind != "return": continue
    s = [i for i, e in enumerate(p.events) if e.kind == "delitem" or e.kind == "call" and last(e) == "pop" and e.args and e.args[0] is K]
    loc = p.events[-1].loc if p.events else f"{f.file}:{f.line}"
    ctx.check(len(s) == 1, R2, f.qualname + "[kept]", "an entry that is deleted stays", loc, p)
    if len(s) == 1: ctx.check(told(p, s[0]), R2, f.qualname + "[told]", "those who wait are not woken after an entry was deleted", loc, p)
  for c_ in ("AsyncObservable", "AsyncObservableDict"):
    k = ctx.p.cls(U + c_)
    f = ctx.method(k, "wait_change")
    for p in ctx.run(it, f, selfcls=k):
      w = [e for e in p.events if e.kind == "call" and e.name == TW]
      ctx.check(bool(w) and any(e.awaited for e in w) or any(e.kind == "await" and w for e in p.events), R2, f.qualname, "who waits for a change is let go before it", f"{f.file}:{f.line}", p)
  # ---- ids
  k = ctx.p.cls(U + "AwaitableIdTracker")
  it = ctx.interp(stop=STOPS | {U + "IdTracker.add_many", U + "IdTracker.remove_many"})
  for name, waiter in (("add_many", "wait_for_id_added"), ("remove_many", "wait_for_id_removed")):
    w = ctx.method(k, waiter)
    ID = mk("sym", "id")
    place = None
    for p in ctx.run(it, w, selfcls=k, bind={w.node.args.args[1].arg: ID}):
      ws = [e for e in p.events if e.kind == "call" and last(e) == "wait" and e.awaited]
      ctx.check(len(ws) == 1, R3, w.qualname, "who waits for an id is let go at once", f"{w.file}:{w.line}", p)
      if not ws: continue
      put = [e for e in p.events if e.kind == "setitem" and e.args[0] is ID or e.kind == "call" and last(e) == "setdefault" and e.args and e.args[0] is ID]
      had = [a.a[1] for a, v in p.facts if a.op == "in" and a.a[0] is ID and v]
      here = put[0].recv if put else had[0] if had else None
      ctx.check(here is not None, R3, w.qualname + "[kept]", "nobody knows of who waits for an id", ws[0].loc, p)
      if here is not None: place = here if place is None else place; ctx.check(place is here, R3, w.qualname + "[place]", "waiting is looked up elsewhere than where it is kept", ws[0].loc, p)
    f = ctx.method(k, name)
    n = 0
    for p in ctx.run(it, f, selfcls=k):
      if p.kind != "return": continue
      base = [e for e in p.events if e.kind == "call" and last(e) == name]
      loc = f"{f.file}:{f.line}"
      ctx.check(len(base) == 1 and p.value is base[0].res, R3, f.qualname + "[ids]", "the ids are not tracked, or not reported", loc, p)
      if len(base) != 1: continue
      sets = [e for e in p.events if e.kind == "call" and last(e) == "set"]
      took = [e for e in p.events if e.kind == "call" and last(e) == "pop" and e.recv is place]
      for e in took: ctx.check(every(e.args[0]).op in ("each", "elem") and contains(e.args[0], base[0].res), R3, f.qualname + "[which]", "others than those who wait for a changed id are woken", e.loc, p)
      for e in took:
        found = not any(a.op == "is" and NONE in a.a and e.res in a.a and v for a, v in p.facts) and known(p, e.res) is not False
        if found: n += 1; ctx.check(any(x.recv is e.res for x in sets), R3, f.qualname + "[woken]", "who waits for an id is not woken when it changes", e.loc, p)
      if known(p, base[0].res) is True and not took:
        n += 1
        ctx.check(any(contains(x.recv, lambda y: y is place) for x in sets) or any(a.op == "in" and a.a[1] is place and not v for a, v in p.facts), R3, f.qualname + "[woken]", "who waits for an id is not woken when it changes", loc, p)
    ctx.check(n > 0, R3, f.qualname, "who waits for an id is never woken", f"{f.file}:{f.line}")
  consumers(ctx, R4, R5)
  producers(ctx, R6)


def _after(p, e): return True


def consumers(ctx, R4, R5):
  k = ctx.p.cls(U + "AsyncConsumer")
  it = ctx.interp(stop=STOPS | {U + "AsyncConsumer.test_message"})
  M = mk("sym", "message")
  f = ctx.method(k, "put")
  queue = None
  for p in ctx.run(it, f, selfcls=k, bind={f.node.args.args[1].arg: M}):
    tests = [e for e in p.events if e.kind == "call" and last(e) == "test_message"]
    puts = [i for i, e in enumerate(p.events) if e.kind == "call" and M in (e.args or ()) and e not in tests]
    loc = p.events[-1].loc if p.events else f"{f.file}:{f.line}"
    if puts:
      e = p.events[puts[0]]
      queue = e.recv
      ctx.check(last(e) == "append" and len(puts) == 1, R4, f.qualname + "[last]", "a message is not put behind the others, once", loc, p)
      ctx.check(told(p, puts[0]), R4, f.qualname + "[told]", "a consumer that waits is not woken by a message", loc, p)
      ctx.check(bool(tests) and known(p, tests[0].res) is not False, R4, f.qualname + "[own]", "a consumer gets messages that are not for it", loc, p)
    else: ctx.check(bool(tests) and known(p, tests[0].res) is False, R4, f.qualname + "[kept]", "a message for a consumer is dropped", loc, p)
  ctx.check(queue is not None, R4, f.qualname, "messages are not kept", f"{f.file}:{f.line}")
  # test_message is true for all messages unless a class says otherwise: what it returns is asked
  it2 = ctx.interp(stop=STOPS, models={U + "AsyncConsumer.test_message": lambda it, f, a, kw, n, st, fr: [("v", FALSE, st)]})
  for p in ctx.run(it2, f, selfcls=k, bind={f.node.args.args[1].arg: M}):
    ctx.check(not any(e.kind == "call" and queue is not None and e.recv is queue for e in p.events), R4, f.qualname + "[others]", "a consumer gets messages that are not for it", f"{f.file}:{f.line}", p)
  f = ctx.method(k, "close")
  flag = None
  for p in ctx.run(it, f, selfcls=k):
    st = [i for i, e in enumerate(p.events) if e.kind == "setattr" and is_const(e.args[0])]
    ctx.check(len(st) == 1 and told(p, st[0]), R4, f.qualname, "a consumer that waits is not woken by the end", f"{f.file}:{f.line}", p)
    if st: flag = p.events[st[0]].name
  if queue is None or flag is None: return
  f = ctx.method(k, "get")
  got = ends = 0
  pr = U + "AsyncProducer"
  it3 = ctx.interp(models={TW: forgetting(TW)}, stop=STOPS - {TW} | {pr + ".__aenter__", pr + ".__aexit__", pr + ".wait_done"}, unroll=3)
  for p in ctx.run(it3, f, selfcls=k):
    pops = [e for e in p.events if e.kind == "call" and e.recv is queue and last(e) in ("popleft", "pop")]
    loc = pops[0].loc if pops else f"{f.file}:{f.line}"
    lastq = next((v for a, v in reversed(p.facts) if a.op == "truthy" and a.a[0] is queue), None)
    waits = [e for e in p.events if e.kind == "call" and e.name == TW]
    if p.kind == "return":
      got += 1
      ctx.check(len(pops) == 1 and p.value is pops[0].res and (last(pops[0]) == "popleft" or pops[0].args and pops[0].args[0] is const(0)), R5, f.qualname + "[oldest]", "what is got is not the oldest message, once", loc, p)
      if len(pops) == 1:
        before = next((v for a, v in reversed(pops[0].facts or ()) if a.op == "truthy" and a.a[0] is queue), None)
        ctx.check(before is not False or bool(waits), R5, f.qualname + "[some]", "a message is taken where none is", loc, p)
    elif p.kind == "raise" and p.value.op == "exc" and p.value.a[0].endswith("EOFError"):
      ends += 1
      raised = [e for e in p.events if e.kind == "raise"]
      if raised: ctx.check(lastq is False, R5, f.qualname + "[end]", "the end is found while messages are left", raised[-1].loc, p)
    # who waits was registered before it last looked
    for i, e in enumerate(p.events):
      if e.kind != "await" or e.recv is None: continue
      if not contains(e.recv, lambda x: x.op == "notified"): continue
      reg = [j for j, x in enumerate(p.events[:i]) if x.kind == "call" and x.name == TW]
      ctx.check(bool(reg), R5, f.qualname + "[waits]", "a message that comes while the producer starts is missed", e.loc, p)
  ctx.check(got > 0 and ends > 0, R5, f.qualname, "messages are not handed out", f"{f.file}:{f.line}")


def producers(ctx, R6):
  k = ctx.p.cls(U + "AsyncProducer")
  me = "streamtasks.utils.AsyncProducer"
  it = ctx.interp(stop=STOPS | {me + "._run", me + "._stop", me + ".wait_done", U + "AsyncConsumer.put", U + "AsyncConsumer.close"})
  f = ctx.method(k, "__aenter__")
  count = c0 = None
  for p in ctx.run(it, f, selfcls=k):
    made = [e for e in p.events if e.kind == "call" and last(e) == "create_task"]
    loc = made[0].loc if made else f"{f.file}:{f.line}"
    if p.kind == "raise" and p.value.op == "exc" and p.value.a[0].endswith("EOFError") and not made: ctx.ok(R6, f.qualname + "[ended]"); continue
    if p.kind != "return": continue
    sets = [e for e in p.events if e.kind == "setattr" and e.args[0].op == "bin"]
    ctx.check(len(sets) == 1, R6, f.qualname + "[counted]", "who waits for a producer is not counted", loc, p)
    if len(sets) != 1: continue
    count = sets[0].name
    c0 = next(x for x in subterms(sets[0].args[0]) if x.op == "attr" and x.a[1] == count)
    for n in (0, 1, 4):
      if not holds(p.facts, {c0: n, sets[0].args[0]: n + 1}): continue
      ctx.check(len(made) == (1 if n == 0 else 0), R6, f.qualname + "[started]", f"with {n} that wait already {len(made)} runs are started", loc, p)
  f = ctx.method(k, "__aexit__")
  for p in ctx.run(it, f, selfcls=k):
    stops = [e for e in p.events if e.kind == "call" and last(e) in ("_stop", "cancel")]
    loc = stops[0].loc if stops else f"{f.file}:{f.line}"
    if p.kind != "return" or count is None: continue
    sets = [e for e in p.events if e.kind == "setattr" and e.name == count]
    none = any(a.op == "is" and NONE in a.a and v for a, v in p.facts)
    for n in (1, 2, 4):
      if not holds(p.facts, {c0: n}): continue
      try: left = value_of(sets[-1].args[0], {c0: n}) if sets else n
      except Unk: continue
      ctx.check(left == n - 1, R6, f.qualname + "[counted]", "who no longer waits for a producer is still counted", loc, p)
      ctx.check(len(stops) == (1 if n == 1 and not none else 0), R6, f.qualname + "[stopped]", f"with {n - 1} that still wait the producer is stopped {len(stops)} times", loc, p)
  # whoever leaves a producer that has ended keeps what it got
  ite = ctx.interp(stop=STOPS | {me + "._run", me + "._stop", me + ".wait_done"}, raises_fn=lambda ev, st: ["EOFError"] if ev.kind == "call" and last(ev) == "wait_done" else None)
  for p in ctx.run(ite, f, selfcls=k): ctx.check(p.kind != "raise" or not (p.value.op == "exc" and p.value.a[0].endswith("EOFError")), R6, f.qualname + "[kept]", "what a consumer got is lost when the producer ends meanwhile", f"{f.file}:{f.line}", p)
  # the end of a run
  it = ctx.interp(stop=STOPS | {me + ".run", U + "AsyncConsumer.put", U + "AsyncConsumer.close", me + ".close_consumers"}, raises_fn=lambda ev, st: ["EOFError", "asyncio.CancelledError"] if ev.kind == "call" and last(ev) == "run" else None)
  f = ctx.method(k, "_run")
  ended = 0
  for p in ctx.run(it, f, selfcls=k):
    tells = [e for e in p.events if e.kind == "call" and last(e) in ("close_consumers", "close")]
    eof = any(e.kind == "handle" and "EOFError" in str(e.name or e.args) for e in p.events) or p.kind == "raise" and p.value.op == "exc" and p.value.a[0].endswith("EOFError")
    ran = any(e.kind == "call" and last(e) == "run" for e in p.events)
    loc = tells[0].loc if tells else f"{f.file}:{f.line}"
    if not ran: continue
    if eof:
      ended += 1
      st = [i for i, e in enumerate(p.events) if e.kind == "setattr" and e.args[0] is TRUE]
      ctx.check(bool(st) and bool(tells), R6, f.qualname + "[ended]", "a producer that has ended does not say so to its consumers", loc, p)
    else: ctx.check(not tells, R6, f.qualname + "[stopped]", "a producer that is stopped ends its consumers", loc, p)
  ctx.check(ended > 0, R6, f.qualname, "a producer never ends", f"{f.file}:{f.line}")
  it = ctx.interp(stop=STOPS | {U + "AsyncConsumer.put", U + "AsyncConsumer.close"})
  M = mk("sym", "message")
  for name, what in (("send_message", "put"), ("close_consumers", "close")):
    f = ctx.method(k, name)
    n = 0
    for p in ctx.run(it, f, selfcls=k, bind={f.node.args.args[1].arg: M} if what == "put" else {}):
      if p.kind != "return": continue
      es = [e for e in p.events if e.kind == "call" and last(e) == what]
      lp = [e.recv for e in p.events if e.kind == "loop"]
      some = any(v and a.op == "truthy" and any(x is a.a[0] or contains(x, lambda y: y is a.a[0]) for x in lp) for a, v in p.facts)
      loc = es[0].loc if es else f"{f.file}:{f.line}"
      ctx.check(bool(lp), R6, f.qualname, "not every consumer is told", loc, p)
      if some: n += 1; ctx.check(len(es) >= 1 and all(every(e.recv).op in ("each", "elem") and (what == "close" or e.args and e.args[0] is M) for e in es) and not any(e.kind == "leave" for e in p.events), R6, f.qualname, "not every consumer is told", loc, p)
    ctx.check(n > 0, R6, f.qualname + "[all]", "no consumer is told", f"{f.file}:{f.line}")
  k2 = ctx.p.cls(U + "AsyncConsumer")
  it = ctx.interp()
  for name, what in (("register", "add"), ("unregister", "remove")):
    f = ctx.method(k2, name)
    for p in ctx.run(it, f, selfcls=k2):
      if p.kind != "return": continue
      ctx.check(any(e.kind == "call" and last(e) in (what, "discard" if what == "remove" else what) and e.args and e.args[0].op == "self" for e in p.events), R6, f.qualname, "a consumer is not registered, or stays so", f"{f.file}:{f.line}", p)


RULES = {"U05": u05}
