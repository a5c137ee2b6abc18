"""Clients: receivers, announcements, fetch and signals, discovery, topics."""
from __future__ import annotations
import ast
from ..tev import ev, holds, envs, Unk, Inst
from .conn import *
from . import net2

CL = "streamtasks.client.Client"
RECV = "streamtasks.client.receiver.Receiver"
IDT = "streamtasks.utils.IdTracker"
FETCH = "streamtasks.client.fetch"
TOPIC = "streamtasks.client.topic"
CANCEL = "asyncio.CancelledError"
RAW = {"streamtasks.net.serialization.RawData": lambda it, f, a, k, n, st, fr: [("v", mk("raw", *(list(a) + [v for _, v in k])), st)]}
MSGNS = "streamtasks.net.messages."


def calls(p, *names): return [e for e in p.events if e.kind == "call" and (e.name in names or any(n.startswith(".") and e.fterm is not None and (e.fterm.op == "attr" and e.fterm.a[1] == n[1:] or (e.name or "").endswith(n)) for n in names))]


def at(f): return f"{f.file}:{f.line}"


def awaits_after(p, i): return [e for e in p.events[i + 1:] if e.kind == "await" or e.kind == "call" and e.awaited]


def final(p, me, name, default=None):
  """value last stored in a field on a path"""
  v = default
  for e in p.events:
    if e.kind == "setattr" and e.name == name and e.recv is me: v = e.args[0]
  return v


def norm_of(it, p): return lambda t: it.norm(t, p.st)


# ------------------------------------------------------------------ C01 receive loop
def receive_task_field(ctx):
  """(field holding the receive task, function it runs)"""
  c = ctx.p.cls(CL)
  f = ctx.method(c, "enable_receiver")
  me = mk("self", CL)
  for p in ctx.run(ctx.interp(), f, selfcls=c):
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and contains(e.args[0], lambda s: ext_call(s, "asyncio.create_task") or ext_call(s, "asyncio.ensure_future")):
        for s in subterms(e.args[0]):
          if s.op in ("bound", "attr") and s.a[0] is me and isinstance(s.a[1], str):
            g = c.methods.get(s.a[1].split(".")[-1])
            if g is not None and g.node is not f.node: return e.name, g
          if s.op == "coro":
            h = p.st.heap.get(s.a[1])
            if h: return e.name, h[1][0]
  return None, None


def c01(ctx):
  R1 = ctx.rule("delivers", "the receive loop hands every received message to every enabled receiver once, except topic messages of topics the client did not subscribe to", 2)
  R2 = ctx.rule("survives", "a receiver that fails on a message neither ends the loop nor keeps the message from the other receivers", 1)
  R3 = ctx.rule("task-alive", "after enabling a receiver a receive task that nobody is stopping runs: enabling registers and starts one when there is none, and whoever stops the task forgets it before anybody else can run", 3)
  R4 = ctx.rule("paired", "the first start enables a receiver, the last stop disables it, a start that fails or is cancelled leaves it disabled", 8)
  R5 = ctx.rule("subscriptions-paired", "each receiver unsubscribes on stop exactly the topics it subscribed on start", 3)
  c = ctx.p.cls(CL)
  me = mk("self", CL)
  F, loop = receive_task_field(ctx)
  en, dis = ctx.method(c, "enable_receiver"), ctx.method(c, "disable_receiver")
  if not ctx.check(F is not None, R3, en.qualname, "enabling a receiver starts no receive task", at(en)): return
  msg = mk("rmsg")
  model = {LINK + ".recv": lambda it, f, a, k, n, st, fr: [("v", msg, st)]}
  subs = set()
  g = ctx.method(c, "register_in_topics")
  for p in ctx.run(ctx.interp(stop={IDT + ".add_many"}), g, selfcls=c): subs |= {e.recv for e in p.events if e.kind == "call" and e.name == IDT + ".add_many"}
  # dispatch
  for kind in ("ok", "builtins.ValueError", "builtins.KeyError", "builtins.TypeError", "any"):
    it = ctx.interp(stop={LINK + ".recv", IDT + ".change_many"}, await_map={mk("x"): NONE}, raises_fn=lambda e, st: [kind] if kind != "ok" and e.kind == "call" and call_of(e, "on_message") else [])
    rc = None
    for p in ctx.run(it, loop, selfcls=c):
      got = [e for e in p.events if e.kind == "call" and e.name == LINK + ".recv"]
      if not got: continue
      lst = attr(me, receivers_field(ctx))
      changed = [e for e in p.events if e.kind == "setattr" and e.recv is me and e.name == lst.a[1] or e.kind in ("setitem", "delitem") and e.recv is not None and e.recv is lst
                 or e.kind == "call" and e.recv is lst and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] in MUTATORS]
      ctx.check(not changed, R1 if kind == "ok" else R2, loop.qualname + "[list]", "delivering a message changes which receivers are enabled", at(loop), p)
      M = mk("awaited", got[0].res)
      i = p.events.index(got[0])
      if kind != "ok":
        if any(e.kind == "handle" or e.kind == "call" and call_of(e, "on_message") for e in p.events):
          ctx.check(p.kind != "raise", R2, loop.qualname, f"a {kind.split('.')[-1]} of one receiver ends the loop for all", at(loop), p)
          om = [e for e in p.events if e.kind == "call" and call_of(e, "on_message")]
          inside = all(om and len(e.loops or ()) >= len(om[-1].loops or ()) for e in p.events if e.kind == "handle")
          ctx.check(goes_on(p) and inside and not early(p, me), R2, loop.qualname + "[others]", "a failing receiver keeps the message from the others", at(loop), p)
        continue
      if p.kind == "raise": ctx.fail(R1, loop.qualname + "[raises]", f"the loop ends with {show(p.value)[:60]}", at(loop), p); continue
      if not ctx.check(goes_on(p), R1, loop.qualname + "[ends]", "the loop ends after a message", at(loop), p): continue
      tm = fact(p.facts, mk("isinst", M, MSGNS + "TopicMessage"))
      if tm is None and any(a.op == "isinst" and a.a[0] is M and v and not topical(ctx, a.a[1]) for a, v in p.facts): tm = False
      sub = next((v for a, v in p.facts if a.op == "in" and a.a[0] is attr(M, "topic") and strip(a.a[1]) in subs), None)
      seen = [e for e in p.events[i:] if e.kind == "call" and call_of(e, "on_message")]
      walked = [e for e in p.events[i:] if e.kind == "loop" and e.recv is not None and strip(e.recv) is attr(me, receivers_field(ctx))]
      nondelivery = not walked and not seen
      if nondelivery: ctx.check(tm is True and sub is False, R1, loop.qualname + "[dropped]", "a message is dropped although it is no topic message of an unsubscribed topic", at(loop), p)
      else:
        ctx.check(tm is False or sub is True, R1, loop.qualname + "[unsubscribed]", "a topic message of a topic nobody subscribed to is handed to receivers", at(loop), p)
        ctx.check(len(walked) == 1 and len(seen) <= 1, R1, loop.qualname, "a message is handed to the receivers more than once", at(loop), p)
        none = fact(p.facts, mk("truthy", attr(me, receivers_field(ctx)))) is False
        ctx.check(none or len(seen) == 1 and seen[0].args[0] is M and elem_of(seen[0].recv, attr(me, receivers_field(ctx))) is not None, R1, loop.qualname, "not every enabled receiver gets the message", at(loop), p)
        fs = [(a, v) for e in seen for a, v in p.facts if contains(a, e.recv)]
        ctx.check(not fs, R1, loop.qualname + "[every]", "whether a receiver gets a message depends on the receiver", at(loop), p)
        ctx.check(not early(p, me), R1, loop.qualname + "[every]", "the remaining receivers are skipped", at(loop), p)
  # enable
  r = mk("param", en.node.args.args[1].arg, en.qualname)
  for p in ctx.run(ctx.interp(), en, selfcls=c):
    if p.kind != "return": continue
    add = [e for e in p.events if e.kind == "call" and call_of(e, "append") and e.recv is attr(me, receivers_field(ctx)) and e.args[0] is r]
    ctx.check(len(add) == 1, R3, en.qualname + "[registers]", "the receiver is not registered once", at(en), p)
    mine = attr(me, F)
    had = fact(p.facts, mk("truthy", mine)) is True or fact(p.facts, mk("is", mine, NONE)) is False
    made = any(e.kind == "setattr" and e.recv is me and e.name == F and contains(e.args[0], lambda s: ext_call(s, "asyncio.create_task") or ext_call(s, "asyncio.ensure_future")) for e in p.events)
    ctx.check(had or made, R3, en.qualname, "no receive task runs afterwards", at(en), p)
    ctx.check(not (had and made), R3, en.qualname + "[one]", "a second receive task is started", at(en), p)
  # disable and others that stop the task
  for fn in [m for m in c.methods.values() if m.node is not en.node]:
    for p in ctx.run(ctx.interp(stop={LINK + ".recv", IDT + ".change_many"}), fn, selfcls=c):
      for i, e in enumerate(p.events):
        if e.kind == "call" and call_of(e, "cancel") and e.recv is attr(me, F):
          if any(x.kind == "call" and call_of(x, "clear") for x in p.events[:i]): continue      # the whole client stops
          nxt = next((k for k in range(i + 1, len(p.events)) if p.events[k].kind == "await" or p.events[k].kind == "call" and p.events[k].awaited), len(p.events))
          ok = any(x.kind == "setattr" and x.recv is me and x.name == F and x.args[0] is not attr(me, F) for x in p.events[:nxt])
          ctx.check(ok, R3, fn.qualname, "others can still find the receive task while it is being stopped, so a receiver enabled then is never served", e.loc, p)
    if fn.node is loop.node:
      for p in ctx.run(ctx.interp(stop={LINK + ".recv", IDT + ".change_many"}, cancel=True), fn, selfcls=c):
        if p.kind != "raise" or not contains(p.value, lambda s: s.op == "exc" and s.a[0] == CANCEL): continue
        for e in p.events:
          if e.kind == "setattr" and e.recv is me and e.name == F:
            own = any(a.op in ("eq", "is") and v and attr(me, F) in a.a and any(ext_call(x, "asyncio.current_task") for x in a.a) for a, v in p.facts)
            ctx.check(own, R3, fn.qualname, "a stopped receive task forgets the one that was started in its place", e.loc, p)
  rm = 0
  r = mk("param", dis.node.args.args[1].arg, dis.qualname)
  for p in ctx.run(ctx.interp(), dis, selfcls=c):
    if p.kind != "return": continue
    ok = any(e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] == "remove" and e.recv is attr(me, receivers_field(ctx)) and e.args[0] is r for e in p.events) or any(e.kind == "setattr" and e.name == receivers_field(ctx) for e in p.events)
    ctx.check(ok, R3, dis.qualname + "[unregisters]", "a disabled receiver still gets messages", at(dis), p)
  # start / stop
  rb = ctx.p.cls(RECV)
  rme = mk("self", RECV)
  st, sp = ctx.method(rb, "start_recv"), ctx.method(rb, "stop_recv")
  EN, DIS = CL + ".enable_receiver", CL + ".disable_receiver"
  cfgs = [("ok", None)] + [(k, n) for k in (CANCEL, "builtins.OSError", FETCH + ".FetchError") for n in ("_on_start_recv", "sleep")]
  cnt = count_field(ctx, st, rme)
  for kind, where in cfgs:
    if where == "sleep" and kind != CANCEL: continue
    it = ctx.interp(stop={EN, DIS, RECV + "._on_start_recv"}, raises_fn=lambda e, s: [kind] if where and e.kind == "call" and e.awaited and call_of(e, where) else [])
    for p in ctx.run(it, st, selfcls=rb):
      ens = [e for e in p.events if e.kind == "call" and e.name == EN]
      diss = [e for e in p.events if e.kind == "call" and e.name == DIS]
      for n in range(4):
        env = {attr(rme, cnt): n} if cnt else {}
        if not holds(p.facts, env): continue
        if p.kind == "raise":
          ctx.check(len(diss) >= len(ens) and ens, R4, st.qualname + "[failed]", f"a start ended by a {show(p.value)[5:40]} leaves the receiver enabled", at(st), p)
          v = final(p, rme, cnt) if cnt else None
          try: left = ev(v, env) if v is not None else n
          except Unk: left = None
          ctx.check(left == 0, R4, st.qualname + "[failed]", "after a failed start the receiver counts as started", at(st), p)
        else:
          ctx.check(bool(ens) == (n == 0), R4, st.qualname, f"start number {n + 1} {'enables' if ens else 'does not enable'} the receiver", at(st), p)
          v = final(p, rme, cnt) if cnt else None
          try: left = ev(v, env) if v is not None else n
          except Unk: left = None
          ctx.check(left == n + 1, R4, st.qualname + "[count]", f"start number {n + 1} leaves {left} starts", at(st), p)
          if ens:
            os = [e for e in p.events if e.kind == "call" and call_of(e, "_on_start_recv") and e.awaited]
            ctx.check(ens[0].args and ens[0].args[0] is rme and len(os) == 1 and p.events.index(os[0]) > p.events.index(ens[0]), R4, st.qualname + "[order]", "the receiver is not enabled before it subscribes", at(st), p)
  for p in ctx.run(ctx.interp(stop={EN, DIS, RECV + "._on_stop_recv"}), sp, selfcls=rb):
    diss = [e for e in p.events if e.kind == "call" and e.name == DIS]
    os = [e for e in p.events if e.kind == "call" and call_of(e, "_on_stop_recv") and e.awaited]
    for n in range(1, 4):
      env = {attr(rme, cnt): n} if cnt else {}
      if not holds(p.facts, env): continue
      ctx.check(bool(diss) == (n == 1) and bool(os) == (n == 1), R4, sp.qualname, f"stopping with {n} starts {'disables' if diss else 'does not disable'} the receiver", at(sp), p)
      v = final(p, rme, cnt) if cnt else None
      try: left = ev(v, env) if v is not None else n
      except Unk: left = None
      ctx.check(left == n - 1, R4, sp.qualname + "[count]", f"stopping with {n} starts leaves {left}", at(sp), p)
  for m, want in (("__aenter__", ".start_recv"), ("__aexit__", ".stop_recv")):
    g = ctx.method(rb, m)
    for p in ctx.run(ctx.interp(stop={RECV + ".start_recv", RECV + ".stop_recv"}), g, selfcls=rb):
      ctx.check(len(calls(p, RECV + want)) == 1, R4, g.qualname, "the context does not start and stop the receiver", at(g), p)
  # subscriptions
  for k in ctx.p.subclasses(rb):
    if "_on_start_recv" not in k.methods and "_on_stop_recv" not in k.methods: continue
    own_topics(ctx, R5, k)
    subscriptions(ctx, R5, k, ctx.method(k, "_on_start_recv"), ctx.method(k, "_on_stop_recv"))


def own_topics(ctx, R, k):
  """topics that are gone through more than once are not the caller's iterable, which may change or be used up meanwhile"""
  me, ini = mk("self", k.qualname), k.methods.get("__init__")
  if ini is None: return
  used = set()
  for nm in ("_on_start_recv", "_on_stop_recv"):
    for p in ctx.run(ctx.interp(stop={CL + ".register_in_topics", CL + ".unregister_in_topics", CL + ".fetch", CL + ".send_to"}), ctx.method(k, nm), selfcls=k):
      for e in p.events:
        if e.kind == "call" and e.name in (CL + ".register_in_topics", CL + ".unregister_in_topics") and e.args and strip(e.args[0]).op == "attr" and strip(e.args[0]).a[0] is me: used.add(strip(e.args[0]).a[1])
  for p in ctx.run(ctx.interp(stop={RECV + ".__init__"}), ini, selfcls=k):
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and e.name in used: ctx.check(e.args[0].op != "param", R, k.qualname + "[own]", "the topics given are kept as they are, and may be used up or changed before they are unsubscribed", e.loc, p)


def subscriptions(ctx, R, k, start, stop):
  me = mk("self", k.qualname)
  REG, UN = CL + ".register_in_topics", CL + ".unregister_in_topics"
  out = []
  for f, nm in ((start, REG), (stop, UN)):
    s = []
    for p in ctx.run(ctx.interp(stop={REG, UN, CL + ".fetch", CL + ".send_to"}), f, selfcls=k):
      if p.kind != "return": continue
      stored = {strip(e.args[0]): attr(me, e.name) for e in p.events if e.kind == "setattr" and e.recv is me}
      ts = frozenset(stored.get(strip(settle_obj(p, e.args[0])), strip(settle_obj(p, e.args[0]))) for e in p.events if e.kind == "call" and e.name == nm)
      for e in p.events:
        fo = e.arg(1, "force") if e.kind == "call" and e.name == UN else None
        ctx.check(fo is None or is_const(fo, False), R, k.qualname + "[others]", "unsubscribes its topics for everybody who uses them", e.loc, p)
      facts = {a: v for a, v in p.facts if root_of(a) is me and not any(contains(a, attr(me, e.name)) for e in p.events if e.kind == "setattr" and e.recv is me)}
      s.append((ts, facts))
    out.append(s)
  for on, fa in out[0]:
    for off, fb in out[1]:
      if any(fb.get(a, v) is not v for a, v in fa.items()): continue
      nothing = {strip(a.a[0]) for fs in (fa, fb) for a, v in fs.items() if a.op == "truthy" and v is False}
      x, y = {t for t in on if t not in nothing}, {t for t in off if t not in nothing}
      ctx.check(x == y, R, k.qualname, f"subscribes {', '.join(show(t)[:60] for t in x) or 'nothing'} but unsubscribes {', '.join(show(t)[:60] for t in y) or 'nothing'}", at(stop))


def topical(ctx, name):
  """may an object of this class be a topic message?"""
  a, b = ctx.p._class_by_qual.get(name), ctx.p.cls(MSGNS + "TopicMessage")
  return a is None or any(c is b for c in ctx.p.mro(a)) or any(c is a for c in ctx.p.mro(b))


def goes_on(p):
  """does the path end by going around the endless (or guarded) loop again?"""
  return p.kind == "loopback" or p.kind == "return" and not any(e.kind == "wleave" for e in p.events)


def root_of(a):
  """the one base an atom is about"""
  rs = {root(x) for x in a.a if isinstance(x, T) and x.op != "const"}
  return rs.pop() if len(rs) == 1 else None


def settle_obj(p, t): 
  if t.op == "obj" and t.a[0] in p.st.heap:
    h = p.st.heap[t.a[0]]
    return mk("lit", h[0], *[x[1] if isinstance(x, tuple) and x[0] == "e" else mk("opaque", repr(x)) for x in h[1]])
  return t


def receivers_field(ctx):
  """field of the client that lists the enabled receivers"""
  if not hasattr(ctx, "_recvf"):
    c = ctx.p.cls(CL)
    f = ctx.method(c, "enable_receiver")
    r = mk("param", f.node.args.args[1].arg, f.qualname)
    ctx._recvf = None
    for p in ctx.run(ctx.interp(), f, selfcls=c):
      for e in p.events:
        if e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.args and e.args[0] is r and e.recv.op == "attr" and e.recv.a[0] is mk("self", CL): ctx._recvf = e.recv.a[1]
    if ctx._recvf is None: raise AnalysisBroken("the client keeps no list of receivers")
  return ctx._recvf


def count_field(ctx, f, me):
  for p in ctx.run(ctx.interp(stop={CL + ".enable_receiver", CL + ".disable_receiver"}), f):
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and contains(e.args[0], attr(me, e.name)): return e.name
  return None


def early(p, me):
  """a loop over receivers left before its end"""
  return any(e.kind in ("break", "leave") for e in p.events)


# ------------------------------------------------------------------ C02 announcements
TRK = {IDT + ".add_many", IDT + ".remove_many"}


MUTATORS = ("append", "insert", "remove", "pop", "clear", "extend", "sort", "reverse")


def subst_set(v): return frozenset(v) if isinstance(v, (set, list, tuple, frozenset)) else v


def sent_on(p): return [e for e in p.events if e.kind == "call" and e.name == LINK + ".send"]


def evalue(it, p, t, env):
  """value of a term at the end of a path, ... when it cannot be told"""
  try: return ev(it.norm(t, p.st), env, lambda x: it.norm(x, p.st))
  except Unk: return ...


def as_pairs(v):
  """{(id, cost)} of a collection of priced ids or ids"""
  if v is ... or not isinstance(v, (set, frozenset, list, tuple)): return ...
  out = set()
  for x in v:
    if isinstance(x, Inst):
      if set(x.f) != {"id", "cost"}: return ...
      out.add((x.f["id"], x.f["cost"]))
    else: out.add(x)
  return out


def c02(ctx):
  R1 = ctx.rule("announced", "registering and unregistering topics sends one announcement with exactly the topics whose first use began or whose last use ended, and none when there are no such topics", 12)
  R2 = ctx.rule("counted", "each kind of topic is counted by one tracker, in and out topics by different ones, and forced removal is passed on to the tracker", 5)
  R3 = ctx.rule("address", "setting the address announces exactly the difference between the old and the new address and stores the new one", 9)
  R4 = ctx.rule("cost-free", "a client announces its own topics and its own address at cost zero", 3)
  c = ctx.p.cls(CL)
  me = mk("self", CL)
  field = {}
  try: net2.id_counts(ctx, R2, R2)
  except AnalysisBroken: pass          # the check of the counting itself says so
  for nm, op, msg, side in (("register_out_topics", "add_many", "OutTopicsChangedMessage", "add"), ("unregister_out_topics", "remove_many", "OutTopicsChangedMessage", "remove"),
                            ("register_in_topics", "add_many", "InTopicsChangedMessage", "add"), ("unregister_in_topics", "remove_many", "InTopicsChangedMessage", "remove")):
    f = ctx.method(c, nm)
    it = ctx.interp(stop=TRK | {LINK + ".send"})
    ids = mk("param", f.node.args.args[1].arg, f.qualname)
    some = set()
    for p in ctx.run(it, f, selfcls=c):
      if p.kind != "return": ctx.fail(R1, f.qualname, f"fails with {show(p.value)[:50]}", at(f), p); continue
      ts = [e for e in p.events if e.kind == "call" and e.name in TRK]
      good = [e for e in ts if e.name == IDT + "." + op and e.recv.op == "attr" and e.recv.a[0] is me and e.args and strip(e.args[0]) is ids]
      if not ctx.check(len(ts) == 1 and len(good) == 1, R2, f.qualname, f"the topics are not counted once ({len(ts)} changes of the trackers)", at(f), p): continue
      field.setdefault(nm, set()).add(good[0].recv.a[1])
      if op == "remove_many":
        force = mk("param", "force", f.qualname)
        a = good[0].arg(1, "force")
        ctx.check("force" not in [x.arg for x in f.node.args.args] or a is force or a is not None and fact(p.facts, mk("truthy", force)) is bool(a.a[0] if a.op == "const" else None), R2, f.qualname + "[force]", "forced removal is not passed on", at(f), p)
      for val in (set(), {1}, {1, 2}):
        env = {good[0].res: val}
        if not holds(p.facts, env, lambda x: it.norm(x, p.st)): continue
        some.add(len(val))
        ss = sent_on(p)
        if not ctx.check(len(ss) == (1 if val else 0) and all(e.awaited for e in ss), R1, f.qualname, f"{len(val)} changed topics lead to {len(ss)} announcements", at(f), p): continue
        for e in ss:
          m = it.norm(e.args[0], p.st)
          if not ctx.check(m.op == "inst" and m.a[0] == MSGNS + msg, R1, f.qualname, f"announces with {show(m)[:60]}", e.loc, p): continue
          d = {k: as_pairs(evalue(it, p, v, env)) for k, v in m.a[1]}
          want = {"add": set(), "remove": set()}
          priced = msg.startswith("Out")
          want[side] = {(x, 0) for x in val} if side == "add" and priced else val
          if side == "add" and priced and isinstance(d.get("add"), set): 
            ctx.check(all(isinstance(x, tuple) and x[1] == 0 for x in d["add"]), R4, f.qualname, "a topic of the client is announced at a cost", e.loc, p)
          ctx.check(d == want, R1, f.qualname + "[content]", f"for the changed topics {val} it announces add={d.get('add')} remove={d.get('remove')}".replace("Ellipsis", "something else"), e.loc, p)
    ctx.check(some == {0, 1, 2}, R1, f.qualname + "[total]", "some outcome of the tracker is not handled", at(f))
  ctx.check(len(field) == 4 and field["register_out_topics"] == field["unregister_out_topics"] and field["register_in_topics"] == field["unregister_in_topics"] and not field["register_in_topics"] & field["register_out_topics"], R2, CL, f"the trackers in use are {field}", c.file)
  f = ctx.method(c, "set_address")
  it = ctx.interp(stop={LINK + ".send"})
  new, old = mk("param", f.node.args.args[1].arg, f.qualname), None
  ps = [p for p in ctx.run(it, f, selfcls=c)]
  fld = address_field(ctx)
  old = attr(me, fld)
  for n in (None, 0, 1, 2):
    for o in (None, 0, 1, 2):
      env = {new: n, old: o}
      hit = [p for p in ps if holds(p.facts, env, lambda x: it.norm(x, p.st))]
      ctx.check(hit, R3, f.qualname + "[total]", f"changing the address from {o} to {n} is not handled", at(f))
      for p in hit:
        if not ctx.check(p.kind == "return", R3, f.qualname, f"changing the address from {o} to {n} fails", at(f), p): continue
        v = final(p, me, fld)
        ctx.check(v is not None and evalue(it, p, v, env) == n or v is None and n == o, R3, f.qualname + "[stored]", f"changing the address from {o} to {n} does not store it", at(f), p)
        add, rem = set() if n is None else {(n, 0)}, set() if o is None else {o}
        if n == o: add = rem = set()
        A, M = set(), set()
        for e in sent_on(p):
          m = it.norm(e.args[0], p.st)
          d = {k: as_pairs(evalue(it, p, v, env)) for k, v in m.a[1]} if m.op == "inst" and m.a[0] == MSGNS + "AddressesChangedMessage" else {}
          if not ctx.check(isinstance(d.get("add"), set) and isinstance(d.get("remove"), set) and e.awaited, R3, f.qualname + "[message]", f"sends {show(m)[:60]}", e.loc, p): continue
          A |= d["add"]; M |= d["remove"]
        ctx.check({x for x in A if not isinstance(x, tuple) or x[1] != 0} == set(), R4, f.qualname, "the address is announced at a cost", at(f), p)
        ctx.check({x[0] if isinstance(x, tuple) else x for x in A} == {x[0] for x in add} and M == rem, R3, f.qualname, f"changing the address from {o} to {n} announces add={A} remove={M}", at(f), p)
        if add or rem: ctx.check(not any(e.args[0] is None for e in sent_on(p)) and sent_on(p) != [], R3, f.qualname + "[sent]", "the change of the address is not announced", at(f), p)


def address_field(ctx):
  """field behind the client's address property"""
  c = ctx.p.cls(CL)
  f = ctx.method(c, "address")
  for p in ctx.run(ctx.interp(), f, selfcls=c):
    if p.kind == "return" and p.value.op == "attr" and p.value.a[0] is mk("self", CL): return p.value.a[1]
  return "_address"


# ------------------------------------------------------------------ C04 fetch and signal servers
SENDTO = CL + ".send_to"
SIGNAL = "streamtasks.client.signal"
VALERR = "pydantic.ValidationError"


def payload(t, raw):
  """is t the decoded value of a raw payload?"""
  if t.op == "copy": return payload(t.a[1], raw)
  if t is attr(raw, "data") or t is attr(raw, "_data"): return True
  return ext_call(t, "msgpack.unpackb") and t.a[1] and contains(t.a[1][0], attr(raw, "_raw"))


def validated(t, raw, cls=None):
  """is t a payload validated as a model? (its class or None)"""
  if t.op != "call" or call_name(t) != "model_validate" or not t.a[1] or not payload(t.a[1][0], raw): return None
  f = t.a[0]
  n = f.a[0].a[0] if f.op in ("attr", "bound") and f.a[0].op in ("class", "func", "ext") else f.a[0] if isinstance(f.a[0], str) else None
  return n or "?"


def field_of(t, name):
  """(model term) when t reads a field of it"""
  return t.a[0] if t.op == "attr" and t.a[1] == name else None


def accepts(ctx, R, k, port_field, wants, mapping=None, model_cls=None):
  """on_message of a receiver on a port: queued iff addressed to the port, a valid payload, and (for servers) a known descriptor"""
  f = ctx.method(k, "on_message")
  me = mk("self", k.qualname)
  msg = mk("param", f.node.args.args[1].arg, f.qualname)
  raw = attr(msg, "data")
  am, rd = mk("isinst", msg, MSGNS + "AddressedMessage"), mk("isinst", raw, "streamtasks.net.serialization.RawData")
  for bad in (None, VALERR):
    it = ctx.interp(raises_fn=lambda e, st: [bad] if bad and e.kind == "call" and call_of(e, "model_validate") else [])
    some = False
    for p in ctx.run(it, f, selfcls=k):
      q = [e for e in p.events if e.kind == "call" and call_of(e, "put_nowait")]
      if p.kind == "raise": ctx.check(False, R, f.qualname + "[raises]", f"a message makes it fail with {show(p.value)[:50]}", at(f), p); continue
      own = next((v for a, v in p.facts if a.op == "eq" and attr(msg, "port") in a.a and any(root(x) is me and x.op == "attr" for x in a.a)), None)
      fm, fr = fact(p.facts, am), fact(p.facts, rd)
      val = [e for e in p.events if e.kind == "call" and call_of(e, "model_validate")]
      known = next((v for a, v in p.facts if mapping is not None and (a.op == "in" and strip(a.a[1]) is mapping or a.op == "is" and a.a[1] is NONE and get_of(a.a[0]) and strip(get_of(a.a[0])[0]) is mapping)), None)
      if known is not None and not any(a.op == "in" and strip(a.a[1]) is mapping for a, v in p.facts): known = not known
      invalid = any(e.kind == "handle" for e in p.events)
      if bad is not None and not invalid and val: continue
      if q:
        some = True
        ctx.check(fm is True and fr is True, R, f.qualname + "[kind]", "a message of another kind or without a payload is taken in", at(f), p)
        ctx.check(own is True, R, f.qualname + "[port]", "a message for another port is taken in", at(f), p)
        ctx.check(len(q) == 1 and bool(val) and not invalid, R, f.qualname + "[valid]", "an invalid message is taken in, or one is taken in twice", at(f), p)
        if mapping is not None: ctx.check(known is True, R, f.qualname + "[known]", "a request nobody handles is taken in", at(f), p)
        wants(it, p, q[0], raw, f)
      else:
        why = fm is False or own is False or fr is False or known is False or invalid
        ctx.check(why, R, f.qualname, "a valid message for the own port is dropped", at(f), p)
    if bad is None: ctx.check(some, R, f.qualname + "[some]", "no message is ever taken in", at(f))


def server_mapping(ctx, k):
  """term of the handler table of a server: what add_route writes to"""
  f = ctx.method(k, "add_route")
  for p in ctx.run(ctx.interp(), f, selfcls=k):
    for e in p.events:
      if e.kind == "setitem" and root(e.recv) is mk("self", k.qualname): return strip(e.recv)
  raise AnalysisBroken(f"{k.qualname}.add_route stores no handler")


def response_of(it, p, e):
  """(body, error) of a response sent by a send_to event, None when it is something else"""
  if not e.args or len(e.args) < 2: return None
  t = it.norm(e.args[1], p.st)
  for s in subterms(t):
    if s.op == "inst" and s.a[0] == FETCH + ".FetchResponseMessage":
      d = fields(s)
      return d.get("body", NONE), d.get("error", FALSE)
  return None


def handler_calls(p, mapping):
  out = []
  for e in p.events:
    if e.kind == "call" and e.fterm is not None:
      g = get_of(e.fterm)
      if g and strip(g[0]) is mapping: out.append((e, g[1]))
  return out


def c04(ctx):
  R1 = ctx.rule("one-answer", "a request that a handler ran for is answered exactly once: the server answers after the handler iff the handler did not, with an error iff the handler failed", 6)
  R2 = ctx.rule("serves-on", "no failure of a handler ends the server, cancellation does, and the server stops receiving then", 8)
  R3 = ctx.rule("answer", "an answer goes to the endpoint named in the request, carries the given body and the right error flag, and is remembered as sent", 4)
  R4 = ctx.rule("accepts", "a server takes in exactly the valid messages on its own port with a descriptor it has a handler for, and hands the handler what was sent", 4)
  R5 = ctx.rule("dispatch", "exactly the handler registered for the descriptor runs, with the request, once", 2)
  R6 = ctx.rule("routes", "adding a route makes its handler the one for the descriptor, removing it makes the descriptor unknown", 6)
  desc, req = mk("wdesc"), mk("wreq")
  wire = mk("wmsg")
  rq = ctx.p.cls(FETCH + ".FetchRequest")
  for name in (FETCH + ".FetchServer", SIGNAL + ".SignalServer"):
    k = ctx.p.cls(name)
    me = mk("self", name)
    fetch = name.endswith("FetchServer")
    mapping = server_mapping(ctx, k)
    run = ctx.method(k, "run")
    kinds = ["ok", VALERR, FETCH + ".FetchError", "builtins.ValueError", "builtins.KeyError", "builtins.Exception", CANCEL]
    for kind in kinds:
      it = ctx.interp(stop={RECV + ".start_recv", RECV + ".stop_recv", SENDTO}, models={**RAW, RECV + ".get": lambda it, f, a, kw, n, st, fr: [("v", wire, st)]}, await_map={wire: mk("tuple", desc, req)},
                      raises_fn=lambda e, st: [kind] if kind != "ok" and e.kind == "call" and e.fterm is not None and get_of(e.fterm) and strip(get_of(e.fterm)[0]) is mapping else [])
      if fetch: it.types[req] = rq
      ran = False
      for p in ctx.run(it, run, selfcls=k):
        hs = handler_calls(p, mapping)
        got = [e for e in p.events if e.kind == "call" and e.name == RECV + ".get" or e.kind == "await" and e.recv is wire]
        if got and not hs:
          unknown = any((a.op == "in" and strip(a.a[1]) is mapping and not v) or (a.op == "is" and a.a[1] is NONE and v) for a, v in p.facts)
          ctx.check(unknown, R5, run.qualname + "[skipped]", "a request with a handler is skipped", at(run), p)
          ctx.check(p.kind not in ("raise", "return"), R2, run.qualname + "[unknown]", "a request whose handler was removed ends the server", at(run), p)
          continue
        if not hs: continue
        failed = any(e.kind == "handle" for e in p.events) or p.kind == "raise"
        if kind != "ok" and not failed: continue
        ran = True
        ctx.check(len(hs) == 1 and hs[0][1] is desc and hs[0][0].args == (req,) and hs[0][0].awaited, R5, run.qualname, "not exactly the handler of the descriptor runs once with the request", at(run), p)
        i = p.events.index(hs[0][0])
        if kind == CANCEL:
          ctx.check(p.kind == "raise" and contains(p.value, lambda s: s.op == "exc" and s.a[0] == CANCEL), R2, run.qualname + "[cancel]", "the server cannot be cancelled while a handler runs", at(run), p)
          ctx.check(any(e.kind == "call" and e.name == RECV + ".stop_recv" for e in p.events[i:]), R2, run.qualname + "[stop]", "a server that ends keeps receiving", at(run), p)
          continue
        ctx.check(p.kind not in ("raise", "return"), R2, run.qualname, f"a {kind.split('.')[-1]} of a handler ends the server" if kind != "ok" else "the server ends after a request", at(run), p)
        if not fetch: continue
        sends = [e for e in p.events[i:] if e.kind == "call" and e.name == SENDTO]
        before = [e for e in p.events[:i] if e.kind == "call" and e.name == SENDTO]
        already = fact(p.facts, mk("truthy", attr(req, "response_sent")))
        tag = run.qualname + f"[{kind.split('.')[-1]}]"
        ctx.check(not before, R1, tag, "an answer is sent before the handler ran", at(run), p)
        if already is None: ctx.check(False, R1, tag, "whether the handler answered is not looked at" if sends else "a request is never answered", at(run), p); continue
        ctx.check(len(sends) == (0 if already else 1), R1, tag, f"{len(sends)} answers are sent although the handler {'answered' if already else 'did not answer'}", at(run), p)
        for e in sends:
          r = response_of(it, p, e)
          if not ctx.check(r is not None and e.awaited, R3, tag, "what is sent is no response", e.loc, p): continue
          ctx.check(strip(e.args[0]) is attr(req, "_return_endpoint"), R3, tag + "[to]", "the answer does not go to where the request came from", e.loc, p)
          tv = truth_of(it, r[1], p.facts, p.st)
          ctx.check(tv is (kind != "ok"), R1, tag + "[flag]", f"a handler that {'succeeded' if kind == 'ok' else 'failed'} is answered with {'an error' if tv else 'a success'}", e.loc, p)
      if kind != CANCEL: ctx.check(ran, R5, run.qualname + "[ran]", "no handler ever runs", at(run))
    # accepting
    def wants(it, p, e, raw, f, fetch=fetch):
      v = it.norm(e.args[0], p.st)
      if not ctx.check(v.op == "tuple" and len(v.a) == 2, R4, f.qualname + "[content]", f"hands on {show(v)[:60]}", e.loc, p): return
      m = field_of(v.a[0], "descriptor")
      ctx.check(m is not None and validated(m, raw), R4, f.qualname + "[descriptor]", "hands on another descriptor than the one sent", e.loc, p)
      if not fetch:
        ctx.check(field_of(v.a[1], "body") is m, R4, f.qualname + "[body]", "hands on another body than the one sent", e.loc, p); return
      o = v.a[1]
      d = fields(o) if o.op == "inst" else {x.name: x.args[0] for x in p.events if x.kind == "setattr" and x.recv is (e.args[0].a[1] if e.args[0].op == "tuple" else o)}
      body = next((x for n, x in d.items() if n == "body"), None)
      ctx.check(body is not None and field_of(body, "body") is m, R4, f.qualname + "[body]", "hands on another body than the one sent", e.loc, p)
      ep = d.get("_return_endpoint")
      ctx.check(ep is not None and ep.op == "tuple" and len(ep.a) == 2 and field_of(ep.a[0], "return_address") is m and field_of(ep.a[1], "return_port") is m, R4, f.qualname + "[endpoint]", "hands on another endpoint to answer to than the one sent", e.loc, p)
      ctx.check(d.get("response_sent") is FALSE, R4, f.qualname + "[fresh]", "a new request counts as answered", e.loc, p)
    accepts(ctx, R4, k, "_port", wants, mapping)
    # routes
    for nm in ("add_route", "remove_route", "route"):
      f = ctx.method(k, nm)
      d = mk("param", f.node.args.args[1].arg, f.qualname)
      it = ctx.interp()
      for p in ctx.run(it, f, selfcls=k):
        if p.kind != "return": ctx.fail(R6, f.qualname, f"fails with {show(p.value)[:50]}", at(f), p); continue
        evs, st, want = p.events, p.st, None
        if nm == "route":
          h = mk("handler")
          rs = list(it.call(p.value, [h], [], f.node, p.st, Frame(None, "<route>", it.p.module(FETCH))))
          for r in rs:
            ok = any(e.kind == "setitem" and strip(e.recv) is mapping and e.args == (d, h) for e in r[2].events) or any(e.kind == "setitem" and strip(e.recv) is mapping and tuple(e.args) == (d, h) for e in r[2].events)
            ctx.check(r[0] == "v" and ok and r[1] is h, R6, f.qualname, "decorating a handler does not register it and give it back", at(f), p)
        elif nm == "add_route":
          h = mk("param", f.node.args.args[2].arg, f.qualname)
          ctx.check(any(e.kind == "setitem" and strip(e.recv) is mapping and tuple(e.args) == (d, h) for e in evs), R6, f.qualname, "the handler is not registered for the descriptor", at(f), p)
        else:
          absent = fact(p.facts, mk("in", d, mapping)) is False
          ok = absent or any((e.kind == "delitem" or e.kind == "call" and call_of(e, "pop")) and e.recv is not None and strip(e.recv) is mapping and e.args and e.args[0] is d for e in evs)
          ctx.check(ok, R6, f.qualname, "the handler stays registered", at(f), p)
  # answers
  for nm, flag in (("respond", False), ("respond_error", True)):
    f = ctx.method(rq, nm)
    me = mk("self", rq.qualname)
    b = mk("param", f.node.args.args[1].arg, f.qualname)
    for kind in (None, CANCEL):
      it = ctx.interp(stop={SENDTO}, models=RAW)
      for p in ctx.run(it, f, selfcls=rq):
        ss = [e for e in p.events if e.kind == "call" and e.name == SENDTO]
        if not ctx.check(p.kind == "return" and len(ss) == 1 and ss[0].awaited, R3, f.qualname, "not exactly one answer is sent", at(f), p): continue
        r = response_of(it, p, ss[0])
        ctx.check(strip(ss[0].args[0]) is attr(me, "_return_endpoint"), R3, f.qualname + "[to]", "the answer does not go to where the request came from", at(f), p)
        ctx.check(r is not None and strip(r[0]) is b and truth_of(it, r[1], p.facts, p.st) is flag, R3, f.qualname + "[content]", "the answer carries another body or error flag", at(f), p)
        ctx.check(final(p, me, "response_sent") is TRUE, R3, f.qualname + "[sent]", "the answer is not remembered", at(f), p)


# ------------------------------------------------------------------ C05 fetch and addressed sending
def summary(ctx, cls, name, **cfg):
  """paths of a method as a transition function over field values: list of path"""
  c = ctx.p.cls(cls) if isinstance(cls, str) else cls
  f = ctx.method(c, name)
  it = ctx.interp(**cfg)
  return it, f, ctx.run(it, f, selfcls=c)


def step(it, f, ps, me, state, args=()):
  """(outcome kind, value, new state) of a call under concrete field values; None when it cannot be told"""
  env = {attr(me, k): v for k, v in state.items()}
  env.update({mk("param", a.arg, f.qualname): v for a, v in zip(f.node.args.args[1:], args)})
  hit = [p for p in ps if holds(p.facts, env, lambda x: it.norm(x, p.st))]
  outs = []
  for p in hit:
    new = dict(state)
    for e in p.events:
      if e.kind == "setattr" and e.recv is me: new[e.name] = evalue(it, p, e.args[0], env)
    outs.append((p.kind, evalue(it, p, p.value, env) if p.kind == "return" else None, new))
  if not outs or any(repr(o) != repr(outs[0]) for o in outs): return None
  return outs[0]


def c05(ctx):
  R1 = ctx.rule("own-port", "a fetch listens on a port of its own before its request is sent, and the request names the caller's own address and that port", 3)
  R2 = ctx.rule("outcome", "a fetch returns exactly the body of the response it received, or raises the error the response carries", 2)
  R3 = ctx.rule("stops", "a fetch stops listening exactly once however it ends", 4)
  R4 = ctx.rule("addressless", "a fetch without a local address is refused before anything is sent or registered", 1)
  R5 = ctx.rule("only-own", "the receiver of a fetch takes in exactly the valid responses on its own port", 3)
  R6 = ctx.rule("ports-unique", "free ports stay in their range and do not repeat before the range is used up; the range begins above all well-known ports", 3)
  R7 = ctx.rule("addressed", "an addressed send goes to the given port of the resolved address with the given data; an endpoint without port gets the default one", 4)
  c = ctx.p.cls(CL)
  me = mk("self", CL)
  f = ctx.method(c, "fetch")
  fa = attr(me, address_field(ctx))
  P_ = {a.arg: mk("param", a.arg, f.qualname) for a in f.node.args.args[1:]}
  ep, desc, body = list(P_.values())[:3]
  stop = {RECV + ".start_recv", RECV + ".stop_recv", RECV + ".get", SENDTO, CL + ".get_free_port"}
  for kind, where in [(None, None)] + [(k, w) for k in (CANCEL, "builtins.OSError") for w in (".send_to", ".get", ".start_recv")]:
    if where == ".get" and kind != CANCEL: continue
    it = ctx.interp(stop=stop, models=RAW, raises_fn=lambda e, st: [kind] if where and e.kind == "call" and e.awaited and (e.name or "").endswith(where) else [])
    for p in ctx.run(it, f, selfcls=c):
      noaddr = fact(p.facts, mk("is", fa, NONE))
      sends = [e for e in p.events if e.kind == "call" and e.name == SENDTO]
      starts = [e for e in p.events if e.kind == "call" and e.name == RECV + ".start_recv"]
      stops = [e for e in p.events if e.kind == "call" and e.name == RECV + ".stop_recv"]
      failed = p.kind == "raise" and kind is not None and contains(p.value, lambda s: s.op == "exc" and s.a[0] == kind)
      if noaddr is not False:
        ctx.check(noaddr is True and p.kind == "raise" and not sends and not starts, R4, f.qualname, "a fetch without an own address is started", at(f), p); continue
      ctx.ok(R4, f.qualname)
      entered = [e for e in starts if not (failed and where == ".start_recv")]
      ctx.check(len(starts) <= 1 and len(stops) == len(entered) and [e.recv for e in stops] == [e.recv for e in entered], R3, f.qualname, f"a fetch that ends with {'a ' + kind.split('.')[-1] if failed else 'a response'} starts listening {len(entered)} and stops {len(stops)} times", at(f), p)
      for e in sends:
        i = p.events.index(e)
        r = next((s for s in starts if p.events.index(s) < i), None)
        if not ctx.check(r is not None and not any(p.events.index(s) < i for s in stops), R1, f.qualname + "[order]", "the request is sent before the caller listens for the response", e.loc, p): continue
        port = next((x.args[0] for x in p.events if x.kind == "setattr" and x.recv is r.recv and x.name == "_return_port"), None) or next((x.arg(1, "return_port") for x in p.events if x.kind == "call" and x.res is r.recv), None)
        ctx.check(port is not None and call_name(port) == "get_free_port", R1, f.qualname + "[fresh]", "the fetch listens on a port that others use", e.loc, p)
        t = it.norm(e.args[1], p.st)
        m = next((s for s in subterms(t) if s.op == "inst" and s.a[0] == FETCH + ".FetchRequestMessage"), None)
        if not ctx.check(m is not None, R1, f.qualname + "[message]", f"sends {show(t)[:60]}", e.loc, p): continue
        d = fields(m)
        ctx.check(d.get("return_address") is fa and d.get("return_port") is port, R1, f.qualname, "the request does not name the caller's address and the port it listens on", e.loc, p)
        ctx.check(d.get("descriptor") is desc and strip(d.get("body", NONE)) is body, R1, f.qualname + "[content]", "the request carries another descriptor or body", e.loc, p)
        a = strip(e.args[0])
        pair = a.op == "tuple" and a.a[0] is ep and is_const(a.a[1]) and a.a[1].a[0] == constant(ctx, "NetworkPorts", "FETCH")
        ctx.check(a is ep or pair, R1, f.qualname + "[endpoint]", "the request goes to another endpoint", e.loc, p)
      if failed: continue
      got = [e for e in p.events if e.kind == "call" and e.name == RECV + ".get"]
      if not ctx.check(len(got) == 1 and len(sends) == 1 and bool(starts) and got[0].recv is starts[0].recv and p.events.index(got[0]) > p.events.index(sends[0]), R2, f.qualname + "[one]", "not exactly one request is sent and one response awaited", at(f), p): continue
      resp = mk("awaited", got[0].res)
      err = truth_of(it, attr(resp, "error"), p.facts, p.st)
      if p.kind == "return": ctx.check(err is False and p.value is attr(resp, "body"), R2, f.qualname, "returns something else than the body of a successful response", at(f), p)
      else:
        good = contains(p.value, lambda s: s.op == "exc" and s.a[0] == FETCH + ".FetchError")
        b = next((x.args[0] for x in p.events if x.kind == "setattr" and x.name == "body" and contains(p.value, x.recv)), None) or next((x for s in subterms(it.norm(p.value, p.st)) if s.op == "inst" for x in [fields(s).get("body")]), None)
        ctx.check(err is True and good and b is attr(resp, "body"), R2, f.qualname + "[error]", f"raises {show(p.value)[:50]} for a response", at(f), p)
  # response receiver
  k = ctx.p.cls(FETCH + ".FetchReponseReceiver")
  def wants(it, p, e, raw, f):
    v = it.norm(e.args[0], p.st)
    ctx.check(bool(validated(v, raw)), R5, f.qualname + "[content]", f"hands on {show(v)[:60]}", e.loc, p)
  accepts(ctx, R5, k, "_return_port", wants)
  # ports
  g = ctx.method(c, "get_free_port")
  gen = None
  for p in ctx.run(ctx.interp(stop={"streamtasks.utils.IdGenerator.next"}), g, selfcls=c):
    n = [e for e in p.events if e.kind == "call" and e.name == "streamtasks.utils.IdGenerator.next"]
    ctx.check(p.kind == "return" and len(n) == 1 and p.value is n[0].res, R6, g.qualname, "a free port is not the next one of the generator", at(g), p)
    if n: gen = n[0].recv
  ini = ctx.method(c, "__init__")
  for p in ctx.run(ctx.interp(stop={"streamtasks.utils.IdGenerator.__init__"}), ini, selfcls=c):
    mks = [e for e in p.events if e.kind == "call" and e.name == "streamtasks.utils.IdGenerator"]
    for e in mks:
      lo, hi = e.arg(0, "start"), e.arg(1, "end")
      known = [v for n, v in constants(ctx, "NetworkPorts").items() if n != "DYNAMIC_START"]
      ctx.check(is_const(lo) and is_const(hi) and lo.a[0] > max(known) and hi.a[0] > lo.a[0] + 2**16, R6, ini.qualname + "[range]", f"free ports start at {show(lo)}, among the well-known ports {sorted(known)}", e.loc, p)
    ctx.check(bool(mks), R6, ini.qualname, "no generator of free ports", at(ini), p)
  IDG = "streamtasks.utils.IdGenerator"
  it0, f0, ps0 = summary(ctx, IDG, "__init__")
  it1, f1, ps1 = summary(ctx, IDG, "next")
  gm = mk("self", IDG)
  for lo, hi in ((0, 1), (3, 5), (10, 17)):
    r = step(it0, f0, ps0, gm, {}, (lo, hi))
    if not ctx.check(r is not None and r[0] == "return", R6, f0.qualname, "cannot tell how a generator starts", at(f0)): continue
    st, seen = r[2], []
    for _ in range(2 * (hi - lo)):
      r = step(it1, f1, ps1, gm, st)
      if r is None or r[0] != "return": break
      seen.append(r[1]); st = r[2]
    n = hi - lo
    ctx.check(len(seen) == 2 * n and ... not in seen and sorted(seen[:n]) == list(range(lo, hi)) and sorted(seen[n:]) == list(range(lo, hi)), R6, f1.qualname, f"in the range {lo}..{hi - 1} the ids {seen} are handed out", at(f1))
  # addressed sending
  f = ctx.method(c, "send_to")
  e_, data = [mk("param", a.arg, f.qualname) for a in f.node.args.args[1:3]]
  it = ctx.interp(stop={LINK + ".send", CL + ".resolve_address_name"})
  for p in ctx.run(it, f, selfcls=c):
    ss = sent_on(p)
    if not ctx.check(p.kind == "return" and len(ss) == 1 and ss[0].awaited, R7, f.qualname, "not exactly one message is sent", at(f), p): continue
    m = it.norm(ss[0].args[0], p.st)
    d = fields(m)
    a = item(e_, 0)
    isname = fact(p.facts, mk("isinst", a, "builtins.str"))
    res = [e for e in p.events if e.kind == "call" and e.name == CL + ".resolve_address_name"]
    ok = m.op == "inst" and m.a[0] == MSGNS + "AddressedMessage" and d.get("port") is item(e_, 1) and d.get("data") is data
    ctx.check(ok, R7, f.qualname + "[content]", f"sends {show(m)[:80]}", at(f), p)
    if isname is True: ctx.check(len(res) == 1 and res[0].args == (a,) and d.get("address") is mk("awaited", res[0].res), R7, f.qualname + "[name]", "a name is not resolved to the address it is sent to", at(f), p)
    elif isname is False: ctx.check(d.get("address") is a, R7, f.qualname + "[address]", "the message goes to another address", at(f), p)
    else: ctx.check(False, R7, f.qualname + "[name]", "names are not resolved", at(f), p)
  g = ctx.p.func(NET + ".endpoint_or_address_to_endpoint")
  x, dp = [mk("param", a.arg, g.qualname) for a in g.node.args.args[:2]]
  for p in ctx.run(ctx.interp(), g):
    plain = any(a.op == "isinst" and a.a[0] is x and a.a[1] in ("builtins.int", "builtins.str") and v for a, v in p.facts)
    tup = fact(p.facts, mk("isinst", x, "builtins.tuple"))
    pair = p.kind == "return" and p.value is mk("tuple", x, dp)
    none = all(fact(p.facts, mk("isinst", x, t)) is False for t in ("builtins.int", "builtins.str"))
    if plain or tup is False: ctx.check(pair, R7, g.qualname, "an address without port does not get the default port", at(g), p)
    elif none or tup: ctx.check(p.kind == "return" and strip(p.value) is x, R7, g.qualname + "[endpoint]", "an endpoint is changed", at(g), p)
    else: ctx.check(False, R7, g.qualname, "addresses and endpoints are not told apart", at(g), p)
  sg = ctx.p.func(SIGNAL + ".send_signal")
  cl, ep, desc, body = [mk("param", a.arg, sg.qualname) for a in sg.node.args.args[:4]]
  it = ctx.interp(stop={SENDTO}, models=RAW)
  for p in ctx.run(it, sg):
    ss = [e for e in p.events if e.kind == "call" and call_of(e, "send_to")]
    if not ctx.check(p.kind == "return" and len(ss) == 1 and ss[0].awaited and ss[0].recv is cl, R7, sg.qualname, "not exactly one signal is sent", at(sg), p): continue
    m = next((s for s in subterms(it.norm(ss[0].args[1], p.st)) if s.op == "inst" and s.a[0] == SIGNAL + ".SignalMessage"), None)
    ctx.check(m is not None and fields(m).get("descriptor") is desc and strip(fields(m).get("body", NONE)) is body, R7, sg.qualname + "[content]", "the signal carries another descriptor or body", at(sg), p)
    a = strip(ss[0].args[0])
    ctx.check(a is ep or a.op == "tuple" and a.a[0] is ep and is_const(a.a[1]) and a.a[1].a[0] == constant(ctx, "NetworkPorts", "SIGNAL"), R7, sg.qualname + "[endpoint]", "the signal goes to another endpoint", at(sg), p)


def constants(ctx, cls):
  """integer and string constants of a class body"""
  c = ctx.p.cls("streamtasks.services.constants." + cls)
  out = {}
  for n in c.node.body:
    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
      try: out[n.targets[0].id] = _cev(n.value, out)
      except (ValueError, KeyError): pass
  return out


def _cev(n, env):
  if isinstance(n, ast.Name): return env[n.id]
  if isinstance(n, ast.BinOp): 
    a, b = _cev(n.left, env), _cev(n.right, env)
    return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "LShift": lambda: a << b, "Pow": lambda: a ** b, "BitOr": lambda: a | b}[type(n.op).__name__]()
  return ast.literal_eval(n)


def item(b, k): return mk("item", b, const(k))


def constant(ctx, cls, name): return constants(ctx, cls).get(name)


RULES = {"C01": c01, "C02": c02, "C04": c04, "C05": c05}
