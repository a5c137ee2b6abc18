"""Topic objects: synchronised receiving, registration, state."""
from __future__ import annotations
import itertools
from ..tev import replay
from .svc import *

SEQ, PRIO = TOPIC + ".SequentialInTopicSynchronizer", TOPIC + ".PrioritizedSequentialInTopicSynchronizer"
TRIG = "streamtasks.utils.AsyncTrigger"
AB = "streamtasks.utils.AsyncBool"
WAIT, TRIGGER = TRIG + ".wait", TRIG + ".trigger"


def forgetting(name):
  """model of an awaited notification: whatever was known about the shared state may have changed"""
  def m(it, f, a, k, n, st, fr):
    res = mk("notified", n.lineno, n.col_offset)
    s = st.event(it._mkev("call", st, fr, n, name=name, recv=f.a[0] if f.a and isinstance(f.a[0], T) else None, args=tuple(a), fterm=f, res=res, awaited=True, kw=())).copy()
    s.known = {x: v for x, v in s.known.items() if x.op == "isinst"}
    return [("v", res, s)]
  return m


def sync_interp(ctx): return ctx.interp(models={WAIT: forgetting(WAIT)}, stop={TRIGGER}, closed_loops=True, unroll=2)


def sync_fields(ctx, R, c):
  """fields of a synchroniser: last timestamps, finished topics, priorities"""
  me = mk("self", c.qualname)
  out = {}
  for nm, m, argn in (("ts", "wait_for", 2), ("done", "start_receive", 1), ("prio", "set_priority", 2)):
    try: f = ctx.method(c, m)
    except AnalysisBroken: continue
    if f.is_abstract: continue
    ps = [mk("param", a.arg, f.qualname) for a in f.node.args.args[1:]]
    for p in ctx.run(sync_interp(ctx), f, selfcls=c):
      for e in p.events:
        if e.recv is not None and e.recv.op == "attr" and e.recv.a[0] is me and e.kind in ("setitem", "call") and len(e.args) >= (2 if argn == 2 else 1) and list(e.args[:argn]) == ps[:argn] and (e.kind == "setitem" or e.fterm.op == "attr" and e.fterm.a[1] in ("add", "setdefault")): out[nm] = e.recv
  return out


def may_deliver(S, topic, t, prio):
  """the rule: nobody is behind, and nobody of higher priority at the same time is still to come"""
  lo = min(S["ts"].values()) if S["ts"] else 0
  if lo < t: return False
  if not prio: return True
  pr = lambda x: S["prio"].get(x, 0)
  return not any(x != topic and u == lo and x not in S["done"] and pr(x) > pr(topic) for x, u in S["ts"].items())


def sync_states(prio):
  for ts in ({}, {1: 5}, {2: 5}, {1: 5, 2: 5}, {1: 5, 2: 7}, {1: 7, 2: 5}, {2: 3, 3: 7}, {1: 3, 2: 3, 3: 5}, {1: 0, 2: 0}, {2: 7, 3: 7}, {1: 5, 2: 7, 3: 7}):
    if not prio: yield {"ts": ts, "done": set(), "prio": {}}; continue
    for done in (set(), {1}, {2}, {2, 3}, {1, 2}):
      for pr in ({}, {1: 1}, {2: 1}, {2: 1, 3: 2}, {1: 2, 2: 1}, {1: 1, 2: 1}, {2: -1}, {1: -1}):
        yield {"ts": ts, "done": done, "prio": pr}


def c08(ctx):
  R1 = ctx.rule("in-order", "a synchronised message is let through at once or after waiting exactly when no topic in sync is behind it and no topic of higher priority at the same time is still to come", 40)
  R2 = ctx.rule("past", "exactly the messages older than the last one of their topic are refused, and every other one becomes the last one of its topic", 20)
  R3 = ctx.rule("paused", "a paused topic is not waited for, one that resumes joins at the earliest time of the others", 10)
  R4 = ctx.rule("wakes", "whenever a change lets a waiting message through, the waiting ones are woken before anything else can happen", 20)
  R5 = ctx.rule("receiver", "a synchronised topic hands out exactly its control messages, its costs and those data messages that its synchroniser lets through under the time they carry, unchanged", 5)
  R6 = ctx.rule("trigger", "a trigger wakes everybody who waits on it, and nobody who starts waiting later", 4)
  for q in (SEQ, PRIO):
    c = ctx.p.cls(q)
    prio = q == PRIO
    me = mk("self", q)
    F = sync_fields(ctx, R1, c)
    if not ctx.check("ts" in F and (not prio or len(F) == 3), R1, q + "[state]", f"the synchroniser does not keep {'times, finished topics and priorities' if prio else 'the times of its topics'}", c.file): continue
    def env_of(S, extra): return {**{F[k]: v for k, v in S.items() if k in F}, **extra}
    def state_of(env): return {k: env[F[k]] if k in F else S0 for k, S0 in (("ts", {}), ("done", set()), ("prio", {}))}
    f = ctx.method(c, "wait_for")
    it = sync_interp(ctx)
    tp, tm = [mk("param", a.arg, f.qualname) for a in f.node.args.args[1:3]]
    ps = ctx.run(it, f, selfcls=c)
    for S in sync_states(prio):
      for t in (0, 3, 5, 6, 9):
        last = S["ts"].get(1, 0)
        S1 = {"ts": {**S["ts"], 1: t}, "done": S["done"] - {1}, "prio": S["prio"]}
        refuse, now = t < last, may_deliver(S1, 1, t, prio)
        hit = False
        for p in ps:
          ws = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == WAIT]
          r = replay(p, env_of(S, {tp: 1, tm: t}), lambda x: it.norm(x, p.st), stop=ws[0] if ws else None)
          if r is None: continue
          hit = True
          what = f"times {S['ts']}" + (f", finished {S['done'] or '{}'}, priorities {S['prio']}" if prio else "") + f": a message of topic 1 at {t}"
          if p.kind == "raise": ctx.fail(R1, f.qualname + "[raises]", f"{what} fails with {show(p.value)[:40]}", at(f), p); continue
          val = evalue(it, p, p.value, {tp: 1, tm: t})
          if refuse: ctx.check(not ws and val is False, R2, f.qualname, f"{what} is not refused although it is older than the last one", at(f), p)
          else:
            ctx.check(val is True, R2, f.qualname + "[passes]", f"{what} is refused", at(f), p)
            ctx.check(bool(ws) == (not now), R1, f.qualname, f"{what} {'waits' if ws else 'passes'}", at(f), p)
          st = state_of(r)
          ctx.check(st["ts"] == (S["ts"] if refuse else S1["ts"]), R2, f.qualname + "[time]", f"{what} leaves the times {st['ts']}", at(f), p)
          if prio: ctx.check(1 not in st["done"], R1, f.qualname + "[busy]", "a topic with a message at hand still counts as finished", at(f), p)
        ctx.check(hit, R1, f.qualname + "[total]", "some state is not handled", at(f))
    # after being woken: whatever happened meanwhile
    for p in ps:
      ws = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == WAIT]
      if not ws or p.kind == "raise": continue
      for S in sync_states(prio):
        for t in (5, 7):
          if S["ts"].get(1) != t or 1 in S["done"]: continue
          if replay(p, env_of(S, {tp: 1, tm: t}), lambda x: it.norm(x, p.st), start=ws[-1]) is None: ctx.ok(R1, f.qualname + "[woken]"); continue
          ctx.check(may_deliver(S, 1, t, prio), R1, f.qualname + "[woken]", f"a woken message of topic 1 at {t} passes with times {S['ts']}" + (f", finished {S['done'] or '{}'}, priorities {S['prio']}" if prio else ""), at(f), p)
    # pausing
    g = ctx.method(c, "set_paused")
    itp = sync_interp(ctx)
    gp, gv = [mk("param", a.arg, g.qualname) for a in g.node.args.args[1:3]]
    pp = ctx.run(itp, g, selfcls=c)
    for S in sync_states(False):
      for v in (True, False):
        hit = 0
        for p in pp:
          r = replay(p, env_of({**S, "done": set(), "prio": {}}, {gp: 1, gv: v}), lambda x: itp.norm(x, p.st))
          if r is None: continue
          hit += 1
          st = r[F["ts"]]
          want = {k: u for k, u in S["ts"].items() if k != 1} if v else {**S["ts"], 1: min(S["ts"].values()) if S["ts"] else 0}
          ctx.check(p.kind == "return" and st == want, R3, g.qualname, f"{'pausing' if v else 'resuming'} topic 1 turns the times {S['ts']} into {st}", at(g), p)
        ctx.check(hit, R3, g.qualname + "[total]", "some state is not handled", at(g))
    # waking
    for m in {k for b in ctx.p.mro(c) for k in b.methods}:
      h = ctx.method(c, m)
      if m.startswith("__") or h.is_abstract: continue
      ith = sync_interp(ctx)
      ph = ctx.run(ith, h, selfcls=c)
      params = [mk("param", a.arg, h.qualname) for a in h.node.args.args[1:]]
      if m.startswith("_") or not params: continue
      for p in ph:
        ch = [i for i, e in enumerate(p.events) if e.recv in F.values() and (e.kind in ("setitem", "delitem") or e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] in ("add", "discard", "remove", "pop", "clear", "update"))]
        if not ch: continue
        end = next((i for i in range(ch[-1], len(p.events)) if p.events[i].kind == "call" and p.events[i].name == WAIT), len(p.events))
        woken = [i for i in range(ch[-1], end) if p.events[i].kind == "call" and p.events[i].name == TRIGGER]
        if woken: ctx.ok(R4, f"{q}.{m}"); continue
        for S in sync_states(prio):
          for args in itertools.product((1, 2), *([(0, 2, 5, 9, True)] * (len(params) - 1))):
            if m in ("set_paused",) and not isinstance(args[1], bool): continue
            r = replay(p, env_of(S, dict(zip(params, args))), lambda x: ith.norm(x, p.st), stop=None if end == len(p.events) else end)
            if r is None: continue
            st = state_of(r)
            for x, u in S["ts"].items():
              if x in S["done"]: continue
              ctx.check(may_deliver(S, x, u, prio) or st["ts"].get(x) != u or not may_deliver(st, x, u, prio), R4, f"{q}.{m}", f"a message of topic {x} at {u} keeps waiting although it may pass after {m}{args}", at(h), p)
  # receiver
  k = ctx.p.cls(TOPIC + "._SynchronizedInTopicReceiver")
  f = ctx.method(k, "get")
  me = mk("self", k.qualname)
  A, D = mk("waction"), mk("wdata")
  pair = mk("wpair")
  SYNC = TOPIC + ".InTopicSynchronizer"
  TS = "streamtasks.message.utils.get_timestamp_from_message"
  for bad in (None, "builtins.ValueError"):
    it = ctx.interp(models={RECV + ".get": lambda it, f, a, kw, n, st, fr: [("v", pair, st.event(it._mkev("call", st, fr, n, name=RECV + ".get", recv=me, args=(), fterm=f, res=pair, awaited=True, kw=())))]}, await_map={pair: mk("tuple", A, D)}, stop={TS, RECV + ".get"},
                    raises_fn=lambda e, st: [bad] if bad and e.kind == "call" and e.name == TS else [])
    kinds = set()
    for p in ctx.run(it, f, selfcls=k):
      got = [i for i, e in enumerate(p.events) if e.kind == "call" and e.res is pair]
      sr = [i for i, e in enumerate(p.events) if e.kind == "call" and call_of(e, "start_receive") and e.args == (attr(me, "_topic"),)]
      wf = [e for e in p.events if e.kind == "call" and call_of(e, "wait_for")]
      sp = [e for e in p.events if e.kind == "call" and call_of(e, "set_paused")]
      if not got: ctx.fail(R5, f.qualname + "[gets]", "nothing is received", at(f), p); continue
      ctx.check(any(i < got[0] for i in sr), R5, f.qualname + "[idle]", "the synchroniser is not told that the topic has nothing at hand", at(f), p)
      act = {n: any(a.op in ("eq", "is") and v and A in a.a and any(x.op == 'enum' and x.a[1] == n for x in a.a) for a, v in p.facts) for n in ("DATA", "SET_CONTROL", "SET_COST")}
      noact = {n for n in act if any(a.op in ("eq", "is") and not v and A in a.a and any(x.op == 'enum' and x.a[1] == n for x in a.a) for a, v in p.facts)}
      is_ = [n for n in act if act[n]] or ([n for n in act if n not in noact] if len(noact) == 2 else [])
      failed = any(e.kind == "handle" for e in p.events)
      if bad and not failed and any(e.kind == "call" and e.name == TS for e in p.events): continue
      if p.kind == "raise":
        if not any(e.name == "assert" or "Assert" in show(p.value) for e in p.events): ctx.fail(R5, f.qualname + "[raises]", f"fails with {show(p.value)[:40]}", at(f), p)
        continue
      if not is_ and not noact: ctx.fail(R5, f.qualname + "[kinds]", "the kinds of messages are not told apart", at(f), p); continue
      if len(is_) != 1:
        if p.kind == "return": ctx.check(len(is_) > 1 and not wf, R5, f.qualname + "[kinds]", "the kinds of messages are not told apart", at(f), p)
        else: ctx.check(len(noact) == 3, R5, f.qualname + "[lost]", "messages that are no data are lost", at(f), p)
        continue
      n = is_[0]; kinds.add(n)
      out = it.norm(p.value, p.st) if p.kind == "return" else None
      same = out is pair or out is mk("awaited", pair) or out is not None and out.op == "tuple" and len(out.a) == 2 and out.a[1] is D and (out.a[0] is A or any(a.op in ("eq", "is") and v and A in a.a and out.a[0] in a.a for a, v in p.facts))
      if n == "SET_CONTROL":
        ctx.check(same, R5, f.qualname + "[control]", "a control message is not handed out", at(f), p)
        ctx.check(len(sp) == 1 and sp[0].awaited and sp[0].args == (attr(me, "_topic"), attr(D, "paused")), R5, f.qualname + "[pause]", "the synchroniser is not told that the topic is paused or resumed", at(f), p)
      elif n == "SET_COST": ctx.check(same and not wf, R5, f.qualname + "[cost]", "the cost of a topic is lost", at(f), p)
      else:
        if failed: ctx.check(p.kind != "return" and not wf, R5, f.qualname + "[timeless]", "data without a time is handed out", at(f), p); continue
        ts = [e for e in p.events if e.kind == "call" and e.name == TS and e.args and e.args[0] is D]
        ok = len(wf) == 1 and wf[0].awaited and len(ts) == 1 and wf[0].args == (attr(me, "_topic"), ts[0].res)
        ctx.check(ok, R5, f.qualname + "[asked]", "the synchroniser is not asked for the topic and time of the data", at(f), p)
        if ok:
          passed = truth_of(it, mk("awaited", wf[0].res), p.facts, p.st)
          ctx.check(passed is (p.kind == "return") and (p.kind != "return" or same), R5, f.qualname + "[passed]", "data is handed out although its synchroniser refused it, or the other way round", at(f), p)
    if bad is None: ctx.check(kinds == {"DATA", "SET_CONTROL", "SET_COST"}, R5, f.qualname + "[all]", f"only messages of the kinds {sorted(kinds)} are handled", at(f))
  s = ctx.p.cls(TOPIC + ".SynchronizedInTopic")
  f = ctx.method(s, "__init__")
  cl, tp, sy = [mk("param", a.arg, f.qualname) for a in f.node.args.args[1:4]]
  for p in ctx.run(ctx.interp(stop={RECV + ".__init__"}), f, selfcls=s):
    news = [e for e in p.events if e.kind == "call" and e.name == k.qualname]
    ctx.check(len(news) == 1 and [news[0].arg(0, "client"), news[0].arg(1, "topic"), news[0].arg(2, "sync")] == [cl, tp, sy] and final(p, mk("self", s.qualname), "_receiver") is news[0].res, R5, f.qualname, "a synchronised topic does not receive through its synchroniser", at(f), p)
  trigger_rules(ctx, R6)


def trigger_rules(ctx, R):
  c = ctx.p.cls(TRIG)
  me = mk("self", TRIG)
  f = ctx.method(c, "wait")
  lst = None
  for p in ctx.run(ctx.interp(), f, selfcls=c):
    app = [e for e in p.events if e.kind == "call" and (call_of(e, "append") or call_of(e, "add")) and root(e.recv) is me]
    ok = p.kind == "return" and len(app) == 1 and app[0].args[0] is p.value and contains(p.value, lambda x: ext_call(x, "asyncio.Future") or x.op == "call" and call_name(x) == "create_future")
    if not ok and p.kind == "return" and p.value is not None and len(app) == 1: ok = contains(p.value, app[0].args[0])
    ctx.check(ok, R, f.qualname, "waiting does not register a new future that ends the wait", at(f), p)
    if app: lst = app[0].recv
  f = ctx.method(c, "trigger")
  for p in ctx.run(ctx.interp(), f, selfcls=c):
    loops = [e for e in p.events if e.kind == "loop" and e.recv is not None]
    none = lst is not None and fact(p.facts, mk("truthy", lst)) is False
    walked = [e for e in loops if strip(e.recv) is lst]
    over = [e for e in p.events if e.kind == "call" and call_of(e, "clear") and e.recv is lst or e.kind == "setattr" and attr(me, e.name) is lst]
    ctx.check(p.kind == "return" and (bool(walked) or none), R, f.qualname, "not everybody who waits is looked at", at(f), p)
    ctx.check(bool(over) or none, R, f.qualname + "[forgets]", "those woken stay registered", at(f), p)
    ctx.check(not any(e.kind in ("leave", "break") for e in p.events), R, f.qualname + "[all]", "some of those who wait are not woken", at(f), p)
    el = [a for a, v in p.facts if a.op == "truthy" and a.a[0].op == "call" and call_name(a.a[0]) in ("done", "cancelled")]
    sets = [e for e in p.events if e.kind == "call" and call_of(e, "set_result")]
    if not none and walked:
      done = any(v for a, v in p.facts if a in el)
      ctx.check(not sets or any(not v for a, v in p.facts if a in el), R, f.qualname + "[cancelled]", "setting the future of somebody who no longer waits fails, and whoever comes after is not woken", at(f), p)
      ctx.check(bool(sets) != done, R, f.qualname + "[woken]", "one who waits is not woken" if not sets else "one who is done is set again", at(f), p)


# ------------------------------------------------------------------ C09 topic objects
PID = MSGNS + "PricedId"


def isinsts(ctx, msg, cls):
  """truth of every isinstance test of a message of this class"""
  mine = {getattr(c, "qualname", c) for c in ctx.p.mro(ctx.p.cls(MSGNS + cls))}
  return {mk("isinst", msg, MSGNS + n): MSGNS + n in mine for n in ("Message", "DataMessage", "TopicMessage", "TopicDataMessage", "TopicControlMessage", "AddressedMessage", "AddressesChangedMessage", "AddressesChangedRecvMessage", "InTopicsChangedMessage", "OutTopicsChangedMessage", "OutTopicsChangedRecvMessage")}


def pids(**k): return [Inst(PID, {"id": int(i[1:]), "cost": c}) for i, c in k.items()]


def puts(it, p, env):
  """[(kind, value term, event)] put into a receiver's queue on a path"""
  out = []
  for e in p.events:
    if e.kind == "call" and call_of(e, "put_nowait"):
      v = it.norm(e.args[0], p.st)
      out.append((v.a[0].a[1] if v.op == "tuple" and len(v.a) == 2 and v.a[0].op == "enum" else None, v.a[1] if v.op == "tuple" and len(v.a) == 2 else v, e))
  return out


def c09(ctx):
  R1 = ctx.rule("in-messages", "an input topic takes in exactly the data, control messages and costs of its own topic, a withdrawn topic has no cost", 12)
  R2 = ctx.rule("in-state", "what was taken in is handed out in order and unchanged, control messages set the paused state and costs the cost before anything later is handed out", 6)
  R3 = ctx.rule("out-requested", "an output topic counts as requested exactly as its subscription messages say, from its start to its stop", 10)
  R4 = ctx.rule("out-paused", "pausing an output topic sends one control message with the new state exactly when the state changes", 4)
  R5 = ctx.rule("registered", "changing the registration of a topic object announces its topic as the right kind, only on a change, and is remembered only once announced", 12)
  R6 = ctx.rule("contexts", "a context registers on entry what it unregisters on exit, for any iterable of topics, and lets errors through", 8)
  R7 = ctx.rule("flags", "waiting for a flag ends only with the flag at the waited value, and every change of a flag wakes the waiting ones", 6)
  # messages of an input topic
  k = ctx.p.cls(TOPIC + "._InTopicReceiver")
  me = mk("self", k.qualname)
  f = ctx.method(k, "on_message")
  msg = mk("param", f.node.args.args[1].arg, f.qualname)
  it = ctx.interp()
  ps = ctx.run(it, f, selfcls=k)
  cases = [("OutTopicsChangedRecvMessage", {"add": pids(**a), "remove": pids(**r)}, want) for a, r, want in (
    ({}, {}, []), ({"_1": 4}, {}, [("SET_COST", 4)]), ({"_1": 0}, {}, [("SET_COST", 0)]), ({"_2": 4}, {}, []), ({"_2": 3, "_1": 4}, {}, [("SET_COST", 4)]), ({}, {"_1": 4}, [("SET_COST", None)]), ({}, {"_2": 4, "_1": 3}, [("SET_COST", None)]),
    ({"_1": 4}, {"_2": 3}, [("SET_COST", 4)]), ({"_2": 4}, {"_1": 3}, [("SET_COST", None)]), ({"_2": 4}, {"_3": 3}, []))]
  cases += [(c_, {"topic": t, "paused": True}, [(n, ...)] if t == 1 and n else []) for c_, n in (("TopicDataMessage", "DATA"), ("TopicControlMessage", "SET_CONTROL")) for t in (1, 2)]
  cases += [(c_, {"add": [], "remove": [], "address": 1, "port": 1}, []) for c_ in ("AddressedMessage", "InTopicsChangedMessage", "AddressesChangedRecvMessage")]
  cases += [("InTopicsChangedMessage", {"add": {1}, "remove": {1}}, [])]
  for cls, fs, want in cases:
    env = {**isinsts(ctx, msg, cls), **{attr(msg, n): v for n, v in fs.items()}, attr(me, "_topic"): 1}
    hit = 0
    for p in ps:
      en = replay(p, env, lambda x: it.norm(x, p.st))
      if en is None: continue
      hit += 1
      what = f"a {cls} with {', '.join(f'{n}={v}' for n, v in fs.items())} for topic 1"
      got = puts(it, p, env)
      if not ctx.check(p.kind == "return" and len(got) == len(want), R1, f.qualname, f"{what} is taken in {len(got)} times", at(f), p): continue
      for (n, v, e), (wn, wv) in zip(got, want):
        ctx.check(n == wn, R1, f.qualname + "[kind]", f"{what} is taken in as {n}", at(f), p)
        if wn == "DATA": ctx.check(v is attr(msg, "data"), R1, f.qualname + "[data]", "the data is changed", at(f), p)
        elif wn == "SET_CONTROL":
          ok = v.op == "call" and call_name(v) == "to_data" and call_recv(v) is msg or v.op == "inst" and fields(v).get("paused") is attr(msg, "paused")
          ctx.check(ok, R1, f.qualname + "[control]", "the control message is changed", at(f), p)
        else:
          el = [x for x in subterms(v) if x.op == "elem" and x not in env]
          if el:
            opts = [x for x in ev(el[0].a[0], env) if holds([(a, b) for a, b in p.facts if contains(a, el[0])], {**env, el[0]: x})]
            val = {repr(evalue(it, p, v, {**env, el[0]: x})) for x in opts}
            ctx.check(val == {repr(wv)}, R1, f.qualname + "[cost]", f"{what} sets the cost {sorted(val)}", at(f), p)
          else: ctx.check(evalue(it, p, v, env) == wv and evalue(it, p, v, env) is not ..., R1, f.qualname + "[cost]", f"{what} sets another cost", at(f), p)
    ctx.check(hit, R1, f.qualname + "[total]", f"a {cls} is not handled", at(f))
  td = ctx.method(ctx.p.cls(MSGNS + "TopicControlMessage"), "to_data")
  for p in ctx.run(ctx.interp(), td): ctx.check(p.value.op == "inst" and p.value.a[0] == MSGNS + "TopicControlData" and fields(p.value).get("paused") is attr(mk("self", MSGNS + "TopicControlMessage"), "paused"), R1, td.qualname, "the control data does not carry the paused state", at(td), p)
  tm = ctx.method(ctx.p.cls(MSGNS + "TopicControlData"), "to_message")
  for p in ctx.run(ctx.interp(), tm):
    d = fields(p.value) if p.value.op == "inst" else {}
    ctx.check(d.get("paused") is attr(mk("self", MSGNS + "TopicControlData"), "paused") and d.get("topic") is mk("param", tm.node.args.args[1].arg, tm.qualname) and p.value.a[0] == MSGNS + "TopicControlMessage", R4, tm.qualname, "the control message does not carry topic and paused state", at(tm), p)
  # state of an input topic
  k = ctx.p.cls(TOPIC + ".InTopic")
  me = mk("self", k.qualname)
  A, D, pair = mk("waction"), mk("wdata"), mk("wpair")
  getm = lambda it, f, a, kw, n, st, fr: [("v", pair, st.event(it._mkev("call", st, fr, n, name=RECV + ".get", recv=f.a[0], args=(), fterm=f, res=pair, awaited=True, kw=())))]
  cf = prop_field(ctx, k, "cost")
  flag = flag_of(ctx, k, "is_paused")
  for nm, wanted in (("recv_data_control", {"DATA", "SET_CONTROL"}), ("recv_data", {"DATA"})):
    f = ctx.method(k, nm)
    it = ctx.interp(models={RECV + ".get": getm}, await_map={pair: mk("tuple", A, D)}, stop={AB + ".set"})
    kinds = set()
    for p in ctx.run(it, f, selfcls=k):
      if p.kind == "raise":
        ctx.check("Assertion" in show(p.value), R2, f.qualname + "[raises]", f"fails with {show(p.value)[:40]}", at(f), p); continue
      n = action(p, A)
      got = [e for e in p.events if e.res is pair]
      if not ctx.check(len(got) == 1, R2, f.qualname + "[one]", "messages are lost: several are taken for one that is handed out", at(f), p): continue
      if n is None: ctx.check(p.kind == "loopback" or p.kind == "raise", R2, f.qualname + "[kinds]", "the kinds of messages are not told apart", at(f), p); continue
      kinds.add(n)
      isctl = fact(p.facts, mk("isinst", D, MSGNS + "TopicControlData"))
      if n == "DATA" and isctl: continue            # data is never control data
      sets = [e for e in p.events if e.kind == "call" and e.name == AB + ".set"]
      cost = [e for e in p.events if e.kind == "setattr" and e.recv is me and e.name == cf]
      ctx.check((p.kind == "return") == (n in wanted), R2, f.qualname, f"a {n} message {'ends' if p.kind == 'return' else 'does not end'} receiving", at(f), p)
      if p.kind == "return": ctx.check(it.norm(p.value, p.st) is D, R2, f.qualname + "[value]", "something else than what was received is handed out", at(f), p)
      ctx.check([e.args[0] for e in cost] == ([D] if n == "SET_COST" else []), R2, f.qualname + "[cost]", f"a {n} message leaves the wrong cost", at(f), p)
      ctx.check([(e.recv, e.args[0]) for e in sets] == ([(flag, attr(D, "paused"))] if n == "SET_CONTROL" else []), R2, f.qualname + "[paused]", f"a {n} message leaves the wrong paused state", at(f), p)
    ctx.check(kinds == {"DATA", "SET_CONTROL", "SET_COST"}, R2, f.qualname + "[all]", f"only messages of the kinds {sorted(kinds)} are handled", at(f))
  for nm, target in (("start", RECV + ".start_recv"), ("stop", RECV + ".stop_recv")):
    f = ctx.method(k, nm)
    for p in ctx.run(ctx.interp(stop={RECV + ".start_recv", RECV + ".stop_recv"}), f, selfcls=k):
      cs = [e for e in p.events if e.kind == "call" and e.name in (RECV + ".start_recv", RECV + ".stop_recv")]
      ctx.check(p.kind == "return" and [(e.name, e.recv, e.awaited) for e in cs] == [(target, attr(me, "_receiver"), True)], R2, f.qualname, f"the receiver is not {'started' if nm == 'start' else 'stopped'}", at(f), p)
  # messages of an output topic
  k = ctx.p.cls(TOPIC + "._OutTopicReceiver")
  me = mk("self", k.qualname)
  f = ctx.method(k, "on_message")
  msg = mk("param", f.node.args.args[1].arg, f.qualname)
  it = ctx.interp()
  ps = ctx.run(it, f, selfcls=k)
  cases = [("InTopicsChangedMessage", {"add": a, "remove": r}, w) for a, r, w in ((set(), set(), []), ({1}, set(), [True]), ({2, 1}, {3}, [True]), (set(), {1}, [False]), ({2}, {1, 3}, [False]), ({2}, {3}, []))]
  cases += [(c_, {"add": [], "remove": [], "topic": 1}, []) for c_ in ("TopicDataMessage", "OutTopicsChangedRecvMessage", "AddressedMessage", "TopicControlMessage")]
  for cls, fs, want in cases:
    env = {**isinsts(ctx, msg, cls), **{attr(msg, n): v for n, v in fs.items()}, attr(me, "_topic"): 1}
    hit = 0
    for p in ps:
      if replay(p, env, lambda x: it.norm(x, p.st)) is None: continue
      hit += 1
      got = puts(it, p, env)
      ctx.check(p.kind == "return" and [(n, evalue(it, p, v, env)) for n, v, e in got] == [("SET_REQUESTED", w) for w in want], R3, f.qualname, f"a {cls} with {', '.join(f'{n}={v}' for n, v in fs.items())} for topic 1 is taken in as {[(n, show(v)) for n, v, e in got]}", at(f), p)
    ctx.check(hit, R3, f.qualname + "[total]", f"a {cls} is not handled", at(f))
  k = ctx.p.cls(TOPIC + ".OutTopic")
  me = mk("self", k.qualname)
  flag = flag_of(ctx, k, "is_requested")
  st, sp = ctx.method(k, "start"), ctx.method(k, "stop")
  RS = {RECV + ".start_recv", RECV + ".stop_recv"}
  tfield = runner = None
  for p in ctx.run(ctx.interp(stop=RS), st, selfcls=k):
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and contains(e.args[0], lambda s: ext_call(s, "asyncio.create_task") or ext_call(s, "asyncio.ensure_future")):
        tfield = e.name
        for s in subterms(e.args[0]):
          if s.op == "coro":
            h = p.st.heap.get(s.a[1])
            if h: runner = h[1][0]
          elif s.op in ("bound", "attr") and s.a[0] is me and runner is None: runner = k.methods.get(str(s.a[1]).split(".")[-1])
  if ctx.check(tfield is not None and runner is not None, R3, st.qualname, "nothing follows the subscription messages of a started output topic", at(st)):
    for p in ctx.run(ctx.interp(stop=RS), st, selfcls=k):
      had = fact(p.facts, mk("is", attr(me, tfield), NONE)) is False or fact(p.facts, mk("truthy", attr(me, tfield))) is True
      made = any(e.kind == "setattr" and e.recv is me and e.name == tfield and not is_const(e.args[0], None) for e in p.events)
      cs = [e for e in p.events if e.kind == "call" and e.name in RS]
      ctx.check(p.kind == "return" and (had or made) and not (had and made), R3, st.qualname + "[task]", "not exactly one task follows the subscription messages", at(st), p)
      ctx.check([(e.name, e.recv, e.awaited) for e in cs] == [(RECV + ".start_recv", attr(me, "_receiver"), True)], R3, st.qualname + "[receives]", "the receiver is not started", at(st), p)
    for p in ctx.run(ctx.interp(stop=RS), sp, selfcls=k):
      none = fact(p.facts, mk("is", attr(me, tfield), NONE)) is True or fact(p.facts, mk("truthy", attr(me, tfield))) is False
      cn = [e for e in p.events if e.kind == "call" and call_of(e, "cancel") and e.recv is attr(me, tfield)]
      v = final(p, me, tfield)
      cs = [e for e in p.events if e.kind == "call" and e.name in RS]
      ctx.check(p.kind == "return" and (none or len(cn) == 1 and v is not None and is_const(v, None)), R3, sp.qualname, "the task keeps running after the stop, or blocks the next start", at(sp), p)
      ctx.check([(e.name, e.recv, e.awaited) for e in cs] == [(RECV + ".stop_recv", attr(me, "_receiver"), True)], R3, sp.qualname + "[receives]", "the receiver is not stopped", at(sp), p)
    it = ctx.interp(models={RECV + ".get": getm}, await_map={pair: mk("tuple", A, D)}, stop={AB + ".set"})
    n = 0
    for p in ctx.run(it, runner, selfcls=k):
      ctx.check(p.kind == "loopback", R3, runner.qualname, f"following the subscription messages ends ({p.kind})", at(runner), p)
      act = action(p, A, ("SET_REQUESTED",))
      got = [e for e in p.events if e.res is pair]
      sets = [(e.recv, e.args[0]) for e in p.events if e.kind == "call" and e.name == AB + ".set"]
      if act != "SET_REQUESTED" and any(A in a.a for a, v in p.facts): continue
      n += 1
      ctx.check(len(got) == 1 and sets == [(flag, D)], R3, runner.qualname + "[follows]", "a subscription message does not set the requested state", at(runner), p)
    ctx.check(n, R3, runner.qualname + "[some]", "no subscription message is followed", at(runner))
  # pausing an output topic
  f = ctx.method(k, "set_paused")
  it = ctx.interp(stop={CL + ".send_stream_control"})
  pv = mk("param", f.node.args.args[1].arg, f.qualname)
  pf = prop_field(ctx, k, "is_paused")
  ps = ctx.run(it, f, selfcls=k)
  for old in (False, True):
    for new in (False, True):
      env = {attr(me, pf): old, pv: new}
      hit = [p for p in ps if holds(p.facts, env, lambda x: it.norm(x, p.st))]
      ctx.check(hit, R4, f.qualname + "[total]", f"changing paused from {old} to {new} is not handled", at(f))
      for p in hit:
        ss = [e for e in p.events if e.kind == "call" and e.name == CL + ".send_stream_control"]
        if not ctx.check(p.kind == "return" and len(ss) == (old != new) and all(e.awaited for e in ss), R4, f.qualname, f"changing paused from {old} to {new} sends {len(ss)} control messages", at(f), p): continue
        for e in ss:
          d = it.norm(e.args[1], p.st)
          ctx.check(e.args[0] is attr(me, "_topic") and d.op == "inst" and evalue(it, p, fields(d).get("paused", NONE), env) is new, R4, f.qualname + "[content]", "the control message carries another topic or state", e.loc, p)
        v = final(p, me, pf)
        ctx.check((evalue(it, p, v, env) if v is not None else old) is new, R4, f.qualname + "[state]", f"changing paused from {old} to {new} is not remembered", at(f), p)
  # registration
  for q, side in ((TOPIC + ".InTopic", "in"), (TOPIC + ".OutTopic", "out"), (TOPIC + ".SynchronizedInTopic", "in")):
    c = ctx.p.cls(q)
    me = mk("self", q)
    f = ctx.method(c, "set_registered")
    REGS = {CL + f".{a}register_{s}_topics" for a in ("", "un") for s in ("in", "out")}
    rv = mk("param", f.node.args.args[1].arg, f.qualname)
    rf = prop_field(ctx, c, "is_registered")
    for bad in (None, "builtins.OSError", CANCEL):
      it = ctx.interp(stop=REGS, raises_fn=lambda e, st: [bad] if bad and e.kind == "call" and e.name in REGS else [])
      ps = ctx.run(it, f, selfcls=c)
      for old in (False, True):
        for new in (False, True):
          env = {attr(me, rf): old, rv: new}
          hit = [p for p in ps if holds(p.facts, env, lambda x: it.norm(x, p.st))]
          ctx.check(hit, R5, f"{q}[total]", f"changing the registration from {old} to {new} is not handled", at(f))
          for p in hit:
            rs = [e for e in p.events if e.kind == "call" and e.name in REGS]
            want = [] if old == new else [CL + f".{'' if new else 'un'}register_{side}_topics"]
            ctx.check([e.name for e in rs] == want and all(e.awaited for e in rs), R5, q, f"changing the registration from {old} to {new} leads to {[e.name.split('.')[-1] for e in rs]}", at(f), p)
            for e in rs: ctx.check(lit_items(it, p, e.args[0]) == (attr(me, "_topic"),), R5, q + "[topic]", f"registers {show(it.norm(e.args[0], p.st))[:50]}", e.loc, p)
            v = final(p, me, rf)
            now = evalue(it, p, v, env) if v is not None else old
            ctx.check(now is (old if p.kind == "raise" else new), R5, q + "[state]", f"after {'a failed change' if p.kind == 'raise' else 'changing'} from {old} to {new} the topic counts as {'' if now else 'not '}registered", at(f), p)
  # contexts
  for q, on, off, arg in ((TOPIC + "._TopicRegisterContext", None, None, None), (TOPIC + ".InTopicsContext", CL + ".register_in_topics", CL + ".unregister_in_topics", 1), (TOPIC + ".OutTopicsContext", CL + ".register_out_topics", CL + ".unregister_out_topics", 1)):
    c = ctx.p.cls(q)
    me = mk("self", q)
    ini = ctx.method(c, "__init__")
    pin = [mk("param", a.arg, ini.qualname) for a in ini.node.args.args[1:]]
    fld = {}
    for p in ctx.run(ctx.interp(), ini, selfcls=c):
      for e in p.events:
        if e.kind == "setattr" and e.recv is me: fld[e.name] = it.norm(e.args[0], p.st)
    once = {}
    for m in ("__aenter__", "__aexit__"):
      f = ctx.method(c, m)
      itc = ctx.interp(stop={on, off, TOPIC + "._TopicBase.set_registered"} - {None})
      for p in ctx.run(itc, f, selfcls=c):
        cs = [e for e in p.events if e.kind == "call" and e.awaited and (e.name in (on, off) or call_of(e, "set_registered"))]
        if not ctx.check(p.kind == "return" and len(cs) == 1, R6, f.qualname, f"{'entering' if m == '__aenter__' else 'leaving'} changes the registration {len(cs)} times", at(f), p): continue
        e = cs[0]
        if on is None: ctx.check(e.args and is_const(e.args[0], m == "__aenter__") and fld.get(e.recv.a[1] if e.recv.op == "attr" else None) is pin[0], R6, f.qualname, "another registration is made", at(f), p)
        else:
          ok = e.name == (on if m == "__aenter__" else off) and e.args and strip(e.args[0]).op == "attr" and strip(e.args[0]).a[0] is me and not e.kw
          if ctx.check(ok, R6, f.qualname, "other topics are registered than given, or another kind", at(f), p):
            v = fld.get(strip(e.args[0]).a[1])
            once.setdefault(merged(e.args[0]) or v is not None and merged(v), m)
            ctx.check(len(once) == 1, R6, f.qualname + "[times]", "a topic given twice is registered twice but unregistered once, or the other way around", at(f), p)
            ctx.check(v is not None and strip(v) is pin[arg], R6, f.qualname + "[topics]", "other topics are registered than given", at(f), p)
            ctx.check(v is not None and v is not pin[arg] and (v.op == "copy" or v.op == "call"), R6, f.qualname + "[once]", "an iterable that can be gone through only once is unregistered as empty", at(f), p)
          rc = fld.get(e.recv.a[1]) if e.recv.op == "attr" and e.recv.a[0] is me else None
          ctx.check(rc is pin[0], R6, f.qualname + "[client]", "the topics of another client are changed", at(f), p)
        if m == "__aexit__": ctx.check(truth_of(itc, p.value, p.facts, p.st) is False, R6, f.qualname + "[errors]", "an error in the body of the context is swallowed", at(f), p)
  c = ctx.p.cls(CL)
  for m, q in (("in_topics_context", TOPIC + ".InTopicsContext"), ("out_topics_context", TOPIC + ".OutTopicsContext")):
    f = ctx.method(c, m)
    for p in ctx.run(ctx.interp(stop={q + ".__init__"}), f, selfcls=c):
      news = [e for e in p.events if e.kind == "call" and e.name == q]
      ctx.check(len(news) == 1 and p.value is news[0].res and news[0].arg(0, "client") is mk("self", CL) and news[0].arg(1, "topics") is mk("param", f.node.args.args[1].arg, f.qualname), R6, f.qualname, "the context is not one of the client and the given topics", at(f), p)
  c = ctx.p.cls(TOPIC + "._TopicBase")
  f = ctx.method(c, "RegisterContext")
  for p in ctx.run(ctx.interp(), f, selfcls=c):
    news = [e for e in p.events if e.kind == "call" and e.name == TOPIC + "._TopicRegisterContext"]
    ctx.check(len(news) == 1 and p.value is news[0].res and news[0].args[:1] == (mk("self", c.qualname),), R6, f.qualname, "the context is not one of the topic", at(f), p)
  flag_rules(ctx, R7)


def action(p, A, names=("DATA", "SET_CONTROL", "SET_COST")):
  """which kind of message a path handles, when its facts tell"""
  no = set()
  for a, v in p.facts:
    if a.op in ("eq", "is") and A in a.a:
      for x in a.a:
        if x.op == "enum":
          if v: return x.a[1]
          no.add(x.a[1])
  left = [n for n in names if n not in no]
  return left[0] if len(left) == 1 and no else None


def prop_field(ctx, c, name):
  """field behind a property"""
  f = ctx.method(c, name)
  for p in ctx.run(ctx.interp(), f, selfcls=c):
    if p.kind == "return" and p.value.op == "attr" and p.value.a[0].op == "self": return p.value.a[1]
  return "_" + name


def flag_of(ctx, c, name):
  """the flag object behind a property"""
  f = ctx.method(c, name)
  for p in ctx.run(ctx.interp(stop={AB + ".__bool__", AB + ".value"}), f, selfcls=c):
    for t in subterms(p.value):
      if t.op == "attr" and t.a[0] is mk("self", c.qualname): return t
  return None


def lit_items(it, p, t):
  n = it.norm(t, p.st)
  while n.op == "copy": n = n.a[1]
  if n.op == "tuple": return n.a
  return n.a[1:] if n.op == "lit" and all(isinstance(x, T) and x.op not in ("spread", "kv") for x in n.a[1:]) else None


def flag_rules(ctx, R):
  c = ctx.p.cls(AB)
  me = mk("self", AB)
  f, w = ctx.method(c, "set"), ctx.method(c, "wait")
  it = ctx.interp(stop={TRIGGER})
  pv = mk("param", f.node.args.args[1].arg, f.qualname)
  ps = ctx.run(it, f, selfcls=c)
  fld = next((e.name for p in ps for e in p.events if e.kind == "setattr" and e.recv is me), "_value")
  for old in (False, True):
    for new in (False, True):
      env = {attr(me, fld): old, pv: new, mk("truthy", me): old}
      hit = [p for p in ps if holds(p.facts, env, lambda x: it.norm(x, p.st))]
      ctx.check(hit, R, f.qualname + "[total]", f"setting {old} to {new} is not handled", at(f))
      for p in hit:
        v = final(p, me, fld)
        tr = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == TRIGGER]
        sv = [i for i, e in enumerate(p.events) if e.kind == "setattr" and e.recv is me and e.name == fld]
        ctx.check((evalue(it, p, v, env) if v is not None else old) is new, R, f.qualname, f"setting {old} to {new} has no effect", at(f), p)
        ctx.check(old == new or bool(tr) and tr[-1] > sv[-1], R, f.qualname + "[wakes]", "the waiting ones are not woken by a change", at(f), p)
  it = ctx.interp(models={WAIT: forgetting(WAIT)}, closed_loops=True, unroll=2)
  pv = mk("param", w.node.args.args[1].arg, w.qualname)
  for p in ctx.run(it, w, selfcls=c):
    ws = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == WAIT]
    for cur in (False, True):
      for want in (False, True):
        env = {attr(me, fld): cur, pv: want, mk("truthy", me): cur}
        if replay(p, env, lambda x: it.norm(x, p.st), stop=ws[0] if ws else None) is None: continue
        ctx.check(p.kind == "return" and bool(ws) == (cur != want), R, w.qualname, f"waiting for {want} while the flag is {cur} {'ends at once' if not ws else 'waits'}", at(w), p)
  b = ctx.method(c, "__bool__")
  for p in ctx.run(ctx.interp(), b, selfcls=c): ctx.check(p.value is attr(me, fld) or truth_of(it, p.value, p.facts, p.st) is fact(p.facts, mk("truthy", attr(me, fld))), R, b.qualname, "the truth of a flag is not its value", at(b), p)


RULES = {"C08": c08, "C09": c09}
