"""Buffers, detectors, repeaters: tasks that keep messages or what they learn from them."""
from __future__ import annotations
import ast, itertools
from .tasks2 import *
from ..interp import State

TASKS = "streamtasks.system.tasks."
SYNC = "streamtasks.utils.TimeSynchronizer"
NOW, OFFSET = 7_000, 250  # ms


def times(ctx, r, p, ts, **stamps):
  """an assignment of the clock and the offsets of time synchronizers in some terms"""
  env = {}
  for t in {x for t in ts for x in subterms(t)}:
    if t.op == "call":
      n = ext_name(t) or ""
      if n.endswith("time.time_ns"): env[t] = NOW * 10 ** 6
      elif n.endswith("time.time"): env[t] = NOW / 1000
    elif t.op == "attr":
      k = r.it.types.get(t.a[0])
      if isinstance(k, Class) and k.qualname == SYNC if hasattr(k, "qualname") else False: env[t] = OFFSET
      elif t.a[1] in stamps: env[t] = stamps[t.a[1]]
      elif t.a[1] == "_time_offset": env[t] = OFFSET
  return env


def value(t, env):
  try: return value_of(t, env)
  except Unk: return Unk


def setters(evs): return [e for e in evs if e.kind == "call" and (e.name or "").endswith("set_timestamp_on_message") and len(e.args) == 2]


def of_topic(m, *names): return any(attr_is(m.a[0], n) for n in names)


def data_rounds(rs, *names):
  for r in rs:
    for p in r.paths:
      for m, evs in rounds(p):
        if of_topic(m, *names): yield r, p, m, evs, (evs[0].loc if evs else f"{r.func.file}:{r.func.line}")


def buffer_of(ctx, R, k, rs, name="in_topic"):
  """where the messages of an input are kept: each is appended once, as it came"""
  bufs = set()
  for r, p, m, evs, loc in data_rounds(rs, name):
    keeps = [e for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] in ("append", "insert", "appendleft", "put_nowait", "put", "extend") and e.args and any(x is m for x in subterms(e.args[-1]))]
    if m.a[-1] == "control":
      ctx.check(not keeps, R, r.name + "[pause]", "a pause is kept as a message", loc, p)
      continue
    ctx.check(len(keeps) == 1 and keeps[0].name.split(".")[-1] in ("append", "put_nowait", "put") and keeps[0].args[0] is m, R, r.name + "[kept]", "a message is not kept, kept more than once, changed or not put at the end", loc, p)
    bufs |= {e.recv for e in keeps}
  ctx.check(len(bufs) == 1, R, f"{k.name}[buffer]", "messages are kept in no place or in several", k.module.name)
  return next(iter(bufs)) if len(bufs) == 1 else None


TAKES_ONE = ("pop", "popleft", "get", "get_nowait")
DROPS = ("clear", "__delitem__", "remove")


def time_buffer(ctx, R1, R2, R3):
  k = named(ctx, "TimeBufferTask")
  rs = task_runs(ctx, k, Got(ctx))
  buf = buffer_of(ctx, R1, k, rs)
  if buf is None: return
  P = {attr(e.recv, e.name) for r, p, m, evs, loc in data_rounds(rs, "in_topic") if m.a[-1] == "control" for e in evs if e.kind == "setattr" and same_truth(p, e.args[0], attr(m, "paused"))}
  ctx.check(len(P) == 1, R3, f"{k.name}[paused]", "it is not kept whether the input is paused", k.module.name)
  P = next(iter(P), None)
  trig = set()
  for r, p, m, evs, loc in data_rounds(rs, "in_topic"):
    ts = {e.recv for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] in ("trigger", "set", "notify", "notify_all")}
    if m.a[-1] == "control" and P is not None: ctx.check(any(e.kind == "setattr" and attr(e.recv, e.name) is P for e in evs), R3, r.name + "[pause]", "a pause or resume of the input is not kept", loc, p)
    ctx.check(bool(ts), R1, r.name + "[told]", "the sender is not told about what was received", loc, p)
    trig |= ts
  for r in rs:
    for p in r.paths:
      takes = [e for e in p.events if e.kind == "call" and e.recv is buf and (e.name or "").split(".")[-1] in TAKES_ONE]
      sends = outs(ctx, r, p.events)
      if any(is_recv(e) for e in p.events): continue
      for e in p.events:
        if e.kind == "delitem" and e.recv is buf or e.kind == "call" and e.recv is buf and (e.name or "").split(".")[-1] in DROPS: ctx.check(False, R2, r.name + "[dropped]", "messages are dropped", e.loc, p)
      if not sends and not takes: continue
      loc = (sends or takes)[0].loc
      for e in takes:
        n = e.name.split(".")[-1]
        ctx.check(n in ("popleft", "get", "get_nowait") or n == "pop" and bool(e.args) and e.args[0] is const(0), R2, r.name + "[oldest]", "another message than the oldest one is taken", e.loc, p)
      ctx.check([id(e.args[0]) for e in sends] == [id(e.res) for e in takes] and not setters(p.events), R2, r.name + "[once]", "what is taken from the buffer and what is sent are not the same messages, once each and unchanged", loc, p)
      # when is the oldest one sent?
      stamps = {t for e in p.events if e.kind == "usable" for t in [e.recv] if t is not None}
      terms = {t for a, _ in p.facts for t in subterms(a)} | {t for e in p.events for a in e.args or () for t in subterms(a)}
      st = [t for t in terms if t.op == "stamp" and any(x is buf for x in subterms(t))]
      usable = [e for e in p.events if e.kind == "usable"]
      if not usable or any(e.kind in ("unusable", "handle") for e in p.events) or not st: continue
      clock = [t for t in terms if t.op == "call" and ((ext_name(t) or "").endswith(("time.time_ns", "time.time")))]
      if clock and len(st) == 1:
        for age in (100, 499, 500, 501, 900):
          env = {**times(ctx, r, p, terms, size=500), st[0]: NOW - age}
          if not certain(p, env, st): continue
          first = p.events.index(sends[0])
          naps = [value(e.args[0], env) for e in p.events[:first] if e.kind == "call" and (e.name or "").endswith("asyncio.sleep")]
          if Unk in naps: continue
          ctx.check(abs(sum(max(x, 0) for x in naps) - max(500 - age, 0) / 1000) < 1e-6, R2, r.name + "[held]", f"a message of {age} ms ago is held for {sum(max(x, 0) for x in naps):g} s more by a buffer of 500 ms", loc, p)
  # by the times of the messages
  for r in rs:
    for p in r.paths:
      if any(is_recv(e) for e in p.events): continue
      facts = [(a, v) for a, v in p.facts]
      st = {t for a, _ in facts for t in subterms(a) if t.op == "stamp" and any(x is buf for x in subterms(t))}
      if len(st) != 2 or any(e.kind in ("unusable", "handle") for e in p.events): continue
      old = [t for t in st if any(x.op == "const" and x.a[0] == 0 for x in subterms(t))]
      new = [t for t in st if any(x.op == "const" and x.a[0] == -1 for x in subterms(t))]
      if len(old) != 1 or len(new) != 1: continue
      us = [i for i, e in enumerate(p.events) if e.kind == "usable"]
      end = next((i for i, e in enumerate(p.events) if i > us[-1] and e.kind == "wleave"), len(p.events)) if us else 0
      sent = [e for e in p.events[us[-1]:end] if e in outs(ctx, r, p.events)] if us else []
      for span in (0, 499, 500, 501):
        env = {**times(ctx, r, p, {x for a, _ in facts for x in subterms(a)}, size=500), old[0]: 1000, new[0]: 1000 + span}
        if not certain(p, env, list(st)): continue
        ctx.check(bool(sent) == (span >= 500), R2, r.name + "[window]", f"the oldest message is {'sent' if sent else 'held'} although the newest one is {span} ms younger, with a buffer of 500 ms", f"{r.func.file}:{r.func.line}", p)
  if P is None: return
  for r in rs:
    for p in r.paths:
      if any(is_recv(e) for e in p.events): continue
      for e in outs(ctx, r, p.events, "set_paused"):
        known = {a: v for a, v in p.facts}
        for paused in (True, False):
          if known.get(mk("truthy", P), paused) != paused and known.get(P, paused) != paused: continue
          if any(a.op in ("truthy", "bool") and a.a[0] is P and v != paused for a, v in p.facts): continue
          for q in ([], [1]):
            if any(a.op in ("truthy", "bool") and a.a[0] is buf and v != bool(q) for a, v in p.facts): continue
            x = value(e.args[0], {P: paused, buf: q})
            if x is Unk: continue
            ctx.check(bool(x) == (paused and not q), R3, r.name + "[output]", f"the output is {'paused' if x else 'not paused'} although the input is {'' if paused else 'not '}paused and {'messages are' if q else 'no message is'} left", e.loc, p)


def certain(p, env, about):
  """are all facts of a path on some terms true in an assignment?"""
  for a, v in p.facts:
    if not any(x in about for x in subterms(a)): continue
    x = value(a, env)
    if x is Unk or bool(x) != v: return False
  return True


def replay_buffer(ctx, R1, R2, R3):
  k = named(ctx, "ReplayBufferTask")
  rs = task_runs(ctx, k, Got(ctx))
  buf = buffer_of(ctx, R1, k, rs)
  if buf is None: return
  # a resume after a pause empties it
  two = task_runs(ctx, k, Got(ctx, bad=False), unroll=2)
  cleared = 0
  for r in two:
    for p in r.paths:
      ms = rounds(p)
      if not ms or not of_topic(ms[0][0], "in_topic"): continue
      clears = [[e for e in evs if e.kind == "call" and e.recv is buf and (e.name or "").split(".")[-1] == "clear"] for _, evs in ms]
      loc = f"{r.func.file}:{r.func.line}"
      facts = dict(p.facts)
      def paused(m):
        a = attr(m, "paused")
        return next((v for x, v in p.facts if x is a or x.op in ("truthy", "bool") and x.a[0] is a), None)
      ctx.check(not clears[0], R3, r.name + "[first]", "the buffer is emptied without a pause before", loc, p)
      if len(ms) != 2: continue
      (m1, _), (m2, _) = ms
      if m1.a[-1] == m2.a[-1] == "control" and paused(m1) is not None and paused(m2) is not None:
        want = paused(m1) and not paused(m2)
        cleared += want
        ctx.check(bool(clears[1]) == want, R3, r.name + "[resume]", "a resume after a pause does not empty the buffer" if want else "the buffer is emptied by something else than a resume after a pause", loc, p)
        if want:
          none = any(x.op == "is" and x.a[1] is NONE and v and "task" in show(x.a[0]) or x.op in ("truthy", "bool") and not v and "task" in show(x) for x, v in p.facts)
          done = any("done()" in show(x) and v for x, v in p.facts)
          ctx.check(none or done or any(e.kind == "call" and (e.name or "").split(".")[-1] == "cancel" for e in ms[1][1]), R3, r.name + "[stopped]", "playing goes on although the buffer was emptied", loc, p)
      elif m2.a[-1] == "data": ctx.check(not clears[1], R3, r.name + "[data]", "a message empties the buffer", loc, p)
  ctx.check(cleared > 0, R3, f"{k.name}[cleared]", "a resume after a pause does not empty the buffer", k.module.name)
  # play
  starts = set()
  playing = {attr(e.recv, e.name) for r, p, m, evs, loc in data_rounds(rs, "play_topic") for e in evs if e.kind == "setattr" and any(x.op == "msg" for x in subterms(e.args[0])) and "value" in show(e.args[0])}
  # where the playing task is kept, if it is only started when nothing is kept there
  tasks = [(p, e) for r in rs for p in r.paths for e in p.events if e.kind == "setattr" and e.recv is not None and e.args and (e.args[0].op == "task" or e.args[0].op == "call" and call_name(e.args[0]) in ("create_task", "ensure_future"))]
  held = {attr(e.recv, e.name) for _, e in tasks}
  held = {H for H in held if not any(attr(e.recv, e.name) is H and any(x.op == "is" and x.a[0] is H and x.a[1] is NONE and not b for x, b in p.facts) for p, e in tasks)}
  for r, p, m, evs, loc in data_rounds(rs, "play_topic"):
    if m.a[-1] != "data": continue
    msgs = [e.res for e in evs if e.kind == "call" and e.name == "model_validate"]
    good = any(e.kind == "usable" for e in evs)
    go = [e for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] in ("create_task", "ensure_future", "run_coroutine_threadsafe")]
    stop = [e for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] == "cancel"]
    if not good:
      ctx.check(not go and not stop, R2, r.name + "[no number]", "a message that is no number starts or stops playing", loc, p)
      continue
    for v in (0.2, 0.5, 0.8):
      env = {attr(x, "value"): v for x in msgs}
      if not holds(p.facts, env): continue
      on = v > 0.5
      ctx.check(not (go and not on), R2, r.name + "[start]", f"playing starts with the value {v}", loc, p)
      ctx.check(not (stop and on), R2, r.name + "[stop]", f"playing is stopped with the value {v}", loc, p)
      if not on:
        ps = outs(ctx, r, evs, "set_paused")
        ctx.check(bool(ps) and ps[-1].args[0] is TRUE, R2, r.name + "[silent]", f"the output is not paused with the value {v}", loc, p)
        idle = any(x.op == "is" and x.a[1] is NONE and b for x, b in p.facts) or any("done()" in show(x) and b for x, b in p.facts)
        ctx.check(bool(stop) or idle, R2, r.name + "[stopped]", f"playing goes on with the value {v}", loc, p)
        for H in held if p.kind != "raise" else ():
          if not any(x.op == "is" and x.a[0] is H and x.a[1] is NONE and not b for x, b in p.facts): continue
          sets = [e.args[0] for e in evs if e.kind == "setattr" and e.recv is not None and attr(e.recv, e.name) is H]
          ctx.check(bool(sets) and sets[-1] is NONE, R2, r.name + "[again]", "once stopped, playing cannot start again", loc, p)
      else:
        blocked = any(x.op == "is" and x.a[1] is NONE and not b for x, b in p.facts) or any(x.op in ("truthy", "bool") and x.a[0] is buf and not b for x, b in p.facts)
        ctx.check(bool(go) or blocked, R2, r.name + "[started]", f"playing does not start with the value {v}", loc, p)
  # what is played
  for unroll in (1, 2):
    for r in task_runs(ctx, k, Got(ctx), **({"unroll_for": 2} if unroll == 2 else {})):
      for p in r.paths:
        if any(is_recv(e) for e in p.events): continue
        loops = [e for e in p.events if e.kind == "loop" and e.recv is buf]
        if not loops: continue
        sends = outs(ctx, r, p.events)
        loc = sends[0].loc if sends else loops[0].loc
        n = len([x for x, v in p.facts if x.op in ("truthy", "bool") and x.a[0] is buf and v])
        if unroll == 1:
          ctx.check(len(sends) == n, R1, r.name + "[played]", "a message of the buffer is not played, or more than once", loc, p)
          ok = all(any(y.op in ("each", "elem") and y.a[0] is buf for y in subterms(e.args[0])) for e in sends)
          ctx.check(ok, R1, r.name + "[what]", "something else than the messages of the buffer is played", loc, p)
          loop = next((v for a, v in p.facts if a.op in ("truthy", "bool") and attr_is(a.a[0], "loop")), None)
          if loop is not None and p.kind in ("return", "loopback"): ctx.check((p.kind == "loopback") == loop, R2, r.name + "[over]", "playing ends although it should start over" if loop else "playing starts over although it should end", loc, p)
          if p.kind == "return":
            ps = outs(ctx, r, p.events, "set_paused")
            last = max([p.events.index(e) for e in sends], default=-1)
            ctx.check(bool(ps) and ps[-1].args[0] is TRUE and p.events.index(ps[-1]) > last, R2, r.name + "[end]", "the output is not paused when everything was played", loc, p)
          ps = outs(ctx, r, p.events, "set_paused")
          if sends: ctx.check(bool(ps) and ps[0].args[0] is FALSE and p.events.index(ps[0]) < p.events.index(sends[0]), R2, r.name + "[begin]", "the output is paused while messages are played", loc, p)
        if any(e.kind in ("unusable", "handle") for e in p.events): continue
        sets = setters(p.events)
        stamps = []
        for e in sets:
          for t in subterms(e.args[1]):
            if t.op == "stamp" and t not in stamps: stamps.append(t)
        if unroll == 1 and sends: ctx.check(len(sets) == 1 and sets[0].args[0] is sends[0].args[0] and p.events.index(sets[0]) < p.events.index(sends[0]), R1, r.name + "[timed]", "a message is played without a new timestamp", loc, p)
        if len(sets) != len(stamps) or len(sets) != len(sends): continue
        own = [next((t for t in stamps if stem(t.a[0]) is stem(e.args[0]) and t.a[0] is e.args[0] or t.a[0] is e.args[0]), None) for e in sets]
        if None in own or len(set(own)) != len(own): continue
        env = times(ctx, r, p, [x for e in sets for x in e.args or ()] + [x for e in p.events if e.kind == "call" for x in e.args] + [a for a, _ in p.facts])
        for i, t in enumerate(own): env[t] = 1000 + 300 * i
        if not holds(p.facts, env): continue
        for i, e in enumerate(sets):
          x = value(e.args[1], env)
          if x is Unk: continue
          ctx.check(x == NOW + OFFSET + 300 * i, R1, r.name + f"[time {i}]", f"message {i} of a round gets the time {x} instead of {NOW + OFFSET + 300 * i}: the distances between messages are not kept", e.loc, p)
          lo = p.events.index(sends[i - 1]) if i else 0
          naps = [value(y.args[0], env) for y in p.events[lo:p.events.index(sends[i])] if y.kind == "call" and (y.name or "").endswith("asyncio.sleep")]
          if Unk in naps: continue
          ctx.check(abs(sum(max(y, 0) for y in naps) - 0.3 * i) < 1e-6, R1, r.name + f"[paced {i}]", f"message {i} is played after {sum(max(y, 0) for y in naps):g} s instead of {0.3 * i:g} s", e.loc, p)


RAWBUF = "streamtasks.rawdatabuffer.RawDataBuffer"


def simulate(p, env, me):
  """Follows a path on a concrete store: (result or None, state), None if the path is not taken or fails, ... if that is not known"""
  import copy
  env = {k: copy.deepcopy(v) for k, v in env.items()}
  given = []
  try:
    for e in p.events:
      if e.kind == "yield": given.append(value_of(e.args[0], env)); continue
      if e.kind == "setattr" and e.recv is me: env[attr(me, e.name)] = value_of(e.args[0], env); continue
      if e.kind == "loop":
        if e.recv in env and len(env[e.recv]) == 1:
          for x in {y for f, _ in p.facts for y in subterms(f)} | {y for z in p.events for w in (z.args or ()) for y in subterms(w)}:
            if x.op in ("each", "elem") and x.a[0] is e.recv: env[x] = env[e.recv][0]
        continue
      c = env.get(e.recv) if e.recv is not None else None
      if e.recv is me and e.kind in ("getitem", "delitem") and len(stores := [x for x, v in env.items() if isinstance(v, (list, dict))]) == 2:
        # what the buffer's own methods do
        ix, db = sorted((env[x] for x in stores), key=lambda v: isinstance(v, dict))
        i = value_of(e.args[0], env)
        if e.kind == "delitem": db.pop(ix[i]); del ix[i]
        else:
          for y in ({y for z in p.events for w in (z.args or ()) for y in subterms(w)} | ({y for y in subterms(p.value)} if p.value is not None else set())):
            if y.op in ("getitem", "item") and y.a[0] is me and y.a[1] is e.args[0]: env.setdefault(y, db[ix[i]])
        continue
      if not isinstance(c, (list, dict)): continue
      if e.kind == "getitem":
        t = mk("getitem", e.recv, e.args[0])
        x = c[value_of(e.args[0], env)]
        for y in {y for z in p.events for w in (z.args or ()) for y in subterms(w)} | ({y for y in subterms(p.value)} if p.value is not None else set()):
          if y.op in ("getitem", "item", "elem", "index") and y.a[0] is e.recv and y.a[1] is e.args[0]: env.setdefault(y, x)
      elif e.kind == "setitem": c[value_of(e.args[0], env)] = value_of(e.args[1], env)
      elif e.kind == "delitem": del c[value_of(e.args[0], env)]
      elif e.kind == "call" and (n := (e.name or "").split(".")[-1]) in ("append", "pop", "popleft", "clear", "insert", "remove"):
        r = getattr(c, n)(*[value_of(a, env) for a in e.args])
        if e.res is not None: env[e.res] = r
    res = value_of(p.value, env) if p.value is not None else None
  except Unk: return ...
  except (KeyError, IndexError, ValueError): return None
  return res, given, env


def raw_buffer(ctx, R):
  k = ctx.p.cls(RAWBUF)
  made = lambda it, f, a, kw, n, st, fr: [("v", a[0] if a else kw[0][1], st)]
  def runs(name, **bind):
    f = k.methods.get(name)
    if f is None: return None, []
    it = ctx.interp(want_getitem=True, stop={RAWD + ".serialize"}, models={RAWD: made})
    return f, ctx.run(it, f, selfcls=k, bind=bind or None)
  f, ps = runs("append")
  if f is None: return
  idx = {e.recv for p in ps for e in p.events if e.kind == "call" and (e.name or "").split(".")[-1] == "append"}
  dbs = {e.recv for p in ps for e in p.events if e.kind == "setitem"}
  ctx.check(len(dbs) == 1, R, f.qualname + "[stored]", "what is appended is not stored", f"{f.file}:{f.line}")
  if len(dbs) != 1 or len(idx) != 1: return
  IDX, DB = next(iter(idx)), next(iter(dbs))
  if IDX.op != "attr" or DB.op != "attr": return
  me = IDX.a[0]
  counters = {attr(me, e.name) for p in ps for e in p.events if e.kind == "setattr" and e.recv is me} | {y for p in ps for e in p.events for a in e.args or () for y in subterms(a) if y.op == "attr" and y.a[0] is me}
  counters -= {IDX, DB}
  START = {IDX: ["1", "2"], DB: {"1": "A", "2": "B"}, **{x: 3 for x in counters}}
  def listed(env): return [env[DB].get(x) for x in env[IDX]]
  def whole_(env): return len(env[IDX]) == len(set(env[IDX])) == len(env[DB])
  def judge(name, args, want, result=..., start=START):
    """what a method leaves behind, and returns"""
    f, ps = runs(name)
    if f is None: return
    names = [a.arg for a in f.node.args.args][1:]
    ds = [x.value if isinstance(x, ast.Constant) else -x.operand.value if isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant) else None for x in f.node.args.defaults]
    args = list(args) + ds[len(ds) - (len(names) - len(args)):] if len(args) < len(names) else args
    left = None
    for p in ps:
      env = dict(start)
      terms = {y for a, _ in p.facts for y in subterms(a)} | {y for e in p.events for a in (*(e.args or ()), e.res, e.recv) if a is not None for y in subterms(a)} | ({y for y in subterms(p.value)} if p.value is not None else set())
      for t in terms:
        if t.op == "call" and (t.a[0].op in ("attr", "bound") and str(t.a[0].a[1]).split(".")[-1] == "serialize"): env[t] = "C"
        if t.op == "call" and ext_name(t) == "builtins.bytes" and len(t.a[1]) == 1 and t.a[1][0].op == "call" and "serialize" in show(t.a[1][0]): env[t] = "C"
      for t in terms:
        if t.op in ("sym", "param", "arg", "var") and t.a and t.a[0] in names and names.index(t.a[0]) < len(args): env[t] = args[names.index(t.a[0])]
      if not holds(p.facts, env): continue
      r = simulate(p, env, me)
      if r is ...: continue
      loc = f"{f.file}:{f.line}"
      if r is None:
        ctx.check(False, R, f.qualname, "it fails on what is in the buffer", loc, p)
        continue
      res, given, env = r
      left = env
      ctx.check(listed(env) == want and whole_(env), R, f.qualname, f"a buffer of {listed(start)} holds {listed(env)} afterwards, in {len(env[DB])} places, instead of {want}", loc, p)
      if result is not ...: ctx.check((given or res) == result, R, f.qualname + "[result]", f"it gives {given or res} for a buffer of {listed(start)} instead of {result}", loc, p)
    return left
  more = judge("append", [None], ["A", "B", "C"])
  if more: judge("append", [None], ["A", "B", "C", "C"], start={x: more[x] for x in START})
  judge("pop", [], ["A"], "B")
  judge("popleft", [], ["B"], "A")
  judge("pop", [-1], ["A"], "B")
  judge("pop", [0], ["B"], "A")
  judge("__getitem__", [0], ["A", "B"], "A")
  judge("__getitem__", [-1], ["A", "B"], "B")
  judge("__len__", [], ["A", "B"], 2)
  judge("__delitem__", [0], ["B"])
  judge("__setitem__", [1], ["A", "C"])
  one = {**START, IDX: ["2"], DB: {"2": "B"}}
  judge("clear", [], [], start=one)
  judge("__iter__", [], ["B"], ["B"], start=one)
  for name, f in k.methods.items():
    it = ctx.interp(stop={RAWD + ".serialize"}, models={RAWD: made})
    for p in ctx.run(it, f, selfcls=k):
      for e in p.events:
        if e.kind == "call" and e.recv is DB: ctx.check((e.name or "").split(".")[-1] in ("get", "keys", "setdefault", "close"), R, f.qualname + "[interface]", "the store is used in a way that not every kind of store understands", e.loc, p)


def t10(ctx):
  R1 = ctx.rule("T10-kept", "buffers keep every message once, as it came; what is played keeps its order and distances", 12)
  R2 = ctx.rule("T10-sent", "a time buffer sends the oldest message, once and unchanged, when its time has come; a replay buffer plays while its control is above 0.5", 10)
  R3 = ctx.rule("T10-paused", "the output of a time buffer is paused while its input is and nothing is left; a resume after a pause empties a replay buffer", 6)
  time_buffer(ctx, R1, R2, R3)
  replay_buffer(ctx, R1, R2, R3)
  raw_buffer(ctx, ctx.rule("T10-store", "the store of a buffer holds what was put into it, in order, and gives back each once", 8))


def timeouts(ev, st):
  if ev.kind == "call" and (ev.name or "").split(".")[-1] == "wait_for": return ["asyncio.TimeoutError"]


def t11(ctx):
  R1 = ctx.rule("T11-state", "a pause is kept; a message without a timestamp makes the last one invalid, one with a timestamp valid; every message and no timeout ends a timeout", 6)
  R2 = ctx.rule("T11-signal", "the signal is 1 while messages arrive: not paused, not timed out and, if it fails closed, the last one valid; 0 else", 8)
  R3 = ctx.rule("T11-told", "the signal is sent at the start and after every change", 3)
  k = named(ctx, "MessageDetectorTask")
  rs = task_runs(ctx, k, Got(ctx), raises_fn=timeouts)
  f = {"paused": set(), "invalid": set()}
  for r, p, m, evs, loc in data_rounds(rs, "in_topic"):
    for e in evs:
      if e.kind != "setattr" or e.recv is None or (e.name or "").startswith("_"): continue
      if m.a[-1] == "control": f["paused"].add(attr(e.recv, e.name))
      elif any(x.kind == "unusable" for x in evs): f["invalid"].add(attr(e.recv, e.name))
  late = [(r, p) for r in rs for p in r.paths if any(e.kind == "handle" for e in p.events) and not any(is_recv(e) for e in p.events)]
  f["late"] = {attr(e.recv, e.name) for r, p in late for e in p.events if e.kind == "setattr" and e.recv is not None}
  for role, what in (("paused", "that the input is paused"), ("invalid", "that the last message was invalid"), ("late", "that no message came in time")):
    ctx.check(len(f[role]) == 1, R1, f"{k.name}[{role}]", f"it is not kept {what}, or more changes with it", k.module.name)
  if any(len(x) != 1 for x in f.values()): return
  P, I, L = (next(iter(f[x])) for x in ("paused", "invalid", "late"))
  def after(p, evs, F, env):
    x = env.get(F)
    for e in evs:
      if e.kind == "setattr" and e.recv is not None and attr(e.recv, e.name) is F: x = value(e.args[0], env)
    return x
  trigs = []
  for r, p, m, evs, loc in data_rounds(rs, "in_topic"):
    for old in (True, False):
      if m.a[-1] == "control":
        for v in (True, False):
          env = {P: old, I: old, L: old, attr(m, "paused"): v}
          if holds(p.facts, env): ctx.check(after(p, evs, P, env) == v and after(p, evs, I, env) == old and after(p, evs, L, env) == old, R1, r.name + "[pause]", "a pause or resume of the input is not kept, or changes more", loc, p)
      else:
        env = {P: old, I: old, L: old}
        bad = any(e.kind == "unusable" for e in evs)
        if holds(p.facts, env): ctx.check(after(p, evs, I, env) == bad and after(p, evs, P, env) == old, R1, r.name + ("[invalid]" if bad else "[valid]"), "an invalid message does not count as one" if bad else "a valid message does not end that the last one was invalid", loc, p)
    if m.a[-1] == "data":
      ts = {e.recv for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] in ("trigger", "set", "notify", "notify_all")}
      trigs.append(ts)
      ctx.check(bool(ts), R1, r.name + "[seen]", "a message is not counted as one that arrived", loc, p)
      if not bad:
        up = [e for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] == "update" and e.args and e.args[0] is mk("stamp", m)]
        ctx.check(bool(up), R1, r.name + "[clock]", "the time of the signal does not follow the messages", loc, p)
  T = set.intersection(*trigs) if trigs else set()
  watched = 0
  for r in rs:
    for p in r.paths:
      if any(is_recv(e) for e in p.events): continue
      ev = [e for e in p.events if e.kind == "setattr" and e.recv is not None and attr(e.recv, e.name) is L]
      ws = [e for e in p.events if e.kind == "call" and (e.name or "").split(".")[-1] == "wait" and e.recv in T]
      if not ev and not ws: continue
      watched += 1
      loc = (ev or ws)[0].loc
      ctx.check(bool(ws), R1, r.name + "[waits]", "a timeout is judged by something else than the messages that arrive", loc, p)
      want = any(e.kind == "handle" for e in p.events)
      for old in (True, False):
        env = {P: old, I: old, L: old}
        if holds(p.facts, env): ctx.check(after(p, p.events, L, env) == want, R1, r.name + ("[late]" if want else "[in time]"), "a timeout is not kept" if want else "a message that arrives does not end a timeout", loc, p)
  ctx.check(watched > 1, R1, f"{k.name}[watched]", "nothing waits for messages", k.module.name)
  for r in rs:
    looks = lambda p: any(e.kind == "call" and (e.name or "").split(".")[-1] == "wait" and e.recv in T for e in p.events)
    if not any(looks(p) for p in r.paths): continue
    for p in r.paths:
      lim = {t for a, _ in p.facts for t in subterms(a) if t.op == "attr" and t.a[1] == "time_out"}
      if lim and not looks(p): ctx.check(not holds([(a, v) for a, v in p.facts if any(t in lim for t in subterms(a))], {t: 0.25 for t in lim}), R1, r.name + "[limit]", "a timeout that is set is not kept", f"{r.func.file}:{r.func.line}", p)
  n = 0
  for r in rs:
    for p in r.paths:
      if any(is_recv(e) for e in p.events): continue
      ss = outs(ctx, r, p.events)
      waits = [i for i, e in enumerate(p.events) if e.kind == "call" and (e.name or "").split(".")[-1] == "wait_change" and e.recv is P.a[0]]
      if p.kind == "raise":
        modes = {t for a, _ in p.facts for t in subterms(a) if attr_is(t, "fail_mode")}
        for mode in ("CLOSED", "OPEN"):
          if not modes or not holds(p.facts, {**{t: mode for t in modes}, **enums(p)}): continue
          ctx.check(False, R2, r.name + "[fails]", "the signal is no longer sent after a failure", f"{r.func.file}:{r.func.line}", p)
        continue
      if not ss and not waits: continue
      loc = ss[0].loc if ss else f"{r.func.file}:{r.func.line}"
      ctx.check(len(ss) == 1, R3, r.name + "[once]", "the signal is not sent exactly once for a change", loc, p)
      ctx.check(len(waits) <= 1, R3, r.name + "[missed]", "a change may pass without the signal being sent", loc, p)
      ctx.check(bool(waits), R3, r.name + "[change]", "the signal does not follow the changes of the state", loc, p)
      if len(ss) != 1 or not waits: continue
      ctx.check(p.events.index(ss[0]) < waits[0], R3, r.name + "[start]", "the signal is only sent after the first change", loc, p)
      d = message(r.it, p, ss[0].args[0])
      ctx.check(d is not None and d[0] == NUM, R2, r.name + "[kind]", "the signal is no number", loc, p)
      if d is None or d[0] != NUM: continue
      v = d[1].get("value")
      modes = {t for a in [a for a, _ in p.facts] + [v] for t in subterms(a) if attr_is(t, "fail_mode")}
      for a, b, c, mode in itertools.product([True, False], [True, False], [True, False], ["CLOSED", "OPEN"]):
        env = {P: a, L: b, I: c, **{t: mode for t in modes}, **enums(p, v)}
        if not holds(p.facts, env): continue
        n += 1
        want = not a and not b and not (c and mode == "CLOSED")
        x = number(v, env)
        ctx.check(x is Unk or x == float(want), R2, r.name, f"the signal is {x} (paused {a}, timed out {b}, last message invalid {c}, fails {mode.lower()})", loc, p)
  ctx.check(n >= 8, R2, f"{k.name}[signal]", "the signal is not sent in every state", k.module.name)
  obs = ctx.p.cls("streamtasks.utils.AsyncObservable")
  it = ctx.interp(); ps = ctx.run(it, ctx.method(k, "__init__"), selfcls=k)
  kinds = [x for p in ps for e in p.events if e.kind == "setattr" and P.a[0].op == "attr" and e.name == P.a[0].a[1] for x in [it.type_of(e.args[0], p.st)]]
  ctx.check(bool(kinds) and all(isinstance(x, Class) and ctx.p.is_sub(x, obs) is True for x in kinds), R3, f"{k.name}[observed]", "changes of the state are not noticed", k.module.name)


def enums(p, *more): return {t: t.a[1] for a in [a for a, _ in p.facts] + list(more) for t in subterms(a) if t.op == "enum"}


def number(v, env):
  if v.op == "call" and call_name(v) in ("float", "int", "bool") and len(v.a[1]) == 1:
    x = number(v.a[1][0], env)
    return x if x is Unk else float(x)
  return value(v, env)


def updater(ctx, R):
  k = named(ctx, "TimestampUpdaterTask")
  rs = task_runs(ctx, k, Got(ctx))
  for r, p, m, evs, loc in data_rounds(rs, "in_topic"):
    if m.a[-1] != "data": continue
    ss, sets = outs(ctx, r, evs), setters(evs)
    closed = next((v for a, v in p.facts if "fail_closed" in show(a)), None)
    if any(e.kind == "unusable" for e in evs):
      if closed is True: ctx.check(not ss, R, r.name + "[closed]", "a message without a usable timestamp is sent although the task fails closed", loc, p)
      elif closed is False: ctx.check(len(ss) == 1 and stem(ss[0].args[0]) is m, R, r.name + "[open]", "a message without a usable timestamp is not sent, once", loc, p)
      else: ctx.check(False, R, r.name + "[mode]", "whether a message without a usable timestamp is sent does not depend on the configuration", loc, p)
      continue
    if not whole(p, evs): continue
    ctx.check(len(ss) == 1 and stem(ss[0].args[0]) is m, R, r.name + "[once]", "a message is not sent, or more than once", loc, p)
    ctx.check(len(sets) == 1 and len(ss) == 1 and sets[0].args[0] is ss[0].args[0], R, r.name + "[set]", "what is sent does not have a new timestamp", loc, p)
    if len(sets) != 1: continue
    by_message = next((v for a, v in p.facts if "time_reference" in show(a) and "'message'" in show(a)), None)
    if by_message is None:
      x = next(((a, v) for a, v in p.facts if "time_reference" in show(a)), None)
      by_message = None if x is None else not x[1]
    env = {**times(ctx, r, p, [sets[0].args[1]], time_offset=40), mk("stamp", m): 1000}
    for t in subterms(sets[0].args[1]):
      if t.op == "stamp": env[t] = 1000
    x = value(sets[0].args[1], env)
    if x is Unk or by_message is None: continue
    ctx.check(x == (1000 if by_message else NOW) + 40, R, r.name + ("[message]" if by_message else "[clock]"), f"the new timestamp is not that of {'the message' if by_message else 'the clock'} with the offset", loc, p)


def repeater(ctx, R):
  k = named(ctx, "RepeaterTask")
  rs = task_runs(ctx, k, Got(ctx))
  cur = {attr(e.recv, e.name) for r, p, m, evs, loc in data_rounds(rs, "in_topic") if m.a[-1] == "data" for e in evs if e.kind == "setattr" and e.recv is not None and stem(e.args[0]) is m}
  ctx.check(len(cur) == 1, R, f"{k.name}[last]", "the last message is not kept", k.module.name)
  if len(cur) != 1: return
  C = next(iter(cur))
  for r, p, m, evs, loc in data_rounds(rs, "in_topic"):
    if m.a[-1] != "data": continue
    ss = outs(ctx, r, evs)
    kept = [e.args[0] for e in evs if e.kind == "setattr" and e.recv is not None and attr(e.recv, e.name) is C]
    closed = next((v for a, v in p.facts if "fail_closed" in show(a)), None)
    if any(e.kind == "unusable" for e in evs):
      if any(e.name == "mapping" for e in evs if e.kind == "unusable"): continue
      if closed is True: ctx.check(not ss and kept[-1:] == [NONE], R, r.name + "[closed]", "a message without a timestamp does not end the repetition although the task fails closed", loc, p)
      elif closed is False: ctx.check(len(ss) == 1 and stem(ss[0].args[0]) is m and not kept, R, r.name + "[open]", "a message without a timestamp is not passed on, once, or changes what is repeated", loc, p)
      else: ctx.check(False, R, r.name + "[mode]", "what a message without a timestamp does, does not depend on the configuration", loc, p)
      continue
    if not whole(p, evs): continue
    ctx.check(len(kept) == 1 and stem(kept[0]) is m, R, r.name + "[kept]", "a message does not take the place of the last one", loc, p)
    ctx.check(any(e.kind == "call" and (e.name or "").split(".")[-1] == "update" and e.args and e.args[0] is mk("stamp", m) for e in evs), R, r.name + "[clock]", "the time of what is repeated does not follow the messages", loc, p)
    ctx.check(any(e.kind == "call" and (e.name or "").split(".")[-1] in ("trigger", "set") for e in evs), R, r.name + "[told]", "repetition does not start with the first message", loc, p)
  n = 0
  for r in rs:
    for p in r.paths:
      if any(is_recv(e) for e in p.events) or not any(C in subterms(a) for a, _ in p.facts): continue
      ss, sets = outs(ctx, r, p.events), setters(p.events)
      loc = ss[0].loc if ss else f"{r.func.file}:{r.func.line}"
      missing = any(a.op == "is" and a.a[0] is C and a.a[1] is NONE and v for a, v in p.facts)
      if not ss: continue
      n += 1
      ctx.check(len(ss) == 1 and stem(ss[0].args[0]) is C, R, r.name + "[what]", "something else than the last message is sent, or more than once", loc, p)
      ctx.check(not any(a.op in ("truthy", "bool") and a.a[0].op == "attr" and a.a[0].a[1] == "is_paused" and v for a, v in p.facts) and any("is_paused" in show(a) for a, v in p.facts), R, r.name + "[paused]", "a paused output gets repetitions", loc, p)
      ctx.check(len(sets) == 1 and sets[0].args[0] is ss[0].args[0] and p.events.index(sets[0]) < p.events.index(ss[0]), R, r.name + "[timed]", "a repetition does not have its own time", loc, p)
      if len(sets) == 1:
        x = value(sets[0].args[1], {**times(ctx, r, p, [sets[0].args[1]]), **{t: 1000 for t in subterms(sets[0].args[1]) if t.op == "stamp"}})
        ctx.check(x is Unk or x == NOW + OFFSET, R, r.name + "[time]", "the time of a repetition does not follow the messages and the clock", loc, p)
  ctx.check(n > 0, R, f"{k.name}[repeats]", "nothing is repeated", k.module.name)


class Between(Got):
  """received messages between which others change an attribute"""
  def __init__(self, ctx, changing):
    super().__init__(ctx)
    self.changing = changing

  def receive(self, both):
    base = super().receive(both)
    def m(it, f, a, k, n, st, fr):
      out = base(it, f, a, k, n, st, fr)
      for _, r, s in out or ():
        s.store = {**s.store, (self.changing.a[0], self.changing.a[1]): mk("later", self.changing, r.a[0].a[-2])}
      return out
    return m


def concatenator(ctx, R):
  k = named(ctx, "StringConcatenatorTask")
  rs = task_runs(ctx, k, Got(ctx))
  val = {attr(e.recv, e.name) for r, p, m, evs, loc in data_rounds(rs, "in_topic") for e in evs if e.kind == "setattr" and e.recv is not None}
  ctx.check(len(val) == 1, R, f"{k.name}[kept]", "texts are not kept in one place", k.module.name)
  if len(val) != 1: return
  V = next(iter(val))
  for r, p, m, evs, loc in data_rounds(rs, "in_topic"):
    sets = [e.args[0] for e in evs if e.kind == "setattr" and e.recv is not None and attr(e.recv, e.name) is V]
    msgs = [e.res for e in evs if e.kind == "call" and e.name == "model_validate"]
    if m.a[-1] == "control" or any(e.kind == "unusable" for e in evs): ctx.check(not sets, R, r.name + "[none]", "something that is no text changes the text kept", loc, p); continue
    ctx.check(bool(msgs) and msgs[0].a[0] == TXT, R, r.name + "[understood]", "a message is not read as text", loc, p)
    x = value(sets[-1], {V: "ab", **{attr(y, "value"): "cd" for y in msgs}}) if sets else None
    ctx.check(x == "abcd" or x is Unk, R, r.name + "[appended]", "a text is not put at the end of the text kept", loc, p)
  judged = 0
  for r in task_runs(ctx, k, Between(ctx, V), unroll=3):
    for p in r.paths:
      ms = rounds(p)
      if not ms or not of_topic(ms[0][0], "control_topic"): continue
      loc = f"{r.func.file}:{r.func.line}"
      nums = [[e.res for e in evs if e.kind == "call" and e.name == "model_validate"] if m.a[-1] == "data" and any(e.kind == "usable" for e in evs) else [] for m, evs in ms]
      m, evs = ms[-1]
      ss = outs(ctx, r, evs)
      forget = [e.args[0] for e in evs if e.kind == "setattr" and e.recv is not None and attr(e.recv, e.name) is V]
      if forget and not ss: ctx.check(value(forget[-1], {V: "ab"}) == "ab" or forget[-1].op == "later", R, r.name + "[lost]", "text is forgotten without being sent", loc, p)
      if not nums[-1]: ctx.check(not ss, R, r.name + "[none]", "text is sent without a control", loc, p); continue
      keys = [attr(x[0], "value") for x in nums if x]
      kept = sorted({t for a in [a for a, _ in p.facts] + [a for e in p.events for a in e.args or ()] for t in subterms(a) if t is V or t.op == "later" and t.a[0] is V}, key=show)
      mine = mk("later", V, len(ms) - 1)
      for vs in itertools.product(*[(0.2, 0.5, 0.8)] * len(keys), *[("", "ab")] * len(kept)):
        env = dict(zip(keys + kept, vs))
        last, now = ([0.2] + list(vs[:len(keys)]))[-2:]
        have = env.get(mine, "ab")
        bad = False
        for a, v in p.facts:
          if "isinst" in a.op: continue
          x = value(a, env)
          if x is Unk: bad = bad or "value" in show(a) or "control" in show(a)
          elif bool(x) != v: bad = True
        if bad: continue
        judged += 1
        want = last <= 0.5 < now and bool(have)
        ctx.check(len(ss) == int(want), R, r.name + "[edge]", f"text {'is' if ss else 'is not'} sent when the control goes from {last} to {now} with {'some' if have else 'no'} text kept", loc, p)
        if not ss or not want: continue
        d = message(r.it, p, ss[0].args[0])
        ctx.check(d is not None and d[0] == TXT and d[1].get("timestamp") is attr(nums[-1][0], "timestamp"), R, r.name + "[time]", "what is sent is no text with the time of the control", loc, p)
        if d is not None: x = value(d[1].get("value"), env); ctx.check(x is Unk or x == have, R, r.name + "[text]", "what is sent is not the text kept", loc, p)
        sets = [e.args[0] for e in evs if e.kind == "setattr" and e.recv is not None and attr(e.recv, e.name) is V]
        ctx.check(bool(sets) and value(sets[-1], env) == "", R, r.name + "[emptied]", "text that was sent is kept", loc, p)
  ctx.check(judged > 0, R, f"{k.name}[edge]", "text is never sent", k.module.name)
  it = ctx.interp()
  for p in ctx.run(it, ctx.method(k, "__init__"), selfcls=k):
    if p.kind != "return": continue
    prio = {}
    for e in p.events:
      if e.kind == "call" and (e.name or "").split(".")[-1] == "set_priority" and len(e.args) == 2: prio["in" if "in_topic" in show(e.args[0]) else "control"] = e.args[1].a[0] if e.args[1].op == "const" else None
    if any("synchronized" in show(a) and v for a, v in p.facts): ctx.check(prio.get("in", 0) is not None and prio.get("control", 0) is not None and prio.get("in", 0) > prio.get("control", 0), R, f"{k.name}[order]", "a text does not go before a control of the same time", k.module.name, p)


def t12(ctx):
  R1 = ctx.rule("T12-updater", "the updater sends every message once with the new timestamp; one without a usable timestamp exactly if it does not fail closed", 4)
  R2 = ctx.rule("T12-repeater", "the repeater repeats the last message with the time of the clock while its output is not paused", 6)
  R3 = ctx.rule("T12-concatenator", "texts are kept in their order and sent, once, with the time of the control when it rises above 0.5", 8)
  updater(ctx, R1)
  repeater(ctx, R2)
  concatenator(ctx, R3)


RULES = {"T10": t10, "T11": t11, "T12": t12}
