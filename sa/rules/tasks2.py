"""What the tasks of the system do with each message: pauses, conversions, gates, switches, copies."""
from __future__ import annotations
from .tasks import *
from .svc import dumped
from ..tev import ev as value_of, holds, replay, Unk

NUM, TXT = "streamtasks.message.types.NumberMessage", "streamtasks.message.types.TextMessage"


def is_recv(e): return e.kind == "call" and e.res is not None and e.res.op == "received"


def rounds(p):
  """[(message received, what happens until the next one)]"""
  ix = [i for i, e in enumerate(p.events) if is_recv(e)]
  return [(p.events[i].res, p.events[i + 1:(ix[j + 1] if j + 1 < len(ix) else len(p.events))]) for j, i in enumerate(ix)]


def outs(ctx, r, evs, name="send"):
  return [e for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] == name and e.recv is not None and e.awaited and is_topic(ctx, r, e)]


def same_truth(p, t, of):
  """is t as true as `of` on a path?"""
  if t is of or t.op == "truthy" and t.a[0] is of: return True
  if t.op == "const" and isinstance(t.a[0], bool): return any(v == t.a[0] and (a is of or a is mk("truthy", of)) for a, v in p.facts)
  if t.op == "call" and call_name(t) == "bool" and t.a[1] and t.a[1][0] is of: return True
  return False


def named(ctx, name):
  return next((k for k in task_classes(ctx) if k.name == name), None)


def whole(p, i_events):
  """did a round go its normal way (nothing failed in it)?"""
  return not any(e.kind in ("handle", "raise", "unusable") for e in i_events)


PASSES = {"NamedInputTask": None, "NamedOutputTask": None, "SynchronizerTask": None, "TimestampUpdaterTask": None, "NumberToTextTask": None, "StringMatcherTask": None, "TimeToTextTask": None, "TextRendererTask": None, "VideoLayoutTask": None,
          "AudioVolumeScalerTask": "in_topic", "AudioResamplerTask": None, "VideoReformatterTask": None, "AudioVolumeMeterTask": None, "VideoActivityMeterTask": None, "RepeaterTask": None, "StringConcatenatorTask": "control_topic",
          "ASRSpeechRecognitionTask": None, "FastSpeech2TTSTask": None, "LLamaCppChatTask": None, "SMESpeechEnhancementTask": None, "WaveformSpeechEnhancementTask": None}


def t04(ctx):
  R = ctx.rule("T04", "every pause and resume that arrives on the input of a task is passed to its output once, as it came", 20)
  R2 = ctx.rule("T04-seen", "the tasks that pass pauses on receive them", 15)
  for k in task_classes(ctx):
    if k.name not in PASSES: continue
    seen = False
    for r in task_runs(ctx, k, Got(ctx, bad=False)):
      for p in r.paths:
        for m, evs in rounds(p):
          if m.a[-1] != "control": continue
          ps = outs(ctx, r, evs, "set_paused")
          if PASSES[k.name] and not attr_is(m.a[0], PASSES[k.name]):
            ctx.check(not ps, R, f"{r.name}[{show(m.a[0])[:30]}]", "the output is paused or resumed with another input", ps[0].loc if ps else "", p)
            continue
          seen = True
          tag = f"{r.name}[{show(m.a[0])[:30]}]"
          loc = ps[0].loc if ps else f"{r.func.file}:{r.func.line}"
          ctx.check(len(ps) == 1, R, tag, "the output is not paused and resumed with the input" if not ps else "the output is paused or resumed more than once", loc, p)
          if len(ps) != 1: continue
          ctx.check(same_truth(p, ps[0].args[0], attr(m, "paused")), R, tag + "[as it came]", "the output is not paused when the input is, or not resumed when it is", loc, p)
          t = every(m.a[0])
          if t.op == "item": ctx.check(every(ps[0].recv).op == "item" and every(ps[0].recv).a[0] is t.a[0], R, tag + "[pair]", "the pause is passed to the output of another input", loc, p)
    ctx.check(seen, R2, k.name, "the task never receives a pause of its input", f"{k.module.name}")


FORWARDS = ("NamedInputTask", "NamedOutputTask", "SynchronizerTask")
# what is answered for each message: (class of the messages understood, class of the answers)
CONVERTS = {"NumberToTextTask": (NUM, TXT), "StringMatcherTask": (TXT, NUM), "TimeToTextTask": (None, TXT), "TextFormatterTask": (TXT, TXT), "CalculatorTask": (NUM, NUM), "SRLatchTask": (NUM, NUM)}


def message(it, p, t):
  """(class, fields) of a message made here"""
  if t.op != "rawdata": return None
  return dumped(it.norm(t.a[0], p.st))


def answered_as(ctx, R, k, r, p, m, evs):
  src, dst = CONVERTS[k.name]
  tag = f"{r.name}"
  ok = [e for e in evs if e.kind == "usable"]
  got = next((e for e in evs if e.kind == "call" and e.name == "model_validate"), None)
  ss = outs(ctx, r, evs)
  loc = (ss[0] if ss else evs[0] if evs else r).loc if (ss or evs) else f"{r.func.file}:{r.func.line}"
  if any(e.kind == "unusable" for e in evs) and not (ok and whole(p, evs)):
    ctx.check(not ss, R, tag + "[none]", "a message the task cannot use is answered", loc, p)
    return None
  if not whole(p, evs): return None
  ctx.check(len(ss) == 1, R, tag + "[once]", f"a message is answered {'never' if not ss else 'more than once'}", loc, p)
  if len(ss) != 1: return None
  d = message(r.it, p, ss[0].args[0])
  ctx.check(d is not None and d[0] == dst, R, tag + "[kind]", "the answer is no message of the promised kind", loc, p)
  if d is None: return None
  if src is not None: ctx.check(got is not None and got.res.a[0] == src, R, tag + "[understood]", "the message is read as one of another kind", loc, p)
  ts = d[1].get("timestamp")
  want = [attr(got.res, "timestamp")] if got is not None else []
  ctx.check(ts in want or ts is mk("stamp", m), R, tag + "[time]", "the answer does not have the timestamp of the message", loc, p)
  return d[1].get("value"), got.res if got is not None else None, loc


def text_of(v, x):
  return v.op == "call" and ext_name(v) in ("builtins.str", "str") and v.a[1] and v.a[1][0] is x or v.op == "fstr" and len(v.a) == 1 and (v.a[0] is x or contains(v.a[0], lambda y: y is x) and v.a[0].op in ("fmt", "fval"))


def case_values(p, v, domains):
  """[(assignment, value)] of a term for all assignments of its conditions that a path allows"""
  import itertools
  ks = list(domains)
  for vs in itertools.product(*[domains[x] for x in ks]):
    env = dict(zip(ks, vs))
    if not holds(p.facts, env): continue
    try: yield env, value_of(v, env)
    except Unk: yield env, Unk


def t05(ctx):
  R1 = ctx.rule("T05-forward", "named inputs and outputs and synchronizers pass every message on once, unchanged and to its output", 3)
  R2 = ctx.rule("T05-answer", "a task that answers messages sends exactly one message for each it can use, with its timestamp, and none for others", 15)
  R3 = ctx.rule("T05-value", "the value of an answer is the one for that message", 6)
  R4 = ctx.rule("T05-worker", "a task that hands messages to its thread hands over each usable one once, and no other", 10)
  for k in task_classes(ctx):
    if k.name in FORWARDS:
      for r in task_runs(ctx, k, Got(ctx)):
        for p in r.paths:
          for m, evs in rounds(p):
            if m.a[-1] != "data": continue
            ss = outs(ctx, r, evs)
            loc = ss[0].loc if ss else f"{r.func.file}:{r.func.line}"
            ctx.check(len(ss) == 1 and p.kind != "raise", R1, r.name + "[once]", "a message is not passed on, or more than once", loc, p)
            if len(ss) != 1: continue
            ctx.check(stem(ss[0].args[0]) is m and not any(e.kind == "setitem" and received(e.recv) or e.kind == "call" and (e.name or "").endswith("set_timestamp_on_message") for e in evs), R1, r.name + "[unchanged]", "what is sent is not the message that was received", loc, p)
            t, o = every(m.a[0]), every(ss[0].recv)
            if t.op == "item": ctx.check(o.op == "item" and o.a[0] is t.a[0], R1, r.name + "[pair]", "a message is sent to the output of another input", loc, p)
    elif k.name in CONVERTS:
      got = Got(ctx)
      seen = 0
      for r in task_runs(ctx, k, got, stop={"transform"}):
        for p in r.paths:
          for m, evs in rounds(p):
            if m.a[-1] != "data":
              if "in_topics" in show(m.a[0]): default_back(ctx, R3, k, r, p, m, evs)
              continue
            a = answered_as(ctx, R2, k, r, p, m, evs)
            if a is None: continue
            seen += 1
            VALUES[k.name](ctx, R3, k, r, p, m, evs, *a)
      ctx.check(seen > 0, R2, k.name + "[answers]", "no message is ever answered", k.module.name)
      if k.name == "StringMatcherTask": pattern_made(ctx, R3, k)
    elif is_sync(ctx, k):
      got = Got(ctx)
      rs = task_runs(ctx, k, got)
      def puts(evs): return [e for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] in ("put", "put_nowait") and any(contains(a, lambda x: x.op == "msg") for a in e.args or ())]
      if not any(puts(p.events) for r in rs for p in r.paths): continue
      for r in rs:
        if not any(puts(p.events) for p in r.paths): continue
        for p in r.paths:
          for m, evs in rounds(p):
            if m.a[-1] != "data": continue
            loc = evs[0].loc if evs else f"{r.func.file}:{r.func.line}"
            ms = puts(evs)
            if whole(p, evs): ctx.check(len(ms) == 1 and all(a.op in ("msg", "tuple", "attr") and received(a) == [m] for a in ms[0].args[:1]), R4, r.name, "a message is not handed to the thread, or more than once", loc, p)
            elif any(e.kind == "unusable" for e in evs): ctx.check(not ms, R4, r.name + "[none]", "a message the task cannot use is handed to the thread", loc, p)


def number_text(ctx, R, k, r, p, m, evs, v, msg, loc): ctx.check(msg is not None and v is not None and text_of(v, attr(msg, "value")), R, r.name, "the text is not that of the number", loc, p)


def matched(ctx, R, k, r, p, m, evs, v, msg, loc):
  ms = [e for e in evs if e.kind == "call" and (e.name or "").split(".")[-1] == "match" and e.args and msg is not None and e.args[0] is attr(msg, "value") and e.recv is not None and e.recv.op == "attr"]
  ctx.check(bool(ms), R, r.name + "[match]", "the text of the message is not matched", loc, p)
  if not ms or v is None: return
  for env, x in case_values(p, v, {ms[0].res: [None, "match"]}): ctx.check(x is not Unk and x == (0 if env[ms[0].res] is None else 1), R, r.name + "[value]", "the number does not say if the text matched", loc, p)


def pattern_made(ctx, R, k):
  """what texts are matched with is the given pattern, taken literally exactly if it is no regular expression"""
  it = ctx.interp()
  for p in ctx.run(it, ctx.method(k, "__init__"), selfcls=k):
    if p.kind != "return": continue
    for e in p.events:
      if e.kind != "call" or e.name != "re.compile" or not e.args: continue
      t = it.norm(e.args[0], p.st)
      pat = lambda x: attr_is(x, "pattern")
      esc = [x for x in subterms(t) if x.op == "call" and call_name(x) == "escape" and contains(x, pat)]
      bare = contains(rewrite(t, lambda x: const("") if x in esc else x), pat) if esc else contains(t, pat)
      regex = next((v for a, v in p.facts if a.op in ("truthy", "bool", "eq", "is") and contains(a, lambda x: attr_is(x, "is_regex"))), None)
      if regex is None: ctx.check(False, R, k.name + "[pattern]", "a pattern is taken for a regular expression, or not, whatever was set", e.loc, p); continue
      ctx.check(bare and not esc if regex else bool(esc) and not bare, R, k.name + "[pattern]", "a regular expression is not used as it is" if regex else "a text to look for is taken for a regular expression", e.loc, p)


def time_text(ctx, R, k, r, p, m, evs, v, msg, loc):
  st = mk("stamp", m)
  ok = v is not None and v.op == "call" and call_name(v) == "strftime" and contains(v, lambda x: x.op == "attr" and x.a[1] == "date_format") and contains(v, lambda x: x.op == "call" and call_name(x) == "fromtimestamp" and any(y.op == "bin" and (y.a[0] == "/" and y.a[1] is st and y.a[2] in (const(1000), const(1000.0)) or y.a[0] == "*" and st in y.a[1:] and const(0.001) in y.a[1:]) for y in x.a[1][:1]))
  ctx.check(ok, R, r.name, "the text is not the time of the message in the given format", loc, p)


def var_set(r, p, evs, m):
  """[(key, value)] put into the values of the variables in a round"""
  return [(e, e.args[0], e.args[-1]) for e in evs if e.kind == "setitem" and e.recv is not None and e.recv.op == "attr"]


def var_key(m): return mk("item", m.a[0].a[0], const(1)) if m.a[0].op == "item" else None


def variable(ctx, R, k, r, p, m, evs, v, msg, loc):
  sets = var_set(r, p, evs, m)
  send = [i for i, e in enumerate(evs) if e.kind == "call" and (e.name or "").split(".")[-1] == "send" and e.awaited and is_topic(ctx, r, e)]
  ok = len(sets) == 1 and sets[0][1] is var_key(m) and msg is not None and sets[0][2] is attr(msg, "value")
  ctx.check(ok, R, r.name + "[variable]", "the variable of the input does not get the value of the message", loc, p)
  made = [i for i, e in enumerate(evs) if e.kind == "call" and (e.name or "").split(".")[-1] in ("transform", "format_map", "format")]
  ctx.check(bool(made) and (not sets or evs.index(sets[0][0]) < made[0]), R, r.name + "[order]", "the answer is made before the variable has its value", loc, p)
  V = sets[0][0].recv if sets else None
  if k.name == "TextFormatterTask": good = v is not None and v.op == "call" and call_name(v) == "format_map" and contains(v.a[0], lambda x: attr_is(x, "template")) and v.a[1][0] is V
  else: good = v is not None and v.op == "call" and call_name(v) == "transform" and contains(v, lambda x: attr_is(x, "formula_ast")) and any(contains_deep(p, a, V) for a in [v, *[x for e in evs if e.kind == "call" for x in (e.args or ())]])
  ctx.check(good, R, r.name + "[value]", "the answer is not made of the template or formula and the values of all variables", loc, p)


def contains_deep(p, t, v): return contains(t, lambda x: x is v) or any(contains(x, lambda y: y is v) for s in subterms(t) if s.op == "new" for x in flat_terms(p.st.heap.get(s.a[1])))


def default_back(ctx, R, k, r, p, m, evs):
  sets = var_set(r, p, evs, m)
  loc = sets[0][0].loc if sets else f"{r.func.file}:{r.func.line}"
  want = mk("item", m.a[0].a[0], const(2))
  ctx.check(len(sets) == 1 and sets[0][1] is var_key(m) and sets[0][2] is want, R, r.name + "[default]", "the variable of a paused input does not get its default value", loc, p)


def latch_fields(ctx, k):
  """(fields kept of the set input, fields kept of the reset input, fields of the answer)"""
  high, stored = {True: set(), False: set()}, {True: set(), False: set()}
  for r in task_runs(ctx, k, Got(ctx, bad=False)):
    for p in r.paths:
      for m, evs in rounds(p):
        s = attr_is(m.a[0], "set_topic")
        for e in evs:
          if e.kind != "setattr" or e.recv is not m.a[0].a[0]: continue
          stored[s].add(e.name)
          if e.args[0].op == "lt" and e.args[0].a[0] is const(0.5) and attr_is(e.args[0].a[1], "value"): high[s].add(e.name)
  both = stored[True] & stored[False]
  return high[True] - both, high[False] - both, both


def latched(ctx, R, k, r, p, m, evs, v, msg, loc):
  me = m.a[0].a[0]
  new = mk("lt", const(0.5), attr(msg, "value"))
  setting = attr_is(m.a[0], "set_topic")
  if id(ctx) not in LATCH: LATCH[id(ctx)] = latch_fields(ctx, k)
  mine, others, answer = LATCH[id(ctx)]
  if not setting: mine, others = others, mine
  ctx.check(any(e.kind == "setattr" and e.recv is me and e.args[0] is new and e.name in mine for e in evs), R, r.name + "[signal]", "whether the signal is above 0.5 is not kept", loc, p)
  known = next(iter(sorted(others)), None)
  ctx.check(known is not None and len(answer) == 1, R, r.name + "[other]", "the signals and the value of the latch are not kept apart", loc, p)
  if known is None or len(answer) != 1: return
  out = next(iter(answer))
  old = attr(me, out)
  if v is None: return
  kept = [e.args[0] for e in evs if e.kind == "setattr" and e.recv is me and e.name == out]
  for env, x in case_values(p, v, {new: [True, False], attr(me, known): [True, False], old: [True, False]}):
    s, q = (env[new], env[attr(me, known)]) if setting else (env[attr(me, known)], env[new])
    want = env[old] if s == q else s
    ctx.check(x is not Unk and bool(x) == want, R, r.name + "[value]", f"set is {s}, reset is {q} and the latch was {env[old]}: it sends {x}", loc, p)
    last = kept[-1] if kept else old
    try: y = bool(value_of(last, env))
    except Unk: y = None
    ctx.check(y == want, R, r.name + "[kept]", f"set is {s}, reset is {q} and the latch was {env[old]}: it keeps {y}", loc, p)


LATCH = {}
VALUES = {"NumberToTextTask": number_text, "StringMatcherTask": matched, "TimeToTextTask": time_text, "TextFormatterTask": variable, "CalculatorTask": variable, "SRLatchTask": latched}


GATE = "streamtasks.system.tasks.gate.GateTask"
MODE = "streamtasks.system.tasks.gate.GateFailMode"
CLOSED, OPEN = "closed", "open"


def gate_fields(ctx, rs):
  """{role: terms of the state that have it} by what is stored there"""
  f = {"input": set(), "cpaused": set(), "control": set(), "errored": set()}
  for r in rs:
    for p in r.paths:
      for m, evs in rounds(p):
        for e in evs:
          if e.kind != "setattr" or e.recv is None: continue
          t = attr(e.recv, e.name)
          if m.a[-1] == "control": f["input" if attr_is(m.a[0], "in_topic") else "cpaused"].add(t)
          elif any(x.kind == "unusable" for x in evs): f["errored"].add(t)
          else: f["control"].add(t)
  f["control"] -= f["errored"]
  return f


def t06(ctx):
  R1 = ctx.rule("T06-control", "a control message opens (above 0.5) or closes the gate and ends an error, one that is no number is an error, a pause or resume of the control is kept; nothing else changes", 3)
  R2 = ctx.rule("T06-forward", "a message is passed on, once and unchanged, exactly while the input is not paused, the control is on and, if the gate fails closed, the control is neither paused nor in error", 8)
  R3 = ctx.rule("T06-paused", "the output is paused exactly while the gate is closed, from the start and after every change of its state", 4)
  k = ctx.p.cls(GATE)
  rs = task_runs(ctx, k, Got(ctx))
  f = gate_fields(ctx, rs)
  for role, what in (("input", "that the input is paused"), ("cpaused", "that the control is paused"), ("control", "whether the control is on"), ("errored", "that the control is in error")):
    ctx.check(len(f[role]) == 1, R1, f"GateTask[{role}]", f"it is not kept {what}", k.module.name)
  if any(len(x) != 1 for x in f.values()): return
  I, P, C, E = (next(iter(f[x])) for x in ("input", "cpaused", "control", "errored"))
  import itertools
  def worlds(p, extra=(), check=True):
    fm = {t for a, _ in p.facts for t in subterms(a) if attr_is(t, "fail_mode")} | {t for x in extra for t in subterms(x) if attr_is(t, "fail_mode")}
    for i, c, cp, ce, mode in itertools.product([True, False], [True, False], [True, False], [True, False], ["CLOSED", "OPEN"]):
      env = {I: i, C: c, P: cp, E: ce, **{t: mode for t in fm}, **{mk("enum", MODE, n): n for n in ("CLOSED", "OPEN")}}
      if not check or holds(p.facts, env): yield env, (not i and c and (mode == "OPEN" or not (cp or ce)))
  passes = 0
  for r in rs:
    for p in r.paths:
      for m, evs in rounds(p):
        loc = evs[0].loc if evs else f"{r.func.file}:{r.func.line}"
        sets = {attr(e.recv, e.name): e.args[0] for e in evs if e.kind == "setattr" and e.recv is not None}
        ctrl = attr_is(m.a[0], "control_topic")
        if m.a[-1] == "control" or ctrl:
          paused = m.a[-1] == "control"
          bad = not paused and any(e.kind == "unusable" for e in evs)
          ms = [x for x in evs if x.kind == "call" and x.name == "model_validate"]
          if not paused and not bad: ctx.check(bool(ms) and ms[0].res.a[0] == NUM, R1, r.name + "[understood]", "a control message is not read as a number", loc, p)
          v = attr(m, "paused") if paused else attr(ms[0].res, "value") if ms and not bad else None
          for env0, _ in worlds(p, sets.values(), False):
            for x in (([True, False] if paused else [0.2, 0.5, 0.8]) if v is not None else [None]):
              env = {**env0, **({v: x} if v is not None else {})}
              if not holds(p.facts, env): continue
              want = {F: env0[F] for F in (I, P, C, E)}
              if paused: want[P if ctrl else I] = x
              elif bad: want[E] = True
              elif v is not None: want[C], want[E] = x > 0.5, False
              now = {}
              for F in want:
                try: now[F] = bool(value_of(sets[F], env)) if F in sets else env0[F]
                except Unk: now[F] = None
              if paused: ctx.check(now == want, R1, r.name + "[pause]", "a pause or resume of the input or control is not kept, or changes more than that", loc, p)
              elif bad: ctx.check(now == want, R1, r.name + "[error]", "a control message that is no number does not put the gate in error, or changes more", loc, p)
              else:
                ctx.check(now[C] == want[C], R1, r.name + "[on]", "the gate is not on exactly when the control is above 0.5", loc, p)
                ctx.check({**now, C: 0} == {**want, C: 0}, R1, r.name + "[recovered]", "a valid control message does not end an error, or changes more", loc, p)
        else:
          ss = outs(ctx, r, evs)
          ctx.check(len(ss) <= 1 and all(stem(e.args[0]) is m for e in ss), R2, r.name + "[once]", "something else than the message, or more than one, is sent", loc, p)
          for env, is_open in worlds(p):
            passes += is_open
            ctx.check(bool(ss) == is_open, R2, r.name, f"a message is {'passed on' if ss else 'dropped'} although the gate is {'open' if is_open else 'closed'} (input paused {env[I]}, control {env[C]}, control paused {env[P]}, in error {env[E]})", loc, p)
  ctx.check(passes > 0, R2, "GateTask[passes]", "no message is ever passed on", k.module.name)
  waits = 0
  for r in rs:
    for p in r.paths:
      ps = outs(ctx, r, p.events, "set_paused")
      if not ps: continue
      w = [i for i, e in enumerate(p.events) if e.kind == "call" and (e.name or "").split(".")[-1] in ("wait_change",) or e.kind == "await" and "_change_trigger" in show(e.recv or NONE)]
      first = p.events.index(ps[0])
      ctx.check(not w or first < w[0], R3, r.name + "[start]", "the output is only paused after the first change", ps[0].loc, p)
      ctx.check(bool(w), R3, r.name + "[change]", "the output is not paused or resumed when the state changes", ps[0].loc, p)
      waits += 1
      for e in ps:
        for env, is_open in worlds(p, [e.args[0]]):
          try: x = bool(value_of(e.args[0], env))
          except Unk: x = None
          ctx.check(x == (not is_open), R3, r.name, f"the output is {'paused' if x else 'not paused'} although the gate is {'open' if is_open else 'closed'}", e.loc, p)
  ctx.check(waits > 0, R3, "GateTask[output]", "the output of the gate is never paused", k.module.name)
  obs = ctx.p.cls("streamtasks.utils.AsyncObservable")
  it = ctx.interp(); ps = ctx.run(it, ctx.method(k, "__init__"), selfcls=k)
  kinds = [x for p in ps for e in p.events if e.kind == "setattr" and e.name == I.a[0].a[1] for x in [it.type_of(e.args[0], p.st)]]
  ctx.check(bool(kinds) and all(isinstance(x, Class) and ctx.p.is_sub(x, obs) is True for x in kinds), R3, "GateTask[observed]", "changes of the state are not noticed", k.module.name)
  R4 = ctx.rule("T06-start", "a gate starts with the configured control, not paused and not in error; with synchronized inputs, the control goes before the input", 4)
  for p in ps:
    if p.kind != "return": continue
    for t, want, what in ((C, "initial_control", "the configured control"), (P, False, "a control that is not paused"), (I, False, "an input that is not paused"), (E, False, "no error")):
      v = [e.args[0] for e in p.events if e.kind == "setattr" and e.name == t.a[1]]
      ctx.check(bool(v) and (attr_is(v[-1], want) if isinstance(want, str) else v[-1] is FALSE), R4, f"GateTask[{what}]", f"the gate does not start with {what}", k.module.name, p)
    made = {e.args[0].a[1]: e.args[1] for e in p.events if e.kind == "call" and (e.name or "").endswith(".sync_in_topic") and e.args and e.args[0].op == "attr"}
    if not any(v for a, v in p.facts if any(attr_is(x, "synchronized") for x in subterms(a))): continue
    ctx.check(set(made) == {"control_topic", "in_topic"} and len(set(made.values())) == 1, R4, "GateTask[synchronized]", "input and control are not synchronized with each other", k.module.name, p)
    pr = {e.args[0].a[1]: e.args[1].a[0] for e in p.events if e.kind == "call" and (e.name or "").endswith(".set_priority") and e.args[0].op == "attr" and e.args[1].op == "const"}
    ctx.check(pr.get("control_topic", 0) > pr.get("in_topic", 0), R4, "GateTask[order]", "the control does not go before an input message of the same time", k.module.name, p)


SWITCH, MEDIASWITCH = "streamtasks.system.tasks.switch.SwitchTask", "streamtasks.system.tasks.media.mediaswitch.MediaSwitchTask"
CONTROLS = [{}, {0: 1.0}, {1: 1.0}, {0: 1.0, 1: 2.0}, {0: 2.0, 1: 1.0}, {0: -2.0, 1: 1.0}, {0: 1.25, 1: 1.75}]


def followed(p, env, state, stop=None):
  """the values after a path taken from an assignment; None if it is not taken, ... if that is not known"""
  for a, _ in p.facts:
    if not any(x in state for x in subterms(a)): continue
    try: value_of(a, env)
    except Unk: return ...
  return replay(p, env, stop=stop)


def t07(ctx):
  R1 = ctx.rule("T07-control", "a control message sets the value of its input, a paused control removes it; a resume or a message that is no number changes nothing", 4)
  R2 = ctx.rule("T07-forward", "a message is passed on, once and unchanged, exactly if its input has the highest control value (a media switch waits for a keyframe after every change of input)", 0)
  R3 = ctx.rule("T07-paused", "the output is paused as the selected input is, and no other input pauses or resumes it", 0)
  R4 = ctx.rule("T07-start", "no input is selected before its first control message", 2)
  for q in (SWITCH, MEDIASWITCH):
    k = ctx.p.cls(q)
    media = q == MEDIASWITCH
    rs = task_runs(ctx, k, Got(ctx))
    keys = [(e.recv, e.args[0]) for r in rs for p in r.paths for m, evs in rounds(p) if m.a[-1] == "data" for e in evs if e.kind == "setitem" and e.args[1].op == "attr" and e.args[1].a[1] == "value" and received(e.args[1]) == [m]]
    ctx.check(len(set(keys)) == 1, R1, f"{k.name}[values]", "the values of the controls are not kept by input", k.module.name)
    if len(set(keys)) != 1: continue
    CV, K = keys[0]
    pair = next((x for x in subterms(next(m.a[0] for r in rs for p in r.paths for m, _ in rounds(p))) if x.op in ("each", "elem")), None)
    if pair is None: continue
    pairs = pair.a[0]
    control = {m.a[0] for r in rs for p in r.paths for m, evs in rounds(p) if any(e.kind == "setitem" and e.recv is CV for e in evs)}
    active = {attr(e.recv, e.name) for r in rs for p in r.paths for m, evs in rounds(p) for e in evs if e.kind == "setattr" and e.args[0] is K}
    if media: ctx.check(len(active) == 1, R2, f"{k.name}[active]", "the input that had its keyframe is not kept", k.module.name)
    ACT = next(iter(active), None)
    state = {CV, K} | active
    def begin(cv, i, **more): return {CV: dict(cv), K: i, pairs: [("in0", "control0"), ("in1", "control1")], pair: (f"in{i}", f"control{i}"), **more}
    def best(cv): return max(cv, key=lambda x: cv[x]) if cv else None
    for r in rs:
      for p in r.paths:
        for m, evs in rounds(p):
          loc = evs[0].loc if evs else f"{r.func.file}:{r.func.line}"
          pause, sends = outs(ctx, r, evs, "set_paused"), outs(ctx, r, evs)
          msgs = [e.res for e in evs if e.kind == "call" and e.name == "model_validate"]
          usable = any(e.kind == "usable" for e in evs)
          if m.a[0] in control:
            for cv in CONTROLS:
              for i in (0, 1):
                for paused in (True, False):
                  env = begin(cv, i)
                  env[attr(m, "paused")] = paused
                  for x in msgs: env[attr(x, "value")] = 1.5
                  after = followed(p, env, state)
                  if after is None or after is ...: continue
                  if m.a[-1] == "control": want = {x: v for x, v in cv.items() if not (paused and x == i)}
                  else: want = {**cv, i: 1.5} if usable else cv
                  ctx.check(after[CV] == want, R1, r.name + f"[{m.a[-1]}{'' if usable or m.a[-1] == 'control' else ', no number'}]", "the control values are not what the control message says", loc, p)
                  if not usable: continue
                  for e in pause:
                    a = e.args[0]
                    try: x = value_of(a.a[0], after) if a.op == "attr" and a.a[1] == "is_paused" else Unk
                    except Unk: x = Unk
                    if x is not Unk: ctx.check(x == f"in{best(want)}", R3, r.name + "[selected]", "after a control message the output is not paused as the selected input is", e.loc, p)
                  ctx.check(len(pause) > 0, R3, r.name + "[changed]", "after a control message the output is not paused or resumed with the selected input", loc, p)
            continue
          packet = [t for a, _ in p.facts for t in subterms(a) if t.op == "attr" and t.a[1] == "is_keyframe" and received(t) == [m]]
          for cv in CONTROLS:
            for i in (0, 1):
              for act in ((-1, 0, 1) if media else (None,)):
                for key in ((True, False) if packet and usable else (False,)):
                  env = begin(cv, i)
                  if ACT is not None: env[ACT] = act
                  for t in packet: env[t] = key
                  after = followed(p, env, state)
                  if after is None or after is ...: continue
                  sel = best(cv) == i
                  say = f"(control values {cv}, input {i}" + (f", playing input {act}" if media else "") + (", a keyframe" if key else "") + ")"
                  if not sel: ctx.check(not pause, R3, r.name + "[others]", f"an input that is not selected pauses or resumes the output {say}", loc, p)
                  elif m.a[-1] == "control": ctx.check(len(pause) == 1 and (same_truth(p, pause[0].args[0], attr(m, "paused")) or pause[0].args[0].op == "attr" and pause[0].args[0].a[1] == "is_paused" and pause[0].args[0].a[0] is m.a[0]), R3, r.name, f"the output is not paused and resumed with the selected input {say}", loc, p)
                  if m.a[-1] == "control":
                    ctx.check(not sends, R2, r.name + "[pause]", "something is sent for a pause", loc, p)
                    continue
                  want = sel and (not media or act == i or key)
                  ctx.check(len(sends) == int(want) and all(stem(e.args[0]) is m for e in sends), R2, r.name, f"a message is {'sent' if sends else 'dropped'} {say}", loc, p)
                  if not media or ACT is None: continue
                  x = act
                  try:
                    for e in evs:
                      if e.kind == "setattr" and attr(e.recv, e.name) is ACT: x = value_of(e.args[0], env)
                  except Unk: continue
                  ctx.check((x == i) == want if sel or act == i else x == act, R2, r.name + "[playing]", f"afterwards input {x} counts as playing {say}", loc, p)
    it = ctx.interp()
    for p in ctx.run(it, ctx.method(k, "__init__"), selfcls=k):
      if p.kind != "return": continue
      v = [e.args[0] for e in p.events if e.kind == "setattr" and e.name == CV.a[1]]
      ctx.check(bool(v) and (n := it.norm(v[-1], p.st)).op == "lit" and len(n.a) == 1, R4, f"{k.name}[start]", "a new switch does not start without control values", k.module.name, p)
      if media and ACT is not None:
        v = [e.args[0] for e in p.events if e.kind == "setattr" and e.name == ACT.a[1]]
        ctx.check(bool(v) and v[-1].op == "const" and not (isinstance(v[-1].a[0], int) and v[-1].a[0] >= 0), R4, f"{k.name}[playing]", "an input of a new media switch counts as playing", k.module.name, p)


KEEPS = ("send", "send_to", "append", "put", "put_nowait", "appendleft", "insert", "extend", "add")
CHANGES = ("append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "appendleft", "popleft", "fill", "__setitem__", "__delitem__", "__setattr__")


def content_of(t):
  """(message, depth) when a term is the content of a message or a part of it"""
  d = 0
  while True:
    if t.op == "attr" and t.a[1] in ("data", "_data") and t.a[0].op in ("received", "copied"): return t.a[0], d
    if t.op == "call" and t.a[0].op in ("attr", "bound") and t.a[0].a[1].split(".")[-1] in ("get", "setdefault", "values", "items", "deserialize") and t.a[0].a[0] is not None:
      if t.a[0].a[1].split(".")[-1] == "deserialize" and t.a[0].a[0].op in ("received", "copied"): return t.a[0].a[0], d
      t, d = t.a[0].a[0], d + 1
    elif t.op in ("item", "elem", "each"): t, d = t.a[0], d + 1
    else: return None


def t08(ctx):
  R1 = ctx.rule("T08", "a task changes only messages it made or copied itself and has not passed on: never one it received, nor a part that a copy shares with it", 40)
  R2 = ctx.rule("T08-copy", "the copy of a message has its own mapping with the same entries; one whose timestamp is set is serialized anew", 1)
  for k in task_classes(ctx):
    for r in task_runs(ctx, k, Got(ctx, bad=False)):
      bad = None
      for p in r.paths:
        given = []
        for e in p.events:
          why = None
          if e.kind == "call":
            short = (e.name or "").split(".")[-1]
            if short == "set_timestamp_on_message" and e.args:
              x = e.args[0]
              if x.op not in ("copied", "rawdata"): why = "the timestamp of a message that others may hold is changed"
              elif x in given: why = "the timestamp of a message is changed after it was passed on"
            elif short in CHANGES and e.recv is not None and (c := content_of(e.recv)) and (c[0].op == "received" or c[1] > 0): why = "the content of a message that others may hold is changed"
            if short in KEEPS: given += [a for a in e.args or ()]
          elif e.kind in ("setitem", "delitem") and e.recv is not None and (c := content_of(e.recv)):
            if c[0].op == "received" or c[1] > 0: why = "the content of a message that others may hold is changed"
            elif c[0] in given: why = "the content of a message is changed after it was passed on"
          elif e.kind == "setattr" and e.recv is not None and (e.recv.op == "received" or content_of(e.recv)): why = "a message that others may hold is changed"
          elif e.kind == "setattr" and e.args: given += [e.args[0]]
          if why and bad is None: bad = (why, e.loc, p)
      ctx.check(bad is None, R1, r.name, bad[0] if bad else "", bad[1] if bad else f"{r.func.file}:{r.func.line}", bad[2] if bad else None)
  it = ctx.interp()
  me = mk("sym", "message")
  for p in ctx.run(it, ctx.method(ctx.p.cls(RAWD), "shallow_copy"), selfterm=me, selfcls=ctx.p.cls(RAWD)):
    if p.kind != "return": continue
    v = it.norm(p.value, p.st)
    c = v
    made = next((e for e in p.events if e.kind == "call" and e.name == RAWD), None)
    x = it.norm(made.args[0], p.st) if made is not None and made.args else None
    fresh = x is not None and (x.op == "lit" and x.a[0] == "dict" and any(y.op == "spread" for y in x.a[1:]) or x.op == "copy" or x.op == "call" and call_name(x) in ("dict", "copy"))
    ctx.check(fresh and contains(x, lambda y: y is me), R2, "RawData.shallow_copy", "the copy of a message shares its mapping with the original", made.loc if made else "", p)
  f = ctx.p.func("streamtasks.message.utils.set_timestamp_on_message")
  T, it = mk("sym", "time"), ctx.interp()
  pa = [a.arg for a in f.node.args.args]
  for p in ctx.run(it, f, bind={pa[1]: T}):
    if p.kind != "return": continue
    ss = [e for e in p.events if e.kind == "setitem" and e.args and e.args[0] is const("timestamp") and e.args[1] is T]
    ctx.check(bool(ss), R2, "set_timestamp", "the timestamp of a message is not set", f"{f.file}:{f.line}", p)
    cached = [e for e in p.events if e.kind == "setattr" and e.name == "_raw"]
    anew = cached and cached[-1].args[0] is NONE or any(v and a.op == "is" and NONE in a.a and any(attr_is(x, "_raw") for x in a.a) for a, v in p.facts) and not cached
    if ss: ctx.check(anew, R2, "set_timestamp[anew]", "a message whose timestamp is set is still sent with the bytes of the old one", ss[0].loc, p)


RULES = {"T04": t04, "T05": t05, "T06": t06, "T07": t07, "T08": t08}
