"""Controls and displays: what they show, send and take from their pages."""
from __future__ import annotations
import ast
from .tasks2 import *
from .store import Web, SCOPE, RECEIVE, SEND, ANSWER, BODY, WEBSTOP
from .svc import invoke
from ..program import Func
from ..interp import State

UIT = "streamtasks.system.tasks.ui."
BASE, CONTROL = UIT + "controlbase.UIBaseTask", UIT + "controlbase.UIControlBaseTask"
WAIT = "streamtasks.utils.AsyncTrigger.wait"
WSC = "streamtasks.asgiserver.WebsocketContext"
NEW = mk("sym", "value after the change")


def last(e): return (e.name or "").split(".")[-1]


class Held:
  """how a task keeps its value: the property it is set by, the field it is in, and the trigger of its changes"""
  def __init__(self, ctx, R):
    self.k = ctx.p.cls(BASE)
    self.prop, self.field = None, None
    for n in self.k.node.body:
      if not isinstance(n, ast.FunctionDef): continue
      if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list):
        f = Func(n, self.k.module, self.k)
        self.prop = n.name
        V, it = mk("sym", "new value"), ctx.interp()
        for p in ctx.run(it, f, selfcls=self.k, bind={n.args.args[1].arg: V}):
          if p.kind != "return": continue
          st = [e for e in p.events if e.kind == "setattr" and e.args[0] is V]
          tr = [e for e in p.events if e.kind == "call" and last(e) == "trigger"]
          ctx.check(len(st) == 1, R, "UIBaseTask.value[kept]", "a new value is not kept", f"{self.k.module.name}:{n.lineno}", p)
          ctx.check(bool(tr), R, "UIBaseTask.value[told]", "nobody is told that the value has changed", f"{self.k.module.name}:{n.lineno}", p)
          if st: self.field = st[0].name

  def current(self, t): return t.op == "attr" and t.a[1] in (self.prop, self.field) and t.a[0].op != "attr"

  def sets(self, evs):
    """[(event, new value, are others told)]"""
    out = []
    for i, e in enumerate(evs):
      if e.kind != "setattr" or e.name not in (self.prop, self.field) or e.recv is None or e.recv.op == "attr": continue
      out.append((e, e.args[0], e.name == self.prop or any(x.kind == "call" and last(x) == "trigger" for x in evs[i:])))
    return out


def shown(ctx, R, H, k):
  """a display: what it shows after a message"""
  judged = 0
  for r in task_runs(ctx, k, Got(ctx)):
    for p in r.paths:
      for m, evs in rounds(p):
        ss = H.sets(evs)
        loc = ss[0][0].loc if ss else evs[0].loc if evs else f"{r.func.file}:{r.func.line}"
        usable = any(e.kind == "usable" for e in evs) and not any(e.kind == "unusable" for e in evs)
        if m.a[-1] != "data" or not usable: ctx.check(not ss, R, k.name + "[kept]", "a pause or a message it cannot use changes what is shown", loc, p); continue
        if not whole(p, evs): continue
        ctx.check(len(ss) == 1, R, k.name + "[shown]", "a message is not shown" if not ss else "a message is shown more than once", loc, p)
        if len(ss) != 1: continue
        ctx.check(ss[0][2], R, k.name + "[told]", "nobody is told of the message that is shown", loc, p)
        v = r.it.norm(ss[0][1], p.st)
        msg = next((e.res for e in evs if e.kind == "call" and e.name == "model_validate"), None)
        f = fields(v) if v.op == "inst" else None
        ctx.check(f is not None and "value" in f and msg is not None, R, k.name + "[value]", "what is shown is not made of the message", loc, p)
        if f is None or "value" not in f or msg is None: continue
        t, mv = r.it.norm(f["value"], p.st), attr(msg, "value")
        if k.name != "TextDisplayTask":
          judged += 1
          ctx.check(t is mv, R, k.name + "[value]", "what is shown is not the value of the message", loc, p)
          continue
        atoms = {x for a, _ in p.facts for x in subterms(a)} | set(subterms(t))
        olds = [x for x in atoms if x.op == "attr" and x.a[1] == "value" and H.current(x.a[0])]
        cfg = lambda n: [x for x in atoms if x.op == "attr" and x.a[1] == n]
        for append in (True, False):
          for sep in ("", "-"):
            for n in (-1, 1, 3, 5, 20):
              for old in ("", "abcd"):
                env = {mv: "xyz", **{x: old for x in olds}, **{x: append for x in cfg("append")}, **{x: sep for x in cfg("seperator")}, **{x: n for x in cfg("max_length")}}
                if not holds(p.facts, env): continue
                whole_text = old + sep + "xyz" if append else "xyz"
                want = whole_text if n == -1 else whole_text[-n:]
                try: got = value_of(t, env)
                except Unk: continue
                judged += 1
                also = {want} | ({("xyz" if n == -1 else "xyz"[-n:])} if append and old == "" else set())
                ctx.check(got in also, R, k.name + "[text]", f"after {old!r}, with separator {sep!r}, {'at most ' + str(n) if n > 0 else 'any number of'} characters and {'texts joined' if append else 'the last text only'}, {got!r} is shown for 'xyz'", loc, p)
  ctx.check(judged > 0, R, k.name, "no message is ever shown", k.module.name)


def sending(ctx, R, H, k):
  """a control: what it sends for its values"""
  f = ctx.method(k, "send_value")
  V, it = mk("sym", "value"), ctx.interp(models=Got(ctx).models(), inline_fn=task_code)
  ps = ctx.run(it, f, selfcls=k, bind={f.node.args.args[1].arg: V})
  judged = 0
  for p in ps:
    if p.kind not in ("return", "loopback"): continue
    ss = [e for e in p.events if e.kind == "call" and last(e) == "send" and e.awaited and e.args]
    loc = ss[0].loc if ss else f"{f.file}:{f.line}"
    field = attr(V, "selected_topic") if k.name == "RadioButtonsUITask" else attr(V, "value")
    outs_ = [message(it, p, e.args[0]) for e in ss]
    ctx.check(all(x is not None for x in outs_), R, k.name + "[message]", "what is sent is no message", loc, p)
    if any(x is None for x in outs_): continue
    for d, e in zip(outs_, ss):
      ctx.check(d[0] == (TXT if k.name == "TextInputTask" else NUM), R, k.name + "[kind]", "the value is sent as a message of another kind", loc, p)
      ctx.check(contains(it.norm(d[1].get("timestamp", NONE), p.st), lambda x: x.op == "call" and call_name(x) in ("time_ns", "time", "get_timestamp_ms")), R, k.name + "[time]", "the value is sent without the time", loc, p)
    if k.name == "RadioButtonsUITask":
      for d, e in zip(outs_, ss):
        own = attr(e.recv, "topic")
        for a, b in ((7, 7), (7, 8), (7, -1)):
          env = {own: a, field: b}
          if not holds(p.facts, env): continue
          try: got = value_of(it.norm(d[1].get("value", NONE), p.st), env)
          except Unk: got = None
          judged += 1
          ctx.check(got == (1 if a == b else 0), R, k.name + "[value]", "the selected button does not send 1, or another one does not send 0", loc, p)
      lp = [e.recv for e in p.events if e.kind == "loop" and e.recv is not None]
      ctx.check(bool(lp) and (len(ss) > 0 or any(a.op == "truthy" and not v and a.a[0] in lp for a, v in p.facts)), R, k.name + "[all]", "not every button sends its value", loc, p)
      for e in ss: ctx.check(every(e.recv).op in ("each", "elem"), R, k.name + "[all]", "not every button sends its value", loc, p)
      continue
    for x in {"TextInputTask": ["ab", " a ", "", "  "], "SwitchUITask": [True, False]}.get(k.name, [0.0, 0.25, -3.0]):
      env = {field: x}
      if not holds(p.facts, env): continue
      blank = k.name == "TextInputTask" and not x.strip()
      judged += 1
      ctx.check(len(ss) == (0 if blank else 1), R, k.name + "[once]", f"for {x!r} {len(ss)} messages are sent", loc, p)
      if len(ss) != 1 or blank: continue
      try: got = value_of(it.norm(outs_[0][1].get("value", NONE), p.st), env)
      except Unk: got = None
      ctx.check(got is not None and got == x, R, k.name + "[value]", f"for {x!r} {got!r} is sent", loc, p)
  ctx.check(judged > 0, R, k.name, "the value is never sent", k.module.name)


def repeating(ctx, R, H, k):
  """a control sends its current value at its start, after every change and after every interval"""
  def waits(it, f, a, kw, n, st, fr): return [("v", mk("changes"), st)]
  def fails(ev, st): return ["asyncio.TimeoutError"] if ev.kind == "call" and last(ev) in ("wait_for", "timeout") else None
  changed = lambda t: contains(t, lambda x: x.op == "changes")
  f = ctx.method(k, "run_other")
  it = ctx.interp(stop={"send_value"}, models={"wait_value_changed": waits, WAIT: waits}, raises_fn=fails, inline_fn=task_code, unroll=2)
  rounds_ = limits = 0
  for p in ctx.run(it, f, selfcls=k):
    if p.kind not in ("loopback",): ctx.check(False, R, k.name + "[ends]", "the value is no longer sent after some time without a change", f"{f.file}:{f.line}", p); continue
    seq = []
    for e in p.events:
      if e.kind == "call" and last(e) == "send_value" and e.awaited: seq.append(("send", e))
      elif (e.kind == "await" and e.recv is not None and changed(e.recv)) or (e.kind == "call" and e.awaited and any(changed(a) for a in e.args or ())): seq.append(("wait", e))
      elif e.kind == "call" and e.awaited and last(e) == "sleep": seq.append(("sleep", e))
    loc = seq[0][1].loc if seq else f"{f.file}:{f.line}"
    rounds_ += 1
    kinds = [x for x, _ in seq]
    ctx.check(bool(kinds) and all(x == ("send", "wait")[i % 2] for i, x in enumerate(kinds)), R, k.name + "[turns]", "the value is not sent at the start and then after every change or interval", loc, p)
    for x, e in seq:
      if x == "send": ctx.check(e.args and H.current(e.args[0]), R, k.name + "[current]", "another value than the current one is sent", e.loc, p)
      elif x == "wait":
        lim = e.arg(1, "timeout") if e.kind == "call" and last(e) == "wait_for" else None
        at = [(a, v) for a, v in p.facts if contains(a, lambda y: attr_is(y, "repeat_interval"))]
        for n in (0, 0.5, 2):
          env = {y: n for a, _ in at for y in subterms(a) if attr_is(y, "repeat_interval")}
          env.update({y: n for y in subterms(lim or NONE) if attr_is(y, "repeat_interval")})
          if not holds(p.facts, env): continue
          try: got = None if lim is None else value_of(lim, env)
          except Unk: got = ...
          limits += 1
          ctx.check(got == (n or None), R, k.name + "[interval]", f"with an interval of {n} the value is sent again after {'no' if got is None else got} time", e.loc, p)
  ctx.check(rounds_ > 0 and limits > 0, R, k.name + "[repeats]", "the value is not sent again and again", f"{f.file}:{f.line}")


def pages(ctx, R, H):
  web = Web(ctx, BASE, "_run_web_server")
  where = H.k.module.name
  for path, what in (("/value", "the current value"), ("/config", "the configuration")):
    ss = web.subs("GET", path)
    ctx.check(bool(ss), R, f"GET {path}", f"{what} cannot be asked for", where)
    for s in ss or ():
      if s.kind != "return": continue
      an = [e for e in s.events if e.kind == "call" and e.name == ANSWER]
      own = H.current if path == "/value" else (lambda x: x.op == "attr" and x.a[1] == "config")
      dump = lambda t: contains(t, lambda x: x.op == "call" and call_name(x) in ("model_dump", "model_dump_json", "dict", "json") and call_recv(x) is not None and own(call_recv(x)))
      if an: ctx.check(any(dump(web.it.norm(a, s.st)) for e in an for a in e.args or ()), R, f"GET {path}[answer]", f"the answer is not {what}", an[0].loc, s)
  ss = web.subs("POST", "/value")
  ctx.check(bool(ss), R, "POST /value", "no value can be set", where)
  for s in ss or ():
    an = [i for i, e in enumerate(s.events) if e.kind == "call" and e.name == ANSWER]
    sets = H.sets(s.events)
    if s.kind != "return": continue
    loc = sets[0][0].loc if sets else where
    if not any(e.kind == "call" and e.name == BODY for e in s.events): continue
    ctx.check(len(sets) == 1, R, "POST /value[set]", "a value that is posted does not become the current one", loc, s)
    if len(sets) != 1: continue
    e, v, told = sets[0]
    ctx.check(told, R, "POST /value[told]", "nobody is told of a value that was posted", loc, s)
    v = web.it.norm(v, s.st)
    ctx.check(contains(v, lambda x: x.op == "call" and call_name(x) == "receive_text"), R, "POST /value[body]", "the new value is not the one that was posted", loc, s)
    ctx.check(contains(v, lambda x: x.op == "call" and call_name(x) in ("model_validate", "model_validate_json", "validate_python")), R, "POST /value[valid]", "what is posted is not checked to be a value", loc, s)
    if an: ctx.check(s.events.index(e) < an[0], R, "POST /value[first]", "the request is answered before the value is set", loc, s)


DEPS = "streamtasks.utils.wait_with_dependencies"
SOCKET = "streamtasks.asgiserver.ASGIRouter.add_websocket_route"


def viewers(ctx, R, H):
  """a page that is connected is sent every new value until it goes away"""
  def waits(it, f, a, kw, n, st, fr): return [("v", mk("changes"), st)]
  def fresh(st):
    s = st.copy()
    for k in list(s.store):
      if k[1] == H.field: del s.store[k]
    s.store[(SELF, H.field)] = NEW
    s, i = s.fresh()
    s = s.copy()
    for k in [k for k in s.store if k[1] == "_connected"]: s.store[k] = mk("sym", "still connected", i)
    return s
  def accepted(it, f, a, kw, n, st, fr):
    s = st.copy()
    s.store[(f.a[0], "_connected")] = TRUE
    return [("v", NONE, s)]
  def waited(it, f, a, kw, n, st, fr):
    # whoever has waited for a change finds another value
    e = it._mkev("call", st, fr, n, name=DEPS, args=tuple(a), kw=tuple(kw), fterm=f, res=NONE, awaited=True)
    return [("v", NONE, fresh(st).event(e))]
  SELF = mk("task")
  stops = {WSC + "." + x for x in ("send_message", "close", "receive_disconnect", "receive_message")} | {SOCKET}
  it = ctx.interp(decorate=True, stop=WEBSTOP | stops, models={"wait_value_changed": waits, WAIT: waits, DEPS: waited, WSC + ".accept": accepted}, unroll=2)
  it.types[SELF] = H.k
  n = told = 0
  for p in ctx.run(it, ctx.method(H.k, "_run_web_server"), selfterm=SELF, selfcls=H.k):
    for e in p.events:
      if e.kind != "call" or e.name != SOCKET: continue
      n += 1
      h = e.arg(0, "handler")
      for s in invoke(ctx, it, p, h, [SCOPE, RECEIVE, SEND]):
        seq = []
        for x in s.events:
          if x.kind == "call" and (x.name == DEPS or x.awaited and any(contains(y, lambda z: z.op == "changes") for y in x.args or ())): seq.append(("wait", x))
          elif x.kind == "await" and x.recv is not None and contains(x.recv, lambda z: z.op == "changes"): seq.append(("wait", x))
          elif x.kind == "call" and last(x) in ("send_message", "send_text", "send_json"): seq.append(("send", x))
        for i, (a, x) in enumerate(seq):
          if a != "wait" or s.kind == "raise" and i + 1 == len(seq): continue
          told += 1
          nxt = seq[i + 1] if i + 1 < len(seq) else (None, x)
          ctx.check(nxt[0] == "send", R, "pages[told]", "a page that is connected is not sent a new value", x.loc, s)
          if nxt[0] == "send": ctx.check(any(contains(it.norm(y, s.st), lambda z: z is NEW) for y in nxt[1].args or ()), R, "pages[new]", "a page is sent the value from before the change", nxt[1].loc, s)
          deps = x.arg(1, "deps") if x.name == DEPS else None
          gone = deps is not None and contains(it.norm(deps, s.st), lambda z: z.op in ("task", "call", "coro", "inst", "new"))
          ctx.check(gone, R, "pages[gone]", "a page that has gone away is waited for for ever", x.loc, s)
        if seq and any(a == "wait" for a, _ in seq) and s.kind != "loopback": ctx.check(any(x.kind == "call" and x.name == WSC + ".close" for x in s.events), R, "pages[closed]", "the connection of a page is not closed", seq[-1][1].loc, s)
  ctx.check(n > 0 and told > 0, R, "pages", "pages are not told of new values", H.k.module.name)


def t14(ctx):
  R1 = ctx.rule("T14-value", "a value that is set is kept and everyone who waits for a change is told", 2)
  R2 = ctx.rule("T14-shown", "a display shows the value of the last message it can use (a text display the texts joined and cut as set), pauses and other messages change nothing", 10)
  R3 = ctx.rule("T14-sent", "a control sends one message with its value and the time to its output (radio buttons: 1 for the selected, 0 for all others; blank texts are not sent)", 10)
  R4 = ctx.rule("T14-repeat", "a control sends its current value at its start, after every change and, if set, after every interval", 8)
  R5 = ctx.rule("T14-page", "a page gets the current value and configuration; a valid value that is posted becomes the current one before the answer", 4)
  H = Held(ctx, R1)
  ctx.check(H.prop is not None and H.field is not None, R1, "UIBaseTask.value", "the value of a task cannot be set", H.k.module.name)
  if H.field is None: return
  n = 0
  for k in task_classes(ctx):
    if not ctx.p.is_sub(k, H.k): continue
    if ctx.p.is_sub(k, ctx.p.cls(CONTROL)):
      n += 1
      sending(ctx, R3, H, k)
      repeating(ctx, R4, H, k)
    elif k.name in ("StatusDisplayTask", "ValueDisplayBarTask", "TextDisplayTask"): shown(ctx, R2, H, k)
  pages(ctx, R5, H)
  viewers(ctx, R5, H)


RULES = {"T14": t14}
