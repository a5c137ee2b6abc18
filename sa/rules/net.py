"""Network layer: messages, links, switch."""
from __future__ import annotations
import ast
from ..rule import *
from ..interp import Truncated
from ..q import *
from ..tev import ev, Unk, Inst, free_elems

NET = "streamtasks.net"
SW, LINK = NET + ".Switch", NET + ".Link"
MSG, SER, HLP = NET + ".messages", NET + ".serialization", NET + ".helpers"
CLOSED = NET + ".ConnectionClosedError"
SEND = LINK + ".send"
TRACK = {f"{HLP}.PricedIdTracker.{m}" for m in ("change_many", "add_many", "remove_many", "items", "get", "__contains__")} | {f"streamtasks.utils.IdTracker.{m}" for m in ("add_many", "remove_many", "change_many", "items", "__contains__")}
STOP = {SEND, LINK + ".close", "_transform_message"} | TRACK


def concrete_messages(ctx):
  """message classes that are built somewhere (no abstract bases)"""
  base = ctx.p.cls(MSG + ".Message")
  out = []
  for c in ctx.p.subclasses(base):
    direct_abc = any((isinstance(b, str) and b.split(".")[-1] == "ABC") for b in ctx.p.bases(c))
    if not direct_abc and c.is_dataclass: out.append(c)
  return out


def msg_param(it, ctx, cname, name="message"):
  m = mk("param", name, cname)
  c = ctx.p.cls(f"{MSG}.{cname}") if "." not in cname else ctx.p.cls(cname)
  it.exact[m] = c; it.types[m] = c
  return m


def link_coll(ctx):
  """the term of the switch's collection of attached links"""
  it = ctx.interp(stop=STOP)
  f = ctx.method(SW, "add_link")
  ps = ctx.run(it, f, selfcls=ctx.p.cls(SW))
  lk = mk("param", "link", f.qualname)
  names = [a.arg for a in f.node.args.args]
  lk = mk("param", names[1], f.qualname)
  colls = set()
  for p in ps:
    for e in p.events:
      if e.kind == "setitem" and e.args[0] is lk: colls.add(strip(e.recv))
      if e.kind == "call" and e.fterm.op == "attr" and e.name in ("add", "append") and e.args and e.args[0] is lk: colls.add(strip(e.recv))
  if len(colls) != 1: raise AnalysisBroken("cannot tell which collection of the switch holds its links")
  return colls.pop()


def handle(ctx, cname, **cfg):
  cfg.setdefault("stop", STOP)
  it = ctx.interp(**cfg)
  f = ctx.method(SW, "handle_message")
  a = [x.arg for x in f.node.args.args]
  m = msg_param(it, ctx, cname)
  o = mk("param", "origin", f.qualname); it.types[o] = ctx.p.cls(LINK)
  ps = ctx.run(it, f, selfcls=ctx.p.cls(SW), bind={a[1]: m, a[2]: o})
  return it, m, o, ps, f


def sends(p): return [e for e in p.events if e.kind == "call" and e.name == SEND]


def elems_on(p, coll, facts_only=False):
  out = set()
  for a, _ in p.facts:
    for s in subterms(a):
      if s.op == "elem" and elem_of(s, coll) is not None: out.add(s)
  return out


def left_early(p, coll):
  """loops over the links that were left before all links were seen"""
  for e in p.events:
    if e.kind == "leave":
      v = e.recv
      if strip(v) is coll: return e
      alts = comp_alts(v)
      if alts and any(elem_of(x, coll) is not None for _, x in alts): return e
  return None


def visited(p, coll): return fact(p.facts, mk("truthy", coll))


# ------------------------------------------------------------------ N02 stream fan-out
def n02(ctx):
  R1 = ctx.rule("fanout-only-subscribers", "on every path of the switch's message handling, a stream message is sent only to attached links that are not its origin and are subscribed to its topic", 2)
  R2 = ctx.rule("fanout-every-subscriber", "every path that meets an attached link which is subscribed and not the origin sends it the message; no loop over the links is left early", 2)
  R3 = ctx.rule("fanout-unchanged", "what is forwarded is the received message itself", 2)
  R4 = ctx.rule("control-remembered", "every path handling a topic control message records its state for the topic", 1)
  R5 = ctx.rule("control-replayed", "every path handling a subscription sends the remembered control state of each added topic to the subscriber", 1)
  coll = link_coll(ctx)
  base = ctx.p.cls(MSG + ".TopicMessage")
  for c in concrete_messages(ctx):
    if not ctx.p.is_sub(c, base): continue
    it, m, o, ps, f = handle(ctx, c.qualname, unroll_for=2, raises_fn=lambda e, st: [CLOSED] if e.kind == "call" and e.name == SEND else [])
    topic = attr(m, "topic")
    cn = f"{f.qualname}[{c.name}]"
    for p in ps:
      if p.kind != "return": continue
      ss = sends(p)
      for e in ss:
        x = e.recv
        good = elem_of(x, coll) is not None and eq_fact(e.facts, x, o) is False and fact(e.facts, mk("in", topic, attr(x, "in_topics"))) is True and e.loops
        ctx.check(good, R1, cn, f"{show(x)} is sent the message without being known to be an attached link other than the origin that subscribes to the topic", e.loc, p)
        ctx.check(e.arg(0, "message") is m, R3, cn, f"the forwarded message is {show(e.arg(0, 'message'))[:80]}, not the received one", e.loc, p)
      le = left_early(p, coll)
      if le is not None: ctx.fail(R2, cn, "a loop over the links stops before the last one", le.loc, p); continue
      v = visited(p, coll)
      if v is None: ctx.fail(R2, cn, "the links are not looked at on this path", f.file, p); continue
      if v is False: ctx.ok(R2, cn); continue
      xs = elems_on(p, coll)
      targets = {e.recv for e in ss}
      for x in xs:
        skip = eq_fact(p.facts, x, o) is True or fact(p.facts, mk("in", topic, attr(x, "in_topics"))) is False
        ctx.check(skip or x in targets, R2, cn, "an attached, subscribed link other than the origin is not sent the message", f.file, p)
      if not xs: ctx.fail(R2, cn, "the links are not looked at on this path", f.file, p)
  # control state
  it, m, o, ps, f = handle(ctx, "TopicControlMessage")
  cn = f"{f.qualname}[TopicControlMessage]"
  store = None
  for p in ps:
    if p.kind != "return": continue
    hit = None
    for e in p.events:
      if e.kind == "setitem" and root(e.recv).op == "self" and e.args[0] is attr(m, "topic"):
        v = it.norm(e.args[1], p.st)
        if contains(v, attr(m, "paused")) or v is m: hit = e
    if ctx.check(hit is not None, R4, cn, "the control state of the topic is not recorded on this path", f.file, p): store = hit.recv
  if store is None: return
  it, m, o, ps, f = handle(ctx, "InTopicsChangedMessage", stop=STOP | {SW + ".request_in_topics_change"})
  cn = f"{f.qualname}[InTopicsChangedMessage]"
  add = attr(m, "add")
  for p in ps:
    if p.kind != "return": continue
    known = [a.a[0] for a, v in p.facts if v and a.op == "in" and a.a[1] is store and elem_of(a.a[0], add) is not None]
    tested = [a.a[0] for a, v in p.facts if a.op == "in" and a.a[1] is store] + [x for a, v in p.facts for x in subterms(a) if get_of(x) and get_of(x)[0] is store]
    if fact(p.facts, mk("truthy", add)) is False: ctx.ok(R5, cn); continue
    if not tested: ctx.fail(R5, cn, "the remembered control states are not consulted for the added topics", f.file, p); continue
    for t in set(known):
      good = False
      for e in sends(p):
        a = it.norm(e.arg(0, "message"), p.st)
        if e.recv is o and a.op == "inst" and a.a[0].endswith(".TopicControlMessage") and fields(a).get("topic") is t and contains(fields(a).get("paused", NONE), mk("item", store, t)): good = True
      ctx.check(good, R5, cn, "a subscriber of a topic with a remembered control state is not sent it", f.file, p)
    if not known: ctx.ok(R5, cn)


def world_value(t, env):
  """value of a collection in a world, None if the world does not say"""
  try: v = ev(t, env)
  except (Unk, KeyError, TypeError): return None
  return v if isinstance(v, (set, list, tuple, dict)) else None


def link_of(n, **tables): return Inst("link", {"n": n, "in_topics": set(), "recv_topics": set(), "out_topics": {}, "addresses": {}, **tables})


def taken(p, env):
  """are all facts of a path known to hold in a world?"""
  try: return all(bool(ev(a, env)) == v for a, v in p.facts)
  except (Unk, KeyError, TypeError): return False


def announced_on_removal(ctx, R4, it, f, ps, lk):
  """what went with a link, or got dearer, is announced"""
  for nm, cls in (("out_topics", "OutTopicsChangedMessage"), ("addresses", "AddressesChangedMessage")):
    cn = f"{f.qualname}[{nm}]"
    for p in ps:
      if p.kind != "return": continue
      call = next((e for e in p.events if e.kind == "call" and e.name and e.name.endswith(".remove_many") and any(contains(it.norm(a, p.st), attr(lk, nm)) for a in e.args)), None)
      if call is None: continue
      removed, updated = mk("item", call.res, const(0)), mk("item", call.res, const(1))
      changed = [v for t in (removed, updated) for v in [fact(p.facts, mk("truthy", t))]]
      ann = None
      for e in p.events:
        if e.kind != "call": continue
        for a in e.args:
          n = it.norm(a, p.st)
          if n.op == "inst" and n.a[0].endswith("." + cls) and fields(n).get("add") is updated and strip(fields(n).get("remove", NONE)) is removed: ann = e
      if True in changed: ctx.check(ann is not None, R4, cn, f"changed {nm} of a removed link are not announced", f.file, p)
      elif ann is None: ctx.check(all(v is False for v in changed), R4, cn, f"changed {nm} of a removed link may go unannounced", f.file, p)


# ------------------------------------------------------------------ N04 link teardown
def n04(ctx):
  R1 = ctx.rule("release-all", "on every way out of link removal - also when a notification fails or is cancelled - the link's subscriptions, topics and addresses have each been released from the switch's tables", 3)
  R2 = ctx.rule("teardown-always", "however receiving from a link ends (closed, cancelled, handler failure), the link is removed from the switch and closed", 2)
  R3 = ctx.rule("no-self-cancel", "removing a link from its own receiver does not cancel the task doing the removal", 1)
  R4 = ctx.rule("withdrawals-announced", "what became unavailable, or only available at another price, with the link is announced to the remaining links", 2)
  R5 = ctx.rule("demand-moved", "topics still wanted that the link provided are requested from the remaining providers, topics nobody wants any more are dropped upstream", 2)
  c = ctx.p.cls(SW)
  f = ctx.method(SW, "remove_link")
  lk = mk("param", f.node.args.args[1].arg, f.qualname)
  it = ctx.interp(stop=STOP | {SW + ".request_in_topics_change"}, cancel=True, raises_fn=lambda e, st: ["any", CLOSED] if e.kind == "call" and e.awaited else [])
  ps = ctx.run(it, f, selfcls=c)
  want = {"in_topics": "in_topics", "out_topics": "out_topics", "addresses": "addresses"}
  rel = {}
  for p in ps:
    for nm in want:
      hit = None
      for e in p.events:
        if e.kind == "call" and e.name and e.name.split(".")[-1] in ("remove_many", "change_many") and e.recv is not None and root(e.recv).op == "self" and e.args:
          if any(contains(it.norm(a, p.st), attr(lk, nm)) for a in e.args): hit = e
      cn = f"{f.qualname}[{nm}]"
      if hit is not None:
        a = next(a for a in map(lambda a: it.norm(a, p.st), hit.args) if contains(a, attr(lk, nm)))
        held = {attr(lk, "in_topics"): {1, 2}, attr(lk, "recv_topics"): {2, 5}, attr(lk, "out_topics"): {1: 3, 5: 4}, attr(lk, "addresses"): {1: 3, 7: 2}}
        got = world_value(a, held)
        if got is not None:
          ids = {x.f.get("id") if isinstance(x, Inst) else x for x in got}
          ctx.check(ids == set(held[attr(lk, nm)]), R1, cn, f"of the link's {nm} not all, or others, are released", hit.loc, p)
      ctx.check(hit is not None, R1, cn, f"a way out of link removal leaves the link's {nm} in the switch's tables", f.file, p)
      if hit is not None: rel.setdefault(nm, set()).add(hit.recv)
  announced_on_removal(ctx, R4, it, f, ps, lk)
  # demand
  req = SW + ".request_in_topics_change"
  for p in ps:
    if p.kind != "return": continue
    rin = next((e for e in p.events if e.kind == "call" and e.name and e.name.endswith("IdTracker.remove_many") and any(contains(it.norm(a, p.st), attr(lk, "in_topics")) for a in e.args)), None)
    if rin is None: continue
    calls = [e for e in p.events if e.kind == "call" and e.name == req]
    if fact(p.facts, mk("truthy", rin.res)) is True:
      ctx.check(any(contains(it.norm(e.arg(1, "remove_topics", NONE), p.st), rin.res) for e in calls), R5, f"{f.qualname}[dropped]", "topics nobody wants after the removal stay requested upstream", f.file, p)
    for a, v in p.facts:
      if v and a.op == "truthy" and contains(a.a[0], attr(lk, "recv_topics")) and a.a[0] is not attr(lk, "recv_topics") and a.a[0].op in ("comp", "bin", "copy"):
        ctx.check(any(contains(it.norm(e.arg(0, "add_topics", NONE), p.st), attr(lk, "recv_topics")) for e in calls), R5, f"{f.qualname}[moved]", "topics the removed link provided are not requested from the others", f.file, p)
    gone = next((e for e in p.events if e.kind == "call" and e.name and e.name.endswith("PricedIdTracker.remove_many") and e.recv.a[-1] == "out_topics"), None)
    for e in calls:
      if gone is None: break
      env = {attr(lk, "recv_topics"): {1, 2, 3}, attr(lk, "in_topics"): {3}, rin.recv: {1, 2}, rin.res: {3}, gone.res: ({2}, set()), gone.recv: {1: 4, 3: 4}}
      got = world_value(it.norm(e.arg(0, "add_topics", NONE), p.st), env)
      if got is not None: ctx.check(1 in got and 3 not in got, R5, f"{f.qualname}[still]", "what is requested from the others is not what the link was asked for, others still want and somebody may still have", e.loc, p)
  # the receive task
  g = ctx.method(SW, "_run_link_receiving")
  l2 = mk("param", g.node.args.args[1].arg, g.qualname)
  it = ctx.interp(stop=STOP | {SW + ".handle_message", SW + ".remove_link", LINK + ".recv"}, cancel=True,
                  raises_fn=lambda e, st: ["any", CLOSED] if e.kind == "call" and e.awaited and e.name and e.name.split(".")[-1] in ("recv", "handle_message") else [])
  for p in ctx.run(it, g, selfcls=c):
    if p.kind == "loopback": continue
    late = {"remove_link": False, "close": False}
    for e in p.events:
      if e.kind == "call" and e.name in (SW + ".remove_link", LINK + ".close"):
        if (e.name.endswith("close") and e.recv is l2) or (e.args and e.args[0] is l2): late[e.name.split(".")[-1]] = True
    recv_done = any(e.name and e.name.endswith("Link.recv") for e in p.events)
    if not recv_done: continue
    ctx.check(late["remove_link"], R2, g.qualname + "[removed]", "receiving from a link ends without removing the link from the switch", g.file, p)
    ctx.check(late["close"], R2, g.qualname + "[closed]", "receiving from a link ends without closing the link", g.file, p)
  # self cancel
  h = ctx.method(NET + ".LinkManager", "remove_link") if ctx.p.has_cls(NET + ".LinkManager") else ctx.method(SW, "remove_link")
  it = ctx.interp(stop=STOP)
  n = 0
  for p in ctx.run(it, h, selfcls=h.cls):
    for e in p.events:
      if e.kind == "call" and e.name == "cancel" and e.fterm.op == "attr":
        n += 1
        ct = [(a, v) for a, v in e.facts if a.op == "eq" and any(x.op == "call" and call_name(x) == "current_task" for x in a.a)]
        ctx.check(any(v is False for _, v in ct), R3, h.qualname, "the receiver of the link is cancelled without excluding that it is the task removing the link: its remaining teardown would be aborted at the next suspension", e.loc, p)
  if not n: ctx.ok(R3, h.qualname)


# ------------------------------------------------------------------ N05 fault isolation
def n05(ctx):
  R1 = ctx.rule("isolated", "no path of the switch's message handling lets a closed destination's error escape", 6)
  R2 = ctx.rule("goes-on", "after a destination turned out to be closed the remaining destinations are still served", 3)
  R3 = ctx.rule("snapshot", "no loop that suspends iterates over the live collection of links", 3)
  coll = link_coll(ctx)
  fails = lambda e, st: [CLOSED] if e.kind == "call" and e.name == SEND else []
  for c in concrete_messages(ctx):
    it, m, o, ps, f = handle(ctx, c.qualname, raises_fn=fails)
    cn = f"{f.qualname}[{c.name}]"
    unicast = one_shot(ps)
    for p in ps:
      bad = p.kind == "raise" and p.value.op == "exc" and p.value.a[0] == CLOSED
      ctx.check(not bad, R1, cn, "a closed destination link raises through the handling of another link's message", sends(p)[-1].loc if sends(p) else f.file, p)
      for i, e in enumerate(p.events):
        if e.kind == "handle" and e.name == CLOSED and any(l[0] == "for" for l in e.loops):
          nxt = p.events[i + 1:]
          out = next((x for x in nxt if x.kind == "leave" and id(x.node) not in unicast), None)
          ctx.check(out is None, R2, cn, "one closed destination ends the delivery to the others", e.loc, p)
        if e.kind == "handle" and e.name == CLOSED:
          last = next((x for x in reversed(p.events[:i]) if x in sends(p)), None)
          here = {id(l[1]) for l in e.loops}
          ctx.check(last is None or all(l[0] != "for" or id(l[1]) in here or id(l[1]) in unicast for l in last.loops), R2, cn, "one closed destination ends the loop that delivers to the others", e.loc, p)
      for e in sends(p): _snapshot(ctx, R3, e, coll, f, p, unicast)
  for nm in ("add_link", "remove_link"):
    f = ctx.method(SW, nm)
    lk = mk("param", f.node.args.args[1].arg, f.qualname)
    it = ctx.interp(stop=STOP, raises_fn=fails)
    for p in ctx.run(it, f, selfcls=ctx.p.cls(SW)):
      ss = sends(p)
      bad = p.kind == "raise" and p.value.a[0] == CLOSED and ss and ss[-1].recv is not lk
      ctx.check(not bad, R1, f.qualname, "a closed link makes attaching or removing another one fail", f.file, p)
      for e in ss: _snapshot(ctx, R3, e, coll, f, p)


def one_shot(ps):
  """loops that are always left once something was sent in them, however the sending went"""
  sent, stays = set(), set()
  for p in ps:
    left = {id(e.node) for e in p.events if e.kind == "leave"}
    for e in sends(p):
      for l in e.loops:
        if l[0] == "for":
          sent.add(id(l[1]))
          if id(l[1]) not in left and p.kind != "raise": stays.add(id(l[1]))
  return sent - stays


def _snapshot(ctx, R3, e, coll, f, p, unicast=()):
  for l in e.loops:
    if l[0] != "for" or id(l[1]) in unicast: continue
    v = l[2]
    live = v.op not in ("copy", "comp", "obj", "lit", "tuple") and strip(v) is coll
    ctx.check(not live, R3, f"{e.func.qualname}", "messages are sent while iterating over the live collection of links, which a concurrent attach or removal changes", e.loc, p)


RULES = {"N02": n02, "N04": n04, "N05": n05}
