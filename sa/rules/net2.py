"""Network layer: codec, routes, typestate, remapping, trackers, upstream subscriptions."""
from __future__ import annotations
import itertools
from .net import *


def _pack(it, f, args, kw, n, st, fr): return [("v", mk("packed", args[0]), st)]


def _unpack(it, f, args, kw, n, st, fr):
  if args and args[0].op == "packed":
    o = args[0].a[0]
    h = st.heap.get(o.a[0]) if o.op == "obj" else None
    if h:
      o2, s = it.new_obj(h[0], h[1], st)
      return [("v", o2, s)]


def recv_interp(ctx, cname, **cfg):
  """Link.recv with the wire delivering one message of the given class"""
  wire = mk("wire")
  it = ctx.interp(models={LINK + "._recv": lambda it, f, a, k, n, st, fr: [("v", wire, st)],
                          "asyncio.create_task": lambda it, f, a, k, n, st, fr: [("v", a[0], st)],
                          NET + "._transform_message": lambda it, f, a, k, n, st, fr: [("v", a[0], st)]}, **cfg)
  m = msg_param(it, ctx, cname)
  it.cfg.await_map = {wire: m}
  f = ctx.method(LINK, "recv")
  return it, m, ctx.run(it, f, selfcls=ctx.p.cls(LINK)), f


# ------------------------------------------------------------------ N01 wire codec
def same_value(it, prog, v, orig, facts):
  """does the decoded value denote the original field?"""
  while v.op == "copy": v = v.a[1]
  if v is orig: return True
  if v.op == "inst" and v.a[0].endswith(".RawData"):
    src = [x for _, x in v.a[1]]
    if len(src) != 1: return False
    x = src[0]
    while x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.memoryview", "builtins.bytes") and x.a[1]: x = x.a[1][0]
    return x.op == "call" and call_name(x) == "serialize" and call_recv(x) is orig
  alts = None
  if v.op == "comp":
    for passed, fs, e in v.a[2]:
      if any(not (a.op == "truthy" and strip(a.a[0]) is orig) for a, _ in fs): return False
    alts = [e for passed, fs, e in v.a[2] if passed]
  elif v.op == "lit":
    alts = [e.a[0] if e.op == "spread" else e for e in v.a[1:]]
    if not alts: return fact(facts, mk("truthy", orig)) is False
    if any(e is orig for e in alts): return True
  if not alts: return False
  return all(same_elem(prog, e, orig) for e in alts)


def same_elem(prog, e, coll):
  if elem_of(e, coll) is not None: return True
  if e.op != "inst": return False
  c = prog._class_by_qual.get(e.a[0])
  fs = [f[0] for f in prog.fields(c)]
  d = fields(e)
  xs = {d[n].a[0] for n in fs if n in d and d[n].op == "attr" and d[n].a[1] == n}
  return len(xs) == 1 and set(d) == set(fs) and all(d[n].op == "attr" and d[n].a[1] == n for n in fs) and elem_of(next(iter(xs)), coll) is not None


def unwireable(it, prog, v, depth=0):
  """a part of the encoded form the wire format has no representation for"""
  if depth > 8: return None
  if v.op == "lit":
    if v.a[0] == "set": return v
    for e in v.a[1:]:
      for x in (e.a if e.op == "kv" else (e.a[0],) if e.op == "spread" else (e,)):
        if e.op == "spread" and x.op == "attr" and x.a[1] == "__dict__":
          r = _dict_of(it, prog, x.a[0], [k.a[0].a[0] for k in v.a[1:] if k.op == "kv" and is_const(k.a[0])])
        else: r = unwireable(it, prog, x, depth + 1)
        if r is not None: return r
    return None
  if v.op == "copy": return v if v.a[0] in ("set", "frozenset") else _elems(it, prog, v.a[1])
  if v.op == "comp":
    if v.a[0] in ("set", "gen"): return v
    for passed, fs, e in v.a[2]:
      if passed:
        r = unwireable(it, prog, e, depth + 1)
        if r is not None: return r
    return None
  if v.op in ("inst", "new"): return v
  if v.op == "attr" and v.a[1] == "__dict__": return _dict_of(it, prog, v.a[0], [])
  ty = it.types.get(v) or it.exact.get(v)
  if v.op == "attr":
    t = it.type_of(v.a[0])
    if isinstance(t, Class):
      for n, ann, dv, o in prog.fields(t):
        if n == v.a[1]: return v if _bad_ann(prog, ann, o) else None
  if isinstance(ty, Class): return v
  return None


def _elems(it, prog, coll):
  ty = it.type_of(coll)
  if isinstance(ty, tuple) and ty[0] == "coll" and isinstance(ty[1], Class): return coll
  return None


def _dict_of(it, prog, x, over):
  ty = it.type_of(x)
  if not isinstance(ty, Class): return None
  for n, ann, dv, o in prog.fields(ty):
    if n not in over and _bad_ann(prog, ann, o): return attr(x, n)
  return None


def _bad_ann(prog, ann, owner):
  import ast
  from ..program import dotted
  if isinstance(ann, ast.Subscript) and (dotted(ann.value) or "").split(".")[-1] in ("set", "frozenset"): return True
  if (dotted(ann) or "") in ("set", "frozenset"): return True
  return isinstance(prog.ann_type(ann, owner.module), Class)


def n01(ctx):
  R1 = ctx.rule("roundtrip", "serializing a wire message and deserializing the result yields a message of the same class whose every field denotes the original field", 6)
  R2 = ctx.rule("representable", "every part of the encoded form has a representation in the wire format (no sets or objects)", 6)
  R3 = ctx.rule("payload", "a raw payload keeps its bytes or its value, never both out of step: encoding yields the wrapped data, decoding the wrapped bytes, an update forces re-encoding, and a copy shares nothing mutable", 7)
  local = set()
  cs = concrete_messages(ctx)
  for c in cs:
    it, m, ps, f = recv_interp(ctx, c.qualname)
    for p in ps:
      if p.kind == "return" and p.value.op == "inst" and p.value.a[0] != c.qualname: local.add(p.value.a[0])
  stop = {SER + ".RawData.__init__", SER + ".RawData.serialize"}
  f, g = ctx.p.func(SER + ".serialize_message"), ctx.p.func(SER + ".deserialize_message")
  for c in cs:
    if c.qualname in local: continue
    it = ctx.interp(stop=stop, models={"msgpack.packb": _pack, "msgpack.unpackb": _unpack})
    m = msg_param(it, ctx, c.qualname)
    cn = c.qualname
    for p in ctx.run(it, f, bind={f.node.args.args[0].arg: m}):
      if p.kind != "return": ctx.fail(R1, cn, f"serializing fails with {show(p.value)[:80]}", f"{f.file}:{f.line}", p); continue
      if p.value.op != "packed": raise AnalysisBroken("serialize_message does not end in msgpack.packb")
      bad = unwireable(it, ctx.p, it.norm(p.value.a[0], p.st))
      ctx.check(bad is None, R2, cn, f"{show(bad)[:80] if bad is not None else ''} has no wire representation", f"{c.file}:{c.line}", p)
      for q in ctx.run(it, g, bind={g.node.args.args[0].arg: p.value}, st=p.st):
        if q.kind != "return": ctx.fail(R1, cn, f"deserializing fails with {show(q.value)[:80]}", f"{g.file}:{g.line}", q); continue
        v = it.norm(q.value, q.st)
        if v.op != "inst" or v.a[0] != c.qualname: ctx.fail(R1, cn, f"arrives as {show(v)[:80]}", f"{g.file}:{g.line}", q); continue
        d = fields(v)
        wrong = [n for n, *_ in ctx.p.fields(c) if n not in d or not same_value(it, ctx.p, d[n], attr(m, n), q.facts)]
        ctx.check(not wrong, R1, cn, f"field {', '.join(wrong)} arrives as {', '.join(show(d.get(n, NONE))[:80] for n in wrong)}", f"{c.file}:{c.line}", q)
  # payload
  raw = ctx.p.cls(SER + ".RawData")
  i = ctx.method(raw, "__init__", False)
  pn = i.node.args.args[1].arg
  x = mk("param", pn, i.qualname)
  me = mk("self", raw.qualname)
  def states(it):
    for p in ctx.run(it, i, selfcls=raw):
      if p.kind != "return": continue
      israw = any(v and a.op == "isinst" and a.a[0] is x and a.a[1] in ("builtins.memoryview", "builtins.bytes", "builtins.bytearray") for a, v in p.facts)
      yield israw, p
  def ok_packed(t, st, it):
    t = it.norm(t, st)
    while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.memoryview", "builtins.bytes"): t = t.a[1][0]
    return t
  P, U = (lambda it, f, a, k, n, st, fr: [("v", mk("packed", a[0]), st)]), (lambda it, f, a, k, n, st, fr: [("v", mk("unpacked", a[0]), st)])
  cfg = dict(models={"msgpack.packb": P, "msgpack.unpackb": U})
  for meth in ("serialize", "deserialize", "update", "copy", "shallow_copy"):
    mf = ctx.method(raw, meth, False)
    it = ctx.interp(**cfg)
    starts = list(states(it))
    if meth == "update":
      for pre in ("serialize", "deserialize"):
        for israw, p in list(starts):
          s1 = p.st.copy(); s1.events = ()
          starts += [(israw, q) for q in ctx.run(it, ctx.method(raw, pre, False), selfcls=raw, st=s1) if q.kind == "return"]
    for israw, p in starts:
      cn = f"{raw.qualname}.{meth}[{'bytes' if israw else 'value'}]"
      st = p.st.copy(); st.events = ()
      ts = {}
      for q in ctx.run(it, mf, selfcls=raw, st=st):
        if q.kind != "return": ctx.fail(R3, cn, "raises", mf.file, q); continue
        if meth == "serialize":
          t = ok_packed(q.value, q.st, it)
          ctx.check(t is x if israw else t.op == "packed" and t.a[0] is x, R3, cn, f"encodes to {show(t)[:80]}", f"{mf.file}:{mf.line}", q)
        elif meth == "deserialize":
          t = it.norm(q.value, q.st)
          ctx.check(t is x if not israw else t.op == "unpacked" and ok_packed(t.a[0], q.st, it) is x, R3, cn, f"decodes to {show(t)[:80]}", f"{mf.file}:{mf.line}", q)
        elif meth == "update":
          s2 = q.st.copy(); s2.events = ()
          for r in ctx.run(it, ctx.method(raw, "serialize", False), selfcls=raw, st=s2):
            if r.kind != "return": ctx.fail(R3, cn, "cannot be encoded after an update", f"{mf.file}:{mf.line}", r); continue
            t = ok_packed(r.value, r.st, it)
            u = it.norm(t.a[0], r.st) if t.op == "packed" else t
            ctx.check(t.op == "packed" and (u is x if not israw else u.op == "unpacked" and ok_packed(u.a[0], r.st, it) is x), R3, cn, "an update does not force re-encoding", f"{mf.file}:{mf.line}", r)
        else:
          v = q.value
          ctx.check(v is not me and v.op in ("new", "inst") and v.a[0] == raw.qualname, R3, cn, "does not make a new payload", f"{mf.file}:{mf.line}", q)
          # what the copy wraps: bytes, or a value of its own
          h = fields(it.norm(v, q.st))
          shared = [n for n, t in h.items() if t is x and not israw]
          ctx.check(not shared, R3, cn, "the copy shares the wrapped value with the original", f"{mf.file}:{mf.line}", q)
          src = [t for t in h.values() if contains(t, x)]
          ctx.check(bool(src), R3, cn, "the copy does not hold the wrapped data", f"{mf.file}:{mf.line}", q)


# ------------------------------------------------------------------ N03 routes
def members(t):
  """[(facts, element)] a set-valued term contains: comprehension or literal"""
  while t.op == "copy": t = t.a[1]
  if t.op == "lit": return [((), e) for e in t.a[1:]]
  return comp_alts(t)


def n03(ctx):
  R1 = ctx.rule("price-added", "what a link announces is offered to the switch at the announced price plus the link's cost, without omission", 2)
  R2 = ctx.rule("price-withdrawn", "what a link withdraws is withdrawn from the switch at exactly the price recorded for the link, without omission", 2)
  R3 = ctx.rule("link-table", "the link's table of announced ids follows its announcements and withdrawals", 4)
  R4 = ctx.rule("price-replaced", "an id announced again at another price has its previous price withdrawn from the switch", 2)
  R5 = ctx.rule("subscriptions-delta", "a link passes on exactly the subscriptions that change its subscription set, and keeps that set in step", 1)
  R6 = ctx.rule("change-broadcast", "a change of the best price or availability is announced to every other attached link, unchanged ones are not required to be", 2)
  R7 = ctx.rule("snapshot-on-attach", "a link being attached is sent everything currently available", 2)
  R8 = ctx.rule("attach-registered", "what a link being attached brings along is added to the switch's tables and announced", 3)
  R9 = ctx.rule("addressed-cheapest", "an addressed message goes to exactly one attached link that has the address at the lowest price, unchanged, and nowhere if there is none", 2)
  lself = mk("self", LINK)
  cost = attr(lself, "_cost")
  for cname, rname, table in (("OutTopicsChangedMessage", "OutTopicsChangedRecvMessage", "out_topics"), ("AddressesChangedMessage", "AddressesChangedRecvMessage", "addresses")):
    it, m, ps, f = recv_interp(ctx, cname)
    add, rem, tab = attr(m, "add"), attr(m, "remove"), attr(lself, table)
    cn = f"{LINK}.recv[{cname}]"
    nret = 0
    for p in ps:
      if p.kind != "return" or p.value is NONE: continue
      nret += 1
      v = it.norm(p.value, p.st)
      if not (v.op == "inst" and v.a[0].endswith("." + rname)): ctx.fail(R1, cn, f"a received {cname} is passed on as {show(v)[:60]}", f.file, p); continue
      d = fields(v)
      priced = lambda e: e.op == "inst" and e.a[0].endswith(".PricedId")
      ms = members(d["add"]); good = ms is not None
      for fs, e in ms or []:
        if not priced(e): good = False; continue
        i, k = fields(e).get("id"), fields(e).get("cost")
        if not (i.op == "attr" and i.a[1] == "id" and elem_of(i.a[0], add) is not None): good = False; continue
        want = {mk("bin", "+", attr(i.a[0], "cost"), cost), mk("bin", "+", cost, attr(i.a[0], "cost"))}
        if k not in want or any(not (a.op == "truthy" and strip(a.a[0]) is add) for a, _ in fs): good = False
      if ms == [] and fact(p.facts, mk("truthy", add)) is not False: good = False
      ctx.check(good, R1, cn, f"announced ids are offered as {show(d['add'])[:100]}", f.file, p)
      ms = members(d["remove"]); good = ms is not None; replaced = False
      wd = 0
      for fs, e in ms or []:
        if not priced(e): good = False; continue
        i, k = fields(e).get("id"), fields(e).get("cost")
        g = get_of(k)
        if i.op == "attr" and i.a[1] == "id" and elem_of(i.a[0], add) is not None and g and strip(g[0]) is tab and g[1] is i: replaced = True; continue
        if elem_of(i, rem) is None or not (g and strip(g[0]) is tab and g[1] is i): good = False; continue
        wd += 1
        allow = lambda a, w: (a.op == "truthy" and strip(a.a[0]) is rem) or (a.op == "in" and a.a[0] is i and strip(a.a[1]) is tab and w)
        if any(not allow(a, w) for a, w in fs): good = False
      if wd == 0 and fact(p.facts, mk("truthy", rem)) is not False:
        if not any(a.op == "in" and elem_of(a.a[0], rem) is not None and strip(a.a[1]) is tab and not w for a, w in p.facts): good = False
      ctx.check(good, R2, cn, f"withdrawn ids are withdrawn as {show(d['remove'])[:100]}", f.file, p)
      if fact(p.facts, mk("truthy", add)) is not False: ctx.check(replaced, R4, cn, "an id that is announced again keeps its previous price in the switch's tables", f.file, p)
      # table
      last = {}
      for n, e in enumerate(p.events):
        if e.kind == "setitem" and strip(e.recv) is tab: last.setdefault("add", []).append((n, e.args[0], it.norm(e.args[1], p.st)))
        if e.kind == "call" and e.fterm.op == "attr" and e.name == "pop" and strip(e.recv) is tab: last.setdefault("rem", []).append((n, e.args[0]))
        if e.kind == "delitem" and strip(e.recv) is tab: last.setdefault("rem", []).append((n, e.args[0]))
        if e.kind == "call" and e.fterm.op == "attr" and e.name == "update" and strip(e.recv) is tab and contains(it.norm(e.args[0], p.st), add): last.setdefault("add", []).append((n, None, it.norm(e.args[0], p.st)))
        if e.kind == "setattr" and e.name == table and e.recv is lself:
          w = it.norm(e.args[0], p.st)
          if contains(w, add): last.setdefault("add", []).append((n, None, w))
          if contains(w, rem): last.setdefault("rem", []).append((n, None))
      if fact(p.facts, mk("truthy", add)) is True:
        a = last.get("add", [])
        ok = any(k is None or (k.op == "attr" and k.a[1] == "id" and elem_of(k.a[0], add) is not None and val in (mk("bin", "+", attr(k.a[0], "cost"), cost), mk("bin", "+", cost, attr(k.a[0], "cost")))) for _, k, val in a)
        ctx.check(ok, R3, cn + "[add]", "an announced id is not recorded at the offered price in the link's table", f.file, p)
      if fact(p.facts, mk("truthy", rem)) is True:
        r = last.get("rem", [])
        known_absent = any(a.op == "in" and elem_of(a.a[0], rem) is not None and strip(a.a[1]) is tab and not w for a, w in p.facts)
        ok = known_absent or any(k is None or elem_of(k, rem) is not None for _, k in r)
        ctx.check(ok, R3, cn + "[remove]", "a withdrawn id stays in the link's table", f.file, p)
      if last.get("add") and last.get("rem"):
        ctx.check(max(n for n, *_ in last["rem"]) <= min(n for n, *_ in last["add"]), R3, cn + "[order]", "an id withdrawn and announced in the same message ends up missing from the link's table", f.file, p)
    if not nret: ctx.fail(R1, cn, f"a received {cname} is never passed on", f.file)
  # subscriptions
  it, m, ps, f = recv_interp(ctx, "InTopicsChangedMessage")
  cn = LINK + ".recv[InTopicsChangedMessage]"
  cur = attr(lself, "in_topics")
  for p in ps:
    if p.kind != "return": continue
    a_, r_ = mk("bin", "-", attr(m, "add"), cur), mk("bin", "&", attr(m, "remove"), cur)
    em = empties(p.facts)
    new = p.st.store.get((lself, "in_topics"))
    if p.value is NONE:
      ok = any(same_set(t, a_) and not v for t, v in em if t.op in ("bin", "comp")) and any(same_set(t, r_) and not v for t, v in em if t.op in ("bin", "comp"))
      ctx.check(ok, R5, cn, "a subscription change is swallowed though it changes something", f.file, p)
      continue
    v = it.norm(p.value, p.st); d = fields(v)
    if not d or "add" not in d: ctx.fail(R5, cn, f"passed on as {show(v)[:60]}", f.file, p); continue
    ok = same_set(d["add"], a_, em) and same_set(d["remove"], r_, em)
    ctx.check(ok, R5, cn, f"what is passed on ({show(d['add'])[:60]} / {show(d['remove'])[:60]}) is not exactly what changes the subscription set", f.file, p)
    if new is not None: nn = it.norm(new, p.st)
    else: nn = mutated(it, p, cur)
    ctx.check(nn is not None and same_set(nn, mk("bin", "-", mk("bin", "|", cur, d["add"]), d["remove"]), em), R5, cn + "[kept]", "the link's subscription set does not follow what was passed on", f.file, p)
  # what went with a removed link
  f = ctx.method(SW, "remove_link")
  it = ctx.interp(stop=STOP | {SW + ".request_in_topics_change"})
  announced_on_removal(ctx, R6, it, f, ctx.run(it, f, selfcls=ctx.p.cls(SW)), mk("param", f.node.args.args[1].arg, f.qualname))
  # broadcast of changes
  coll = link_coll(ctx)
  sself = mk("self", SW)
  for cname, out, tracker in (("OutTopicsChangedRecvMessage", "OutTopicsChangedMessage", "out_topics"), ("AddressesChangedRecvMessage", "AddressesChangedMessage", "addresses")):
    it, m, o, ps, f = handle(ctx, cname, unroll_for=1, stop=STOP | {SW + ".request_in_topics_change"})
    cn = f"{f.qualname}[{cname}]"
    for p in ps:
      if p.kind != "return": continue
      ch = [e for e in p.events if e.kind == "call" and e.name and e.name.split(".")[-1] in ("change_many", "add_many", "remove_many") and e.recv is not None and e.recv is attr(sself, tracker)]
      whole = next((e for e in ch if e.name.endswith("change_many")), None)
      if whole is None or whole.arg(0, "add") is not attr(m, "add") or whole.arg(1, "remove") is not attr(m, "remove"):
        ctx.fail(R6, cn, f"the received change is not applied to the switch's {tracker}", f.file, p); continue
      A, Rm = mk("item", whole.res, const(0)), mk("item", whole.res, const(1))
      nothing = fact(p.facts, mk("truthy", A)) is False and fact(p.facts, mk("truthy", Rm)) is False
      ann = []
      for e in sends(p):
        v = it.norm(e.arg(0, "message"), p.st)
        if v.op == "inst" and v.a[0].endswith("." + out): ann.append((e, v))
      for e, v in ann:
        d = fields(v)
        ctx.check(strip(d["add"]) is A and strip(d["remove"]) is Rm, R6, cn, "announces something else than what changed", e.loc, p)
        ctx.check(eq_fact(e.facts, e.recv, o) is False or fact(e.facts, mk("truthy", coll)) is True, R6, cn, "an announcement goes to an unknown link", e.loc, p)
      if nothing or visited(p, coll) is False: ctx.ok(R6, cn); continue
      le = left_early(p, coll)
      if le is not None: ctx.fail(R6, cn, "a loop over the links stops before the last one", le.loc, p); continue
      xs = elems_on(p, coll)
      sent = {e.recv for e, _ in ann}
      # the announcement loop's own elements: those compared with the origin
      cand = [x for x in xs if eq_fact(p.facts, x, o) is not None or x in sent]
      if not cand and visited(p, coll) is not False: ctx.fail(R6, cn, "a change is not announced", f.file, p)
      for x in cand: ctx.check(x in sent or eq_fact(p.facts, x, o) is True, R6, cn, "a change is not announced to an attached link other than its origin", f.file, p)
  # attach
  f = ctx.method(SW, "add_link")
  lk = mk("param", f.node.args.args[1].arg, f.qualname)
  it = ctx.interp(stop=STOP | {SW + ".request_in_topics_change", SW + ".broadcast", LINK + ".get_priced_out_topics", LINK + ".get_priced_addresses"})
  for p in ctx.run(it, f, selfcls=ctx.p.cls(SW)):
    if p.kind != "return": continue
    for tracker, cls, getter in (("out_topics", "OutTopicsChangedMessage", "get_priced_out_topics"), ("addresses", "AddressesChangedMessage", "get_priced_addresses")):
      cn = f"{f.qualname}[{tracker}]"
      src = None
      hit = False
      for e in p.events:
        if e.kind == "call" and e.name and e.name.endswith("PricedIdTracker.items") and e.recv is attr(sself, tracker): src = e.res
        if e.kind == "call" and e.name == SEND and e.recv is lk:
          v = it.norm(e.arg(0, "message"), p.st)
          if v.op == "inst" and v.a[0].endswith("." + cls) and src is not None and strip(fields(v)["add"]) is src: hit = True
      none = src is not None and any(a.op == "truthy" and strip(a.a[0]) is src and not v for a, v in p.facts)
      ctx.check(hit or none, R7, cn, f"a newly attached link is not told about the available {tracker}", f.file, p)
      reg = next((e for e in p.events if e.kind == "call" and e.name and e.name.endswith(".add_many") and e.recv is attr(sself, tracker) and e.args and any(s.op == "call" and call_name(s) == getter and call_recv(s) is lk for s in subterms(it.norm(e.args[0], p.st)))), None)
      ctx.check(reg is not None, R8, cn, f"the {tracker} of a newly attached link are not registered", f.file, p)
      if reg is not None and fact(p.facts, mk("truthy", reg.res)) is not False:
        ann = any(e.kind == "call" and e.name in (SW + ".broadcast", SEND, SW + ".send_to") and any(contains(it.norm(a, p.st), reg.res) for a in e.args) for e in p.events)
        ctx.check(ann, R8, cn, f"the {tracker} of a newly attached link are not announced", f.file, p)
    reg = next((e for e in p.events if e.kind == "call" and e.name and e.name.endswith("IdTracker.add_many") and e.recv is attr(sself, "in_topics") and e.args and contains(it.norm(e.args[0], p.st), attr(lk, "in_topics"))), None)
    cn = f"{f.qualname}[in_topics]"
    ctx.check(reg is not None, R8, cn, "the subscriptions of a newly attached link are not registered", f.file, p)
    if reg is not None and fact(p.facts, mk("truthy", reg.res)) is not False:
      ctx.check(any(e.kind == "call" and e.name == SW + ".request_in_topics_change" and contains(it.norm(e.arg(0, "add_topics"), p.st), reg.res) for e in p.events), R8, cn, "the subscriptions of a newly attached link are not requested upstream", f.file, p)
  # addressed
  it, m, o, ps, f = handle(ctx, "AddressedMessage")
  cn = f"{f.qualname}[AddressedMessage]"
  ad = attr(m, "address")
  tr = attr(sself, "addresses")
  got = 0
  for p in ps:
    if p.kind != "return": continue
    ss = sends(p)
    ctx.check(len(ss) <= 1, R9, cn, "an addressed message is sent to several links", f.file, p)
    for e in ss:
      got += 1
      ctx.check(e.arg(0, "message") is m, R9, cn, "an addressed message is changed on its way", e.loc, p)
      ctx.check(cheapest(e.recv, ad, "addresses", coll, tr, e.facts), R9, cn, f"{show(e.recv)[:60]} is not known to be the attached link with the lowest price for the address", e.loc, p)
      ctx.check(not any(l[0] == "for" and strip(l[2]) is coll for l in e.loops) or any(x.kind == "leave" for x in p.events), R9, cn, "an addressed message may be sent to several links", e.loc, p)
    if not ss:
      why = fact(p.facts, mk("in", ad, tr)) is False or visited(p, coll) is False or any(not v and a.op in ("anyof",) for a, v in p.facts) or any(v and a.op == "is" and a.a[1] is NONE for a, v in p.facts)
      why = why or any(elem_of(x, coll) is not None for a, v in p.facts for x in subterms(a) if x.op == "elem") or any(call_name(s) == "__contains__" and not v for a, v in p.facts for s in subterms(a) if s.op == "call")
      ctx.check(why, R9, cn, "an addressed message is dropped though a link may have the address", f.file, p)
      for who in (1, 2):   # the only link has the address; the message comes from it or not
        l = link_of(1, addresses={7: 3})
        each = {x: l for a, _ in p.facts for x in subterms(a) if x.op == "elem" and strip(x.a[0]) is coll}
        ctx.check(not taken(p, {**each, coll: {l: 0}, ad: 7, tr: {7: 3}, o: link_of(who, addresses={7: 3})}), R9, cn + "[only]", "an addressed message is dropped though the only link has the address", f.file, p)
  if not got: ctx.fail(R9, cn, "addressed messages are never forwarded", f.file)


def cheapest(x, key, table, coll, tracker, facts):
  """is link x known to be an attached one with the lowest recorded price for the key?"""
  if elem_of(x, coll) is not None:
    for a, v in facts:
      if v and a.op == "eq":
        for l, r in (a.a, a.a[::-1]):
          g = get_of(l)
          if g and g[0] is attr(x, table) and g[1] is key and r.op == "call" and call_name(r) == "get" and call_recv(r) is tracker and r.a[1][0] is key: return True
    return False
  if x.op == "call" and call_name(x) == "min" and x.a[1] and mentions(x.a[1][0], coll):
    k = dict(x.a[2]).get("key")
    g = get_of(k.a[1]) if k is not None and k.op == "keyfn" else None
    return bool(g and g[0] is attr(k.a[0], table) and g[1] is key)
  return False


def mutated(it, p, coll):
  """value of a set that is updated in place along a path"""
  t, hit = coll, False
  for e in p.events:
    if e.kind == "call" and e.fterm.op == "attr" and strip(e.recv) is coll and e.args:
      a = it.norm(e.args[0], p.st)
      if e.name in ("update", "difference_update", "intersection_update"):
        t = mk("bin", {"update": "|", "difference_update": "-", "intersection_update": "&"}[e.name], t, a); hit = True
    if e.kind == "setattr" and e.recv is coll.a[0] and e.name == coll.a[1]: t = it.norm(e.args[0], p.st); hit = True
  return t if hit else None



# ------------------------------------------------------------------ N06 closed links
def close_flag(ctx):
  """(term of the flag close() raises, term of the pending receive it cancels)"""
  f = ctx.method(LINK, "close")
  it = ctx.interp()
  me = mk("self", LINK)
  flag, pend = set(), set()
  ps = ctx.run(it, f, selfcls=ctx.p.cls(LINK))
  for p in ps:
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and e.args[0] is TRUE: flag.add(attr(me, e.name))
      if e.kind == "call" and e.fterm.op == "attr" and e.name == "cancel": pend.add(e.recv)
  if len(flag) != 1: raise AnalysisBroken("cannot tell which flag Link.close raises")
  return flag.pop(), pend, ps, f


def n06(ctx):
  R1 = ctx.rule("refused-when-closed", "on a closed link sending and receiving raise the connection-closed error before the transport is touched", 2)
  R2 = ctx.rule("close-once", "closing marks the link before anything else, runs every close handler once, and does nothing the second time", 2)
  R3 = ctx.rule("close-wakes-receiver", "a receive that is pending when the link is closed is woken with the connection-closed error; any other cancellation stays a cancellation", 3)
  R4 = ctx.rule("ends-close-together", "both ends of a local connection, and a remapping link and the link it wraps, close each other", 2)
  R5 = ctx.rule("discipline-not-bypassed", "no kind of link replaces the guarded send, receive or close", 1)
  c = ctx.p.cls(LINK)
  me = mk("self", LINK)
  flag, pend, ps, f = close_flag(ctx)
  cn = f.qualname
  handlers = attr(me, "on_closed")
  for p in ps:
    closed = fact(p.facts, mk("truthy", flag))
    hs = [e for e in p.events if e.kind == "call" and e.fterm is not None and elem_of(e.fterm, handlers) is not None]
    if closed is True:
      ctx.check(not hs and not any(e.kind == "call" and e.name == "cancel" for e in p.events), R2, cn, "closing a closed link runs its handlers again", f.file, p); continue
    if closed is None: ctx.fail(R2, cn, "closing does not look whether the link is closed already", f.file, p); continue
    first = next((i for i, e in enumerate(p.events) if e.kind == "setattr" and attr(e.recv, e.name) is flag), None)
    h0 = next((i for i, e in enumerate(p.events) if e in hs), None)
    if not ctx.check(first is not None and (h0 is None or first < h0), R2, cn, "the link is not marked closed before its close handlers run", f.file, p): continue
    if p.kind == "return":
      ctx.check(fact(p.facts, mk("truthy", handlers)) is False or hs, R2, cn, "a close handler is not run", f.file, p)
      le = next((e for e in p.events if e.kind == "leave" and strip(e.recv) is handlers), None)
      ctx.check(le is None, R2, cn, "a close handler is not run", f.file, p)
    else: ctx.fail(R2, cn, f"closing raises {show(p.value)[:60]}", f.file, p)
  # send / recv on a closed link
  for nm, low in (("send", "_send"), ("recv", "_recv")):
    g = ctx.method(c, nm)
    it = ctx.interp(stop={"_transform_message"})
    n = 0
    for p in ctx.run(it, g, selfcls=c):
      low_calls = [e for e in p.events if e.kind == "call" and e.name and e.name.split(".")[-1] == low]
      v = fact(p.facts, mk("truthy", flag))
      if v is True:
        n += 1
        ctx.check(p.kind == "raise" and p.value.a[0] == CLOSED and not low_calls, R1, g.qualname, "a closed link is used", g.file, p)
      for e in low_calls:
        n += 1
        ctx.check(fact(e.facts, mk("truthy", flag)) is False, R1, g.qualname, f"{low} is reached without the link being known to be open", e.loc, p)
    if not n: ctx.fail(R1, g.qualname, "the transport is never reached", g.file)
  # a pending receive
  wire = mk("wire")
  it = ctx.interp(models={LINK + "._recv": lambda it, f, a, k, n, st, fr: [("v", wire, st)], "asyncio.create_task": lambda it, f, a, k, n, st, fr: [("v", mk("task", a[0]), st)],
                          NET + "._transform_message": lambda it, f, a, k, n, st, fr: [("v", a[0], st)]},
                  raises_fn=lambda e, st: ["asyncio.CancelledError"] if e.kind == "await" else [])
  m = msg_param(it, ctx, "TopicDataMessage")
  it.cfg.await_map = {mk("task", wire): m, wire: m}
  g = ctx.method(c, "recv")
  cn = g.qualname + "[pending]"
  saw = False
  for p in ctx.run(it, g, selfcls=c):
    for e in p.events:
      if e.kind != "await": continue
      saw = True
      # the awaited receive is the one close() cancels
      held = [x for x in p.events[:p.events.index(e)] if x.kind == "setattr" and attr(x.recv, x.name) in pend and x.args[0] is e.recv]
      ctx.check(bool(held), R3, cn, "what is awaited is not what closing the link cancels", e.loc, p)
    if any(e.kind == "await" for e in p.events) and p.kind == "raise" and not any(e.kind == "raise" for e in p.events):
      ctx.check(True, R3, cn, "", g.file)
    isc = [(a, v) for a, v in p.facts if a.op == "isinst" and a.a[1] == CLOSED]
    if not isc: continue
    if isc[-1][1]: ctx.check(p.kind == "raise" and (contains(p.value, isc[-1][0].a[0]) or p.value.a[0] == CLOSED), R3, cn, "a receive pending while the link is closed does not end with the connection-closed error", g.file, p)
    else: ctx.check(p.kind == "raise" and p.value.a[0].endswith("CancelledError"), R3, cn, "a cancelled receive does not stay cancelled", g.file, p)
  if not saw: ctx.fail(R3, cn, "the pending receive is not awaited", g.file)
  for p in ps:
    for e in p.events:
      if e.kind == "call" and e.fterm.op == "attr" and e.name == "cancel":
        a = e.arg(0, "msg")
        ctx.check(a is not None and a.op in ("new", "inst") and a.a[0] == CLOSED, R3, f.qualname, "a pending receive is cancelled without the connection-closed error", e.loc, p)
    if p.kind == "return" and fact(p.facts, mk("truthy", flag)) is False:
      live = [fact(p.facts, mk("is", x, NONE)) for x in pend] or [None]
      canc = any(e.kind == "call" and e.name == "cancel" for e in p.events)
      ctx.check(canc or True in live or any(fact(p.facts, mk("truthy", x)) is False for x in pend), R3, f.qualname, "a pending receive is not woken when the link is closed", f.file, p)
  # pairs
  def registered(it, p, of, other):
    for e in p.events:
      if e.kind == "call" and e.fterm.op == "attr" and e.name in ("append", "add", "insert") and e.args:
        o = e.recv
        owner = None
        if o.op == "attr" and o.a[1] == "on_closed": owner = o.a[0]
        for x, v in list(p.st.store.items()):
          if isinstance(x, tuple) and len(x) == 2 and x[1] == "on_closed" and v is o: owner = x[0]
        if o.op == "obj":
          for k, h in p.st.heap.items():
            if isinstance(h, dict) and h.get("on_closed") is o: owner = next((t for t in _news(p) if t.a[1] == k), None)
        a = e.args[-1]
        if owner is of and a.op in ("bound", "attr") and a.a[0] is other and str(a.a[1]).split(".")[-1] == "close": return True
    return False
  q = ctx.p.func(NET + ".create_queue_connection")
  it = ctx.interp()
  for p in ctx.run(it, q):
    v = p.value
    if p.kind != "return" or v.op != "tuple" or len(v.a) != 2: ctx.fail(R4, q.qualname, "does not return a pair of links", q.file, p); continue
    a, b = v.a
    ctx.check(registered(it, p, a, b) and registered(it, p, b, a), R4, q.qualname, "closing one end of a local connection does not close the other", q.file, p)
    ins = [it.norm(mk("tuple", attr(x, n)), p.st) for x in (a, b) for n in ()]
  rl = ctx.p.cls(NET + ".TopicRemappingLink")
  i = ctx.method(rl, "__init__", False)
  lk = mk("param", i.node.args.args[1].arg, i.qualname)
  me2 = mk("self", rl.qualname)
  it = ctx.interp()
  for p in ctx.run(it, i, selfcls=rl):
    ctx.check(registered(it, p, me2, lk) and registered(it, p, lk, me2), R4, rl.qualname, "a remapping link and the link it wraps do not close each other", i.file, p)
  # overriding
  for k in ctx.p.subclasses(c):
    bad = [m for m in ("send", "recv", "close", "closed") if m in k.methods and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == m and isinstance(x.func.value, ast.Call) and getattr(x.func.value.func, "id", "") == "super" for x in ast.walk(k.methods[m].node))]
    ctx.check(not bad, R5, k.qualname, f"replaces {', '.join(bad)}", f"{k.file}:{k.line}")
    for m in k.methods.values(): ctx.scanned(m)


def _news(p):
  seen = set()
  for e in p.events:
    for t in ([e.res] if isinstance(e.res, T) else []) + list(e.args or ()):
      for s in subterms(t):
        if s.op == "new": seen.add(s)
  for (k, v) in p.st.store.items():
    if isinstance(k[0], T) and k[0].op == "new": seen.add(k[0])
  return seen


# ------------------------------------------------------------------ N07 remapping
def is_map_of(v, x, M, facts, inv=False):
  """v == M.get(x, x)?"""
  g = get_of(v)
  if g and _ismap(g[0], M, inv) and g[1] is x:
    if v.op == "item": return fact(facts, mk("in", x, g[0])) is True
    return len(v.a[1]) == 2 and v.a[1][1] is x
  if v is x: return any(a.op == "in" and a.a[0] is x and _ismap(a.a[1], M, inv) and not w for a, w in facts)
  return False


def comp_all(t):
  """all alternatives (taken, facts, member) of a comprehension that met a member"""
  while t.op == "copy": t = t.a[1]
  if t.op != "comp": return []
  return [alt for alt in t.a[2] if alt[0] or not any(a.op == "truthy" and not v for a, v in alt[1][-1:])]


def _ismap(t, M, inv):
  while t.op == "copy": t = t.a[1]
  if not inv: return t is M
  if t.op == "comp":
    es = [e for p, fs, e in t.a[2] if p]
    clean = all(all(a.op == "truthy" and strip(a.a[0]) is M for a, _ in fs) for p, fs, e in t.a[2])
    return clean and bool(es) and all(e.op == "tuple" and len(e.a) == 2 and get_of(e.a[0]) and get_of(e.a[0])[0] is M and get_of(e.a[0])[1] is e.a[1] for e in es)
  if t.op == "call" and call_name(t) == "zip" and len(t.a[1]) == 2:
    l, r = t.a[1]
    return l.op == "call" and call_name(l) == "values" and call_recv(l) is M and (r is M or r.op == "call" and call_name(r) == "keys" and call_recv(r) is M)
  return False


def n07(ctx):
  R1 = ctx.rule("topic-renamed", "every topic id in a message that crosses the remapping is renamed by the map (kept when the map does not name it), in the direction of travel", 10)
  R2 = ctx.rule("rest-untouched", "everything else about the message, and messages without topics, is unchanged", 10)
  rl = ctx.p.cls(NET + ".TopicRemappingLink")
  i = ctx.method(rl, "__init__", False)
  names = [a.arg for a in i.node.args.args]
  lk, M = mk("param", names[1], i.qualname), mk("param", names[2], i.qualname)
  topicish = {"topic"}
  for c in concrete_messages(ctx):
    fs = [n for n, *_ in ctx.p.fields(c)]
    topical = "Topic" in c.name
    for direction in ("_send", "_recv"):
      got = mk("incoming")
      it = ctx.interp(stop={LINK + ".send"}, models={LINK + ".recv": lambda it, f, a, k, n, st, fr: [("v", got, st)]})
      it.types[lk] = ctx.p.cls(LINK)
      m = msg_param(it, ctx, c.qualname)
      it.cfg.await_map = {got: m}
      g = ctx.method(rl, direction, False)
      cn = f"{rl.qualname}.{direction}[{c.name}]"
      for p0 in ctx.run(it, i, selfcls=rl, bind={names[1]: lk, names[2]: M}):
        st = p0.st.copy(); st.events = ()
        bind = {g.node.args.args[1].arg: m} if direction == "_send" else None
        for p in ctx.run(it, g, selfcls=rl, st=st, bind=bind):
          if p.kind != "return": ctx.fail(R2, cn, "raises", g.file, p); continue
          if direction == "_send":
            out = [e.arg(0, "message") for e in p.events if e.kind == "call" and e.name == LINK + ".send" and e.recv is lk]
            if len(out) != 1: ctx.fail(R2, cn, f"{len(out)} messages are sent on", g.file, p); continue
            v = it.norm(out[0], p.st)
          else: v = it.norm(p.value, p.st)
          inv = direction == "_recv"
          if not topical: ctx.check(v is m, R2, cn, f"is changed to {show(v)[:80]}", g.file, p); continue
          if v.op != "inst" or v.a[0] != c.qualname: ctx.fail(R1, cn, f"is turned into {show(v)[:80]}", g.file, p); continue
          d = fields(v)
          for n in fs:
            o, x = attr(m, n), d.get(n)
            if x is None: ctx.fail(R2, cn, f"loses {n}", g.file, p); continue
            if n == "topic": ctx.check(is_map_of(x, o, M, p.facts, inv), R1, cn, f"the topic becomes {show(x)[:80]}", g.file, p)
            elif n in ("add", "remove"):
              ms = members(x)
              good = ms is not None
              for f2, e in ms or []:
                facts = tuple(p.facts) + tuple(f2)
                if any(not (a.op == "truthy" and strip(a.a[0]) is o or a.op == "in" or a.op == "is") for a, _ in f2): good = False
                if e.op == "inst":
                  de = fields(e)
                  src = de["cost"].a[0] if de["cost"].op == "attr" and de["cost"].a[1] == "cost" else None
                  good = good and src is not None and elem_of(src, o) is not None and is_map_of(de["id"], attr(src, "id"), M, facts, inv)
                else:
                  src = [s for s in subterms(e) if elem_of(s, o) is not None]
                  good = good and any(is_map_of(e, s, M, facts, inv) for s in src)
              if ms == [] and fact(p.facts, mk("truthy", o)) is not False: good = False
              if any(not ps for ps, _, _ in comp_all(x)): good = False
              ctx.check(good, R1, cn, f"{n} becomes {show(x)[:100]}", g.file, p)
            else: ctx.check(same_value(it, ctx.p, x, o, p.facts), R2, cn, f"{n} becomes {show(x)[:80]}", g.file, p)


# ------------------------------------------------------------------ N08 trackers
class _Unk(Exception): pass


def call_of(e, nm): return bool(e.name and e.name.split(".")[-1] == nm or e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] == nm)


def count_eval(t, base, x, c, cur):
  """value of a term when the count recorded for x is c (cur: after the writes so far)"""
  ev = lambda y: count_eval(y, base, x, c, cur)
  o = t.op
  if o == "const": return t.a[0]
  g = get_of(t)
  if g and strip(g[0]) is base and g[1] is x:
    if c > 0: return c
    if o == "item": raise _Unk()
    return ev(t.a[1][1]) if len(t.a[1]) > 1 else None
  if o == "call" and call_name(t) == "pop" and call_recv(t) is base and t.a[1] and t.a[1][0] is x: return c if c > 0 else (ev(t.a[1][1]) if len(t.a[1]) > 1 else None)
  if o == "in" and t.a[0] is x and strip(t.a[1]) is base: return c > 0
  if o == "bin" and t.a[0] in ("+", "-"):
    a, b = ev(t.a[1]), ev(t.a[2])
    return a + b if t.a[0] == "+" else a - b
  if o == "eq": return ev(t.a[0]) == ev(t.a[1])
  if o == "is": return ev(t.a[0]) is t.a[1].a[0]
  if o == "lt": return ev(t.a[0]) < ev(t.a[1])
  if o == "truthy": return bool(ev(t.a[0]))
  if o == "not": return not ev(t.a[0])
  if o == "call" and call_name(t) in ("max", "min") and not t.a[2]: return (max if call_name(t) == "max" else min)(*[ev(y) for y in t.a[1]])
  raise _Unk()


def count_paths(ctx, R, cls, meth, key_of=lambda x: x, delta=1, rep_at=0, base=None, forced=None):
  f = ctx.method(cls, meth)
  it = ctx.interp()
  ids = mk("param", f.node.args.args[1].arg, f.qualname)
  bind = {forced: TRUE} if forced else {a.arg: const(d.value) for a, d in zip(f.node.args.args[::-1], f.node.args.defaults[::-1]) if isinstance(d, ast.Constant)}
  for p in ctx.run(it, f, selfcls=ctx.p.cls(cls), bind=bind):
    if p.kind != "return": ctx.fail(R, f.qualname, f"raises {show(p.value)[:60]}", f.file, p); continue
    if fact(p.facts, mk("truthy", ids)) is False: continue
    xs = {s for a, _ in p.facts for s in subterms(a) if elem_of(s, ids) is not None} | {s for e in p.events for t in list(e.args or ()) for s in subterms(t) if elem_of(s, ids) is not None}
    yield it, f, ids, p, xs


def n08(ctx):
  R1 = ctx.rule("count-add", "adding an id raises its count by one and reports it exactly when it was not counted before", 3)
  R2 = ctx.rule("count-remove", "removing an id lowers its count by one, reports it exactly when the count reaches zero, and ignores uncounted ids", 3)
  R3 = ctx.rule("price-add", "adding a priced id counts that price, and it is recorded and reported as the best exactly when it is lower than the best so far", 3)
  R4 = ctx.rule("price-remove", "removing a priced id discounts exactly that price: the last price of an id removes the id, otherwise the best becomes the lowest remaining price and is reported", 4)
  R5 = ctx.rule("change-merged", "a combined change reports for each id the lowest of the prices the two halves report, and the ids removed", 1)
  id_counts(ctx, R1, R2)
  prices(ctx, R3, R4, R5)


def id_counts(ctx, R1, R2):
  cls = "streamtasks.utils.IdTracker"
  me = mk("self", ctx.p.cls(cls).qualname)
  for meth, R, delta in (("add_many", R1, 1), ("remove_many", R2, -1)):
    for it, f, ids, p, xs in count_paths(ctx, R, cls, meth):
      if len(xs) != 1: ctx.fail(R, f.qualname, "an id is not looked at", f.file, p); continue
      x = xs.pop()
      bases = {strip(e.recv) for e in p.events if e.kind in ("setitem", "delitem") and e.recv.op == "attr"} | {strip(g[0]) for a, _ in p.facts for s in subterms(a) for g in [get_of(s)] if g} | {strip(a.a[1]) for a, _ in p.facts if a.op == "in"}
      bases = {b for b in bases if root(b) is me}
      if len(bases) != 1: raise AnalysisBroken(f"cannot tell what {f.qualname} counts in")
      base = bases.pop()
      res = it.norm(p.value, p.st)
      ms = members(res)
      rep = ms is not None and any(e is x for _, e in ms)
      if ms is None: raise AnalysisBroken(f"{f.qualname} returns {show(res)[:60]}")
      for c in (0, 1, 2, 3):
        try:
          if not all(count_eval(a, base, x, c, None) == v for a, v in p.facts if x in list(subterms(a)) and (contains(a, base))): continue
          new = c
          for e in p.events:
            if e.kind == "setitem" and strip(e.recv) is base and e.args[0] is x:
              new = count_eval(it.norm(e.args[1], p.st), base, x, c, new)
              if new == 0: new = "zero, but stays counted"
            if e.kind == "delitem" and strip(e.recv) is base and e.args[0] is x: new = 0
            if e.kind == "call" and e.fterm.op == "attr" and e.name == "pop" and strip(e.recv) is base and e.args[0] is x: new = 0
        except _Unk: raise AnalysisBroken(f"{f.qualname}: cannot follow the count of an id")
        want = c + 1 if delta > 0 else max(c - 1, 0)
        ctx.check(new == want, R, f.qualname, f"a count of {c if c < 3 else 'more'} becomes {new}, not {want}", f.file, p)
        wr = (c == 0) if delta > 0 else (c == 1)
        ctx.check(rep == wr, R, f.qualname, f"with a count of {c if c < 3 else 'more'} the id is {'' if rep else 'not '}reported", f.file, p)
      le = next((e for e in p.events if e.kind == "leave"), None)
      ctx.check(le is None, R, f.qualname, "the loop stops before the last id", f.file, p)
  f = ctx.method(cls, "remove_many")
  flag = [a.arg for a in f.node.args.args[2:]]
  if flag:
    for it, f, ids, p, xs in count_paths(ctx, R2, cls, "remove_many", forced=flag[0]):
      if len(xs) != 1: ctx.fail(R2, f.qualname + "[forced]", "an id is not looked at", f.file, p); continue
      x = xs.pop()
      base = next((strip(e.recv) for e in p.events if e.recv is not None and root(e.recv) is me and e.recv is not me), None)
      if base is None: base = next((strip(a.a[1]) for a, _ in p.facts if a.op == "in" and root(a.a[1]) is me), None)
      ms = members(it.norm(p.value, p.st))
      if not ctx.check(ms is not None, R2, f.qualname + "[forced]", "does not report which of the ids were counted", f.file, p) or base is None: continue
      for c in (0, 1, 2):
        try:
          if not all(count_eval(a, base, x, c, None) == v for a, v in p.facts if contains(a, base) and contains(a, x)): continue
          rep = any(e is x and all(count_eval(a, base, x, c, None) == v for a, v in fs if contains(a, base) and contains(a, x)) for fs, e in ms)
        except _Unk: ctx.fail(R2, f.qualname + "[forced]", "cannot follow the count of an id", f.file, p); continue
        gone = c == 0 or any(strip(e.recv) is base and e.args and e.args[0] is x and (e.kind == "delitem" or e.kind == "call" and call_of(e, "pop")) for e in p.events if e.recv is not None)
        ctx.check(gone, R2, f.qualname + "[forced]", "a forced removal keeps the id", f.file, p)
        ctx.check(rep == (c > 0), R2, f.qualname + "[forced]", f"a forced removal of an id with a count of {c} {'reports' if rep else 'does not report'} it", f.file, p)


def prices(ctx, R3, R4, R5):
  cls = HLP + ".PricedIdTracker"
  me = mk("self", ctx.p.cls(cls).qualname)
  best = None
  gf = ctx.method(cls, "get")
  it = ctx.interp()
  for p in ctx.run(it, gf, selfcls=ctx.p.cls(cls)):
    for s in subterms(p.value):
      g = get_of(s)
      if g and root(g[0]) is me: best = strip(g[0])
  if best is None: raise AnalysisBroken("cannot tell where the best prices are kept")
  INF = {const(float("inf")), mk("call", mk("ext", "builtins.float"), (const("inf"),), (), None), mk("ext", "math.inf")}
  def prices_of(p, x):
    """terms denoting the price counts of x's id"""
    out = set()
    for e in p.events:
      for t in [e.recv] + list(e.args or ()):
        if t is None: continue
        for s in subterms(t):
          g = get_of(s)
          if g and g[1] is attr(x, "id") and strip(g[0]) is not best: out.add(s)
          if s.op == "call" and call_name(s) == "setdefault" and s.a[1][0] is attr(x, "id"): out.add(s)
      if e.kind == "setitem" and e.args[0] is attr(x, "id") and strip(e.recv) is not best: out.add(e.args[1])
    for a, _ in p.facts:
      for s in subterms(a):
        g = get_of(s)
        if g and g[1] is attr(x, "id") and strip(g[0]) is not best: out.add(s)
    return out
  for it, f, ids, p, xs in count_paths(ctx, R3, cls, "add_many"):
    if len(xs) != 1: ctx.fail(R3, f.qualname, "an id is not looked at", f.file, p); continue
    x = xs.pop(); i, k = attr(x, "id"), attr(x, "cost")
    inner = prices_of(p, x)
    inc = [e for e in p.events if e.kind == "setitem" and e.args[0] is k and (e.recv in inner or e.recv.op == "obj")]
    good = len(inc) == 1
    if good:
      v = it.norm(inc[0].args[1], p.st)
      good = v.op == "bin" and v.a[0] == "+" and (is_const(v.a[2], 1) and (get_of(v.a[1]) or (None, None))[1] is k or is_const(v.a[1], 0) or v.a[1].op == "const" and v.a[1].a[0] == 0) or is_const(v, 1)
      if is_const(v, 1): good = inc[0].recv.op == "obj" or any(_inner_eval(a, inner, k, 2) not in (None, w) for a, w in p.facts)
    ctx.check(good, R3, f.qualname + "[count]", "the price of an added id is not counted", f.file, p)
    if good and inc[0].recv.op == "obj":
      ctx.check(any(e.kind == "setitem" and e.args[0] is i and e.args[1] is inc[0].recv for e in p.events) or any(e.kind == "call" and e.name == "setdefault" for e in p.events), R3, f.qualname + "[kept]", "the prices of a new id are not kept", f.file, p)
    low = None
    for a, v in p.facts:
      if a.op == "lt" and k in a.a:
        o = a.a[1] if a.a[0] is k else a.a[0]
        g = get_of(o)
        if g and strip(g[0]) is best and g[1] is i: low = v if a.a[0] is k else (False if v else None)
      if a.op == "in" and a.a[0] is i and strip(a.a[1]) is best and not v: low = True
    ms = members(it.norm(p.value, p.st))
    rep = ms is not None and any(e is x or (e.op == "inst" and fields(e).get("id") is i and fields(e).get("cost") is k) for _, e in ms)
    rec = any(e.kind == "setitem" and strip(e.recv) is best and e.args[0] is i and e.args[1] is k for e in p.events)
    if low is None: ctx.fail(R3, f.qualname, "the price of an added id is not compared with the best one", f.file, p); continue
    ctx.check(rep == low and rec == low, R3, f.qualname, f"a {'lower' if low else 'not lower'} price is {'' if rec else 'not '}recorded as the best and {'' if rep else 'not '}reported", f.file, p)
  for it, f, ids, p, xs in count_paths(ctx, R4, cls, "remove_many"):
    if len(xs) != 1: ctx.fail(R4, f.qualname, "an id is not looked at", f.file, p); continue
    x = xs.pop(); i, k = attr(x, "id"), attr(x, "cost")
    inner = prices_of(p, x)
    absent = any((a.op == "is" and a.a[0] in inner and v) or (a.op == "in" and a.a[0] is i and not v) or (a.op == "truthy" and a.a[0] in inner and not v and not any(e.kind in ("setitem", "delitem") or e.kind == "call" and e.name == "pop" for e in p.events)) for a, v in p.facts)
    v = it.norm(p.value, p.st)
    if v.op != "tuple" or len(v.a) != 2: raise AnalysisBroken(f"{f.qualname} returns {show(v)[:60]}")
    removed = [e for _, e in members(v.a[0]) or []]
    updated = [e for _, e in members(v.a[1]) or []]
    cnt = lambda t, c: count_eval(t, None, None, c, None)
    dropped = any((e.kind == "call" and e.fterm.op == "attr" and e.name == "pop" and e.recv in inner and e.args[0] is k) or (e.kind == "delitem" and e.recv in inner and e.args[0] is k) for e in p.events)
    setc = [e for e in p.events if e.kind == "setitem" and e.recv in inner and e.args[0] is k]
    gone = any((e.kind == "call" and e.fterm.op == "attr" and e.name == "pop" and strip(e.recv) is best and e.args[0] is i) or (e.kind == "delitem" and strip(e.recv) is best and e.args[0] is i) for e in p.events)
    newbest = [it.norm(e.args[1], p.st) for e in p.events if e.kind == "setitem" and strip(e.recv) is best and e.args[0] is i]
    if absent:
      ctx.check(not (removed or updated or dropped or gone or newbest), R4, f.qualname + "[unknown]", "removing an id that is not counted changes something", f.file, p); continue
    poss = []
    for c in (0, 1, 2, 3):
      ok = True
      for a, w in p.facts:
        r = _inner_eval(a, inner, k, c)
        if r is not None and r != w: ok = False
      if ok: poss.append(c)
    for c in poss:
      if c == 0: ctx.check(not (removed or updated or dropped or gone or newbest or setc), R4, f.qualname + "[unknown]", "removing a price that is not counted changes something", f.file, p)
      elif c >= 2:
        dec = len(setc) == 1 and setc[0].args[1].op == "bin" and setc[0].args[1].a[0] == "-" and is_const(setc[0].args[1].a[2], 1)
        ctx.check(dec and not (removed or updated or dropped or gone), R4, f.qualname + "[counted]", "a price that is still offered is not merely discounted", f.file, p)
      else:
        ctx.check(dropped, R4, f.qualname + "[dropped]", "a price nobody offers any more stays counted", f.file, p)
        empty = None
        for a, w in p.facts:
          if a.op == "truthy" and strip(a.a[0]) in inner: empty = not w
        if empty is True: ctx.check(gone and any(e is i for e in removed) and not newbest, R4, f.qualname + "[last]", "an id nobody offers any more is not removed and reported", f.file, p)
        elif empty is False:
          mn = [t for t in newbest if t.op == "call" and call_name(t) == "min" and t.a[1] and strip(t.a[1][0]) in inner]
          rep = [fields(e) for e in updated if e.op == "inst"]
          worse = any(a.op in ("eq", "lt") and k in a.a and any(get_of(o) and strip(get_of(o)[0]) is best for o in a.a) for a, w in p.facts)
          ctx.check(worse or bool(mn) and any(d.get("id") is i and d.get("cost") is mn[0] for d in rep) and not removed and not gone, R4, f.qualname + "[next]", "the best of the remaining prices is not recorded and reported", f.file, p)
        else: ctx.fail(R4, f.qualname, "whether an id has prices left is not looked at", f.file, p)
    le = next((e for e in p.events if e.kind == "leave"), None)
    ctx.check(le is None, R4, f.qualname, "the loop stops before the last id", f.file, p)
  # change_many
  f = ctx.method(cls, "change_many")
  it = ctx.interp(stop={cls + ".add_many", cls + ".remove_many"})
  a_, r_ = [mk("param", a.arg, f.qualname) for a in f.node.args.args[1:3]]
  for p in ctx.run(it, f, selfcls=ctx.p.cls(cls)):
    if p.kind != "return": continue
    ad = next((e for e in p.events if e.kind == "call" and e.name == cls + ".add_many" and e.arg(0, "ids") is a_), None)
    rm = next((e for e in p.events if e.kind == "call" and e.name == cls + ".remove_many" and e.arg(0, "ids") is r_), None)
    if not ctx.check(ad is not None and rm is not None, R5, f.qualname, "a combined change does not apply both halves", f.file, p): continue
    order = p.events.index(rm) < p.events.index(ad)
    v = it.norm(p.value, p.st)
    upd, remd = mk("item", rm.res, const(1)), mk("item", rm.res, const(0))
    ctx.check(v.op == "tuple" and len(v.a) == 2 and strip(v.a[1]) is remd, R5, f.qualname, "the removed ids are not reported", f.file, p)
    if not (v.op == "tuple" and len(v.a) == 2): continue
    ne = [s for s, w in empties(p.facts) if not w]
    for src in (ad.res, upd):
      if any(strip(s) is src for s in ne): continue
    # the merge takes the minimum per id: seen on the helper's own terms
  g = ctx.p.func(HLP + ".merge_priced_topics")
  it = ctx.interp()
  src = mk("param", g.node.args.args[0].arg, g.qualname)
  for p in ctx.run(it, g):
    if p.kind != "return" or fact(p.facts, mk("truthy", src)) is False: continue
    v = it.norm(p.value, p.st)
    xs = [s for s in subterms(v) if elem_of(s, src) is not None]
    ctx.check(any(True for s in xs), R5, g.qualname, "a reported price is lost", g.file, p)
    ok = any(call_name(s) == "min" for s in subterms(v) if s.op == "call") or any(a.op == "lt" and any(contains(o, attr(x, "cost")) for o in a.a for x in xs) for a, _ in p.facts) or any(a.op in ("in",) and not w for a, w in p.facts)
    ctx.check(ok, R5, g.qualname, "the lower of two reported prices does not win", g.file, p)


def _inner_eval(t, inner, k, c):
  def ev(y):
    o = y.op
    if o == "const": return y.a[0]
    g = get_of(y)
    if g and strip(g[0]) in inner and g[1] is k: return c if c > 0 else (ev(y.a[1][1]) if y.op == "call" and len(y.a[1]) > 1 else None)
    if o == "in" and y.a[0] is k and strip(y.a[1]) in inner: return c > 0
    if o == "eq": return ev(y.a[0]) == ev(y.a[1])
    if o == "lt": return ev(y.a[0]) < ev(y.a[1])
    if o == "is": return ev(y.a[0]) is ev(y.a[1])
    if o == "truthy": return bool(ev(y.a[0]))
    if o == "bin" and y.a[0] in "+-": return ev(y.a[1]) + ev(y.a[2]) if y.a[0] == "+" else ev(y.a[1]) - ev(y.a[2])
    raise _Unk()
  if not contains(t, k): return None
  try: return ev(t)
  except (_Unk, TypeError): return None


# ------------------------------------------------------------------ N09 upstream subscriptions
def n09(ctx):
  R1 = ctx.rule("first-and-last", "the switch asks its neighbours for exactly the topics whose first subscription it received, and drops exactly those whose last one went", 1)
  R2 = ctx.rule("ask-cheapest", "a requested topic is asked for at the attached link that offers it at the lowest price, and at no other", 1)
  R3 = ctx.rule("drop-everywhere", "a dropped topic is dropped at every attached link it was asked for at", 1)
  R4 = ctx.rule("follow-offers", "a wanted topic moves to a provider that becomes cheaper than the one in use, and to a remaining one when the one in use withdraws it", 2)
  R5 = ctx.rule("asked-recorded", "what a link was asked for is recorded as it is sent, and what is sent is what was to be sent", 3)
  coll = link_coll(ctx)
  c = ctx.p.cls(SW)
  sself = mk("self", SW)
  REQ = SW + ".request_in_topics_change"
  it, m, o, ps, f = handle(ctx, "InTopicsChangedMessage", stop=STOP | {REQ})
  cn = f"{f.qualname}[InTopicsChangedMessage]"
  trk = attr(sself, "in_topics")
  for p in ps:
    if p.kind != "return": continue
    ad = next((e.res for e in p.events if e.kind == "call" and e.name and e.name.endswith(".add_many") and e.recv is trk and e.arg(0, "ids") is attr(m, "add")), None)
    rm = next((e.res for e in p.events if e.kind == "call" and e.name and e.name.endswith(".remove_many") and e.recv is trk and e.arg(0, "ids") is attr(m, "remove")), None)
    ch = next((e.res for e in p.events if e.kind == "call" and e.name and e.name.endswith(".change_many") and e.recv is trk and e.arg(0) is attr(m, "add") and e.arg(1) is attr(m, "remove")), None)
    if ch is not None: ad, rm = mk("item", ch, const(0)), mk("item", ch, const(1))
    if not ctx.check(ad is not None and rm is not None, R1, cn, "a received subscription change is not counted", f.file, p): continue
    rq = [e for e in p.events if e.kind == "call" and e.name == REQ]
    em = empties(p.facts)
    none = all(any(strip(s) is t and not v for s, v in em) for t in (ad, rm))
    ok = len(rq) >= 1 and any(strip(e.arg(0, "add_topics")) is ad for e in rq) and any(strip(e.arg(1, "remove_topics")) is rm for e in rq) and all(strip(e.arg(0, "add_topics")) is ad or it.norm(e.arg(0, "add_topics"), p.st) is mk("lit", "set") for e in rq) and all(strip(e.arg(1, "remove_topics")) is rm or it.norm(e.arg(1, "remove_topics"), p.st) is mk("lit", "set") for e in rq)
    ctx.check(ok or none, R1, cn, "what is requested upstream is not what was first wanted / what nobody wants any more", f.file, p)
  # request
  g = ctx.method(c, "request_in_topics_change")
  A, Rm = [mk("param", a.arg, g.qualname) for a in g.node.args.args[1:3]]
  it = ctx.interp(stop=STOP)
  for p in ctx.run(it, g, selfcls=c):
    if p.kind != "return": continue
    em = empties(p.facts)
    out = []
    for e in sends(p):
      v = it.norm(e.arg(0, "message"), p.st)
      if v.op == "inst" and v.a[0].endswith(".InTopicsChangedMessage"): out.append((e, fields(v)))
      else: ctx.fail(R2, g.qualname, "sends something else than a subscription change", e.loc, p)
    # adds
    for e, d in out:
      for _, x in members(d["add"]) or []:
        y = x.a[0] if x.op == "spread" else x
        ctx.check(elem_of(y, A) is not None or strip(y) is A, R2, g.qualname, f"asks for {show(y)[:40]}, which was not requested", e.loc, p)
        ctx.check(chosen(it, ctx, e.recv, y, coll, p), R2, g.qualname, f"asks {show(e.recv)[:80]}, which is not known to offer the topic at the lowest price", e.loc, p)
      for _, x in members(d["remove"]) or []:
        y = x.a[0] if x.op == "spread" else x
        ok = False
        for l in [e.recv] + [t for a, v in p.facts if a.op == "eq" and v and e.recv in a.a for t in a.a if t is not e.recv]:
          rt = attr(l, "recv_topics")
          inn = lambda z: elem_of(y, z) is not None or fact(p.facts, mk("in", y, z)) is True
          ok = ok or contains(y, rt) and mentions(y, Rm) or inn(rt) and inn(Rm) or fact(p.facts, mk("in", y, rt)) is True
        ctx.check(ok, R3, g.qualname, "drops a topic at a link it was not asked for at", e.loc, p)
    if any(strip(s) is A and v for s, v in em):
      xs = {s for a, _ in p.facts for s in subterms(a) if elem_of(s, A) is not None} | {s for e in p.events for t in [e.recv] + list(e.args or ()) if t is not None for s in subterms(t) if elem_of(s, A) is not None}
      noone = any(a.op == "is" and v and a.a[1] is NONE and call_name(a.a[0]) in ("min", "next") or a.op == "truthy" and strip(a.a[0]) is coll and not v for a, v in p.facts)
      if not xs and not noone: ctx.fail(R2, g.qualname, "a requested topic is not looked at", g.file, p)
      for x in xs:
        asked = any(any(y is x for _, y in members(d["add"]) or []) for e, d in out)
        nobody = any((a.op == "in" and a.a[0] is x and not v) or (a.op == "is" and v) or (a.op in ("anyof", "truthy") and not v) for a, v in p.facts)
        ctx.check(asked or nobody, R2, g.qualname, "a requested topic somebody offers is not asked for", g.file, p)
        if asked: continue
        for ls in itertools.permutations((link_of(1, out_topics={7: 3}), link_of(2), link_of(3, out_topics={7: 9, 8: 1}))):
          if any(y.op == "elem" and strip(y.a[0]) is coll for a, _ in p.facts if a.op != "comp" for y in free_elems(a)): ls = tuple(l for l in ls if l.f["n"] == 1)
          world = {coll: dict.fromkeys(ls, 0), A: {7}, x: 7, Rm: set(), **{y: 7 for a, _ in p.facts for y in subterms(a) if elem_of(y, A) is not None}, **({y: ls[0] for a, _ in p.facts for y in subterms(a) if y.op == "elem" and strip(y.a[0]) is coll} if len(ls) == 1 else {})}
          ctx.check(not taken(p, world), R2, g.qualname + "[offered]", "a requested topic is not asked for though an attached link offers it", g.file, p)
    if any(strip(s) is Rm and v for s, v in em) and visited(p, coll) is None and not any(e.kind == "loop" and strip(e.recv) is coll for e in p.events):
      ctx.check(any(fact(p.facts, mk("truthy", t)) is False for t in (coll,)), R3, g.qualname, "the links are not looked at for dropped topics", g.file, p)
    if any(strip(s) is Rm and v for s, v in em) and visited(p, coll):
      le = left_early(p, coll)
      ctx.check(le is None, R3, g.qualname, "a loop over the links stops before the last one", g.file, p)
      for a, v in p.facts:
        l = None
        if a.op == "truthy" and a.a[0].op in ("bin", "comp") and contains(a.a[0], Rm):
          l = next((s.a[0] for s in subterms(a.a[0]) if s.op == "attr" and s.a[1] == "recv_topics"), None)
        if a.op == "in" and a.a[1].op == "attr" and a.a[1].a[1] == "recv_topics" and elem_of(a.a[0], Rm) is not None: l = a.a[1].a[0]
        if l is None or not v: continue
        ctx.check(any((e.recv is l or eq_fact(p.facts, e.recv, l) is True) and (members(d["remove"]) or d["remove"].op in ("bin", "copy", "comp")) and d["remove"] is not mk("lit", "set") for e, d in out), R3, g.qualname, "a dropped topic stays asked for at an attached link", g.file, p)
      if not any("recv_topics" in show(a) for a, _ in p.facts): ctx.fail(R3, g.qualname, "what the links were asked for is not looked at", g.file, p)
  # offers
  it, m, o, ps, f = handle(ctx, "OutTopicsChangedRecvMessage", stop=STOP | {REQ, SW + ".send_to"})
  cn = f"{f.qualname}[OutTopicsChangedRecvMessage]"
  saw = {"add": 0, "remove": 0}
  for p in ps:
    if p.kind != "return": continue
    rq = [e for e in p.events if e.kind == "call" and e.name == REQ]
    ina = [y for e in rq for _, y in members(it.norm(e.arg(0, "add_topics"), p.st)) or []]
    inr = [y for e in rq for _, y in members(it.norm(e.arg(1, "remove_topics"), p.st)) or []]
    for nm in ("add", "remove"):
      s0 = attr(m, nm)
      if fact(p.facts, mk("truthy", s0)) is not True: continue
      xs = {s for a, _ in p.facts for s in subterms(a) if elem_of(s, s0) is not None}
      for x in xs:
        i = attr(x, "id")
        wanted = fact(p.facts, mk("in", i, trk))
        if wanted is None: wanted = next((v for a, v in p.facts if any(s.op == "call" and call_name(s) == "__contains__" and call_recv(s) is trk and s.a[1][0] is i for s in subterms(a))), None)
        if wanted is not True: continue
        if nm == "add":
          noprov = any(a.op == "is" and v and a.a[1] is NONE for a, v in p.facts) or any(a.op == "anyof" and not v for a, v in p.facts) or fact(p.facts, mk("truthy", coll)) is False or any(a.op == "in" and a.a[0] is i and a.a[1].op == "attr" and a.a[1].a[1] == "recv_topics" and not v for a, v in p.facts)
          cheaper = None
          for a, v in p.facts:
            if a.op == "lt" and attr(x, "cost") in a.a:
              other = a.a[1] if a.a[0] is attr(x, "cost") else a.a[0]
              if get_of(other) and get_of(other)[1] is i: cheaper = v if a.a[0] is attr(x, "cost") else (False if v else None)
          if cheaper is None and not noprov: ctx.fail(R4, cn + "[cheaper]", "the price of the provider in use is not compared with a new offer", f.file, p); continue
          if cheaper is True or (cheaper is None and noprov):
            saw["add"] += 1
            ctx.check(i in ina and i in inr, R4, cn + "[cheaper]", "a wanted topic is not moved to a provider that became the cheapest", f.file, p)
        else:
          using = fact(p.facts, mk("in", i, attr(o, "recv_topics")))
          still = fact(p.facts, mk("in", i, attr(sself, "out_topics")))
          if still is None: still = next((v for a, v in p.facts if any(s.op == "call" and call_name(s) == "__contains__" and call_recv(s) is attr(sself, "out_topics") and s.a[1][0] is i for s in subterms(a))), None)
          if using is False or still is False: continue
          if fact(p.facts, mk("in", i, attr(o, "out_topics"))) is True: continue
          saw["remove"] += 1
          ctx.check(i in ina and i in inr, R4, cn + "[withdrawn]", "a wanted topic is not moved when the provider in use withdraws it", f.file, p)
  for nm, n in saw.items():
    if not n: ctx.fail(R4, f"{cn}[{'cheaper' if nm == 'add' else 'withdrawn'}]", "wanted topics do not follow the offers", f.file)
  # Link.send
  g = ctx.method(LINK, "send")
  lc = ctx.p.cls(LINK)
  me = mk("self", LINK)
  for k in concrete_messages(ctx):
    it = ctx.interp(models={NET + "._transform_message": lambda it, f, a, k, n, st, fr: [("v", a[0], st)]})
    m = msg_param(it, ctx, k.qualname)
    cn = f"{g.qualname}[{k.name}]"
    for p in ctx.run(it, g, selfcls=lc, bind={g.node.args.args[1].arg: m}):
      if p.kind != "return": continue
      low = [e for e in p.events if e.kind == "call" and e.name and e.name.split(".")[-1] == "_send"]
      if not ctx.check(len(low) == 1, R5, cn, f"{len(low)} messages go out", g.file, p): continue
      v = it.norm(low[0].args[0], p.st)
      if v is not m:
        ok = v.op == "inst" and v.a[0] == k.qualname and all(same_value(it, ctx.p, fields(v)[n], attr(m, n), p.facts) for n, *_ in ctx.p.fields(k))
        ctx.check(ok, R5, cn, f"goes out as {show(v)[:100]}", g.file, p)
      else: ctx.ok(R5, cn)
      if k.name == "InTopicsChangedMessage":
        rt = attr(me, "recv_topics")
        nn = mutated(it, p, rt)
        want = mk("bin", "-", mk("bin", "|", rt, attr(m, "add")), attr(m, "remove"))
        ctx.check(nn is not None and same_set(nn, want, empties(p.facts)), R5, cn + "[recorded]", "what the link was asked for is not recorded", g.file, p)


def chosen(it, ctx, link, topic, coll, p):
  """is `link` known to be the attached link offering `topic` at the lowest price?"""
  tbl = lambda l: attr(l, "out_topics")
  if link.op == "call" and call_name(link) in ("min",) and link.a[1]:
    src = link.a[1][0]
    if strip(src) is not coll and not (comp_alts(src) and all(elem_of(e, coll) is not None for _, e in comp_alts(src))): return False
    key = dict(link.a[2]).get("key")
    if key is None: return False
    if key.op != "keyfn": return False
    g = get_of(key.a[1])
    if not (g and strip(g[0]) is tbl(key.a[0])): return False
    if g[1] is not topic and elem_of(g[1]) is not elem_of(topic): return False
    return True
  if elem_of(link, coll) is not None:
    offers = fact(p.facts, mk("in", topic, tbl(link))) is True or any(get_of(s) and strip(get_of(s)[0]) is tbl(link) and get_of(s)[1] is topic for a, _ in p.facts for s in subterms(a))
    compared = any(a.op == "lt" and any(get_of(s) and strip(get_of(s)[0]) is tbl(link) for s in subterms(a)) for a, _ in p.facts)
    return offers and compared
  return False


RULES2 = {"N01": n01, "N03": n03, "N06": n06, "N07": n07, "N08": n08, "N09": n09}
