"""Services: discovery, names, topic spaces, broadcasts, agreement of requests and handlers."""
from __future__ import annotations
import ast
from ..interp import Path
from .client import *

DW = "streamtasks.services.discovery.DiscoveryWorker"
CD = "streamtasks.client.discovery"
BC = "streamtasks.client.broadcast"
FS, SS = FETCH + ".FetchServer", SIGNAL + ".SignalServer"
ROUTE = {FS + ".route", FS + ".add_route", SS + ".route", SS + ".add_route"}
SERVE = {FS + ".run", SS + ".run"} | ROUTE
RESP, RERR = FETCH + ".FetchRequest.respond", FETCH + ".FetchRequest.respond_error"
SEND_SIGNAL = SIGNAL + ".send_signal"


def routes(p):
  """[(kind, descriptor term, handler term, server term)] of the routes set up on a path"""
  out = []
  for i, e in enumerate(p.events):
    if e.kind != "call": continue
    if e.name in (FS + ".add_route", SS + ".add_route"):
      out.append(("fetch" if e.name.startswith(FS) else "signal", e.arg(0, "descriptor"), e.arg(1, "func"), e.recv, p))
    elif e.name in (FS + ".route", SS + ".route"):
      for x in p.events[i + 1:]:
        if x.kind == "call" and x.fterm is e.res and x.args: out.append(("fetch" if e.name.startswith(FS) else "signal", e.arg(0, "descriptor"), x.args[0], e.recv, p))
  return out


class Sub:
  """what a handler does: a path that begins where the handler is called"""
  def __init__(self, kind, value, st, p): 
    self.kind, self.value, self.st = kind, value, st
    self.events, self.facts = st.events[len(p.st.events):], st.facts[len(p.st.facts):]


def invoke(ctx, it, p, h, args):
  """paths of a handler called with the given arguments"""
  expr = ast.parse("0").body[0]
  fr = Frame(None, "<handler>", it.p.module("streamtasks.client.fetch"))
  out = []
  for r in it.call(h, list(args), [], expr.value, p.st, fr, awaited=True):
    rs = [r] if r[0] == "x" or r[1].op != "coro" else it.await_value(r[1], r[2], fr, expr)
    for k, v, st in rs: out.append(Sub("return" if k == "v" else "raise", v, st, p))
  it.npaths += len(out)
  return out


REQ = mk("req")
DATA = mk("signal-data")


def handlers(ctx, fname, cls=None, extra_stop=(), kind=None, **cfg):
  """{(kind, descriptor): [(interp, path, handler, [Sub])]} of all routes a function sets up, each handler analysed in the state the server is run in"""
  f = ctx.method(cls, fname) if cls else ctx.p.func(fname)
  states = []
  def serve(it, fn, a, k, n, st, fr):
    e = it._mkev("call", st, fr, n, name=FS + ".run", recv=fn.a[0] if fn.a and isinstance(fn.a[0], T) else None, args=tuple(a), fterm=fn, res=mk("serving"), awaited=id(n) in it._awaiting)
    states.append(st)
    return [("v", mk("serving"), st.event(e))]
  it = ctx.interp(stop=SERVE | {SENDTO, CL + ".fetch", SEND_SIGNAL, RESP, RERR} | set(extra_stop), **{**cfg, "models": {**cfg.get("models", {}), FS + ".run": serve, SS + ".run": serve}})
  it.types[REQ] = ctx.p.cls(FETCH + ".FetchRequest")
  it.types[DATA] = None
  out, seen = {}, set()
  ps = [Path("return", NONE, p.st) for p in ctx.run(it, f, **({"selfcls": f.cls} if f.cls else {}))]
  for p in [Path("return", NONE, st) for st in states] + ps:
    for k, d, h, srv, q in routes(p):
      hk = h.a[:2] if h.op == "closure" else h
      if (k, d, hk) in seen: continue
      seen.add((k, d, hk))
      key = (k, d.a[0] if is_const(d) else d)
      out.setdefault(key, []).append((it, p, h, invoke(ctx, it, p, h, [REQ if k == "fetch" else DATA])))
  return f, out


def validated_as(t, src):
  """name of the model class when t is `src` validated as a model, else None"""
  if t.op != "call" or call_name(t) not in ("model_validate", "validate_python") or not t.a[1]: return None
  x = t.a[1][0]
  while x.op == "copy": x = x.a[1]
  if x is not src: return None
  f = t.a[0]
  b = f.a[0] if isinstance(f.a[0], T) else f
  return b.a[0] if b.op in ("class", "ext") else show(b)


def dumped(t):
  """(model class, fields) when t is the dumped form of a model instance built here"""
  while t.op == "copy" or t.op == "raw": t = t.a[1] if t.op == "copy" else t.a[0]
  if t.op == "call" and call_name(t) in ("model_dump", "dict") and call_recv(t) is not None:
    if any(k not in ("mode", "warnings", "round_trip") for k, _ in t.a[2] or ()): return None
    t = call_recv(t)
  return (t.a[0], fields(t)) if t.op == "inst" else None


def answers(it, s):
  """[(event, term answered)] of the successful answers on a handler path"""
  return [(e, it.norm(e.args[0], s.st)) for e in s.events if e.kind == "call" and e.name == RESP and e.args]


def mfield(t, name, src):
  """is t the field `name` of the validated body?"""
  return t.op == "attr" and t.a[1] == name and validated_as(t.a[0], src) is not None


def driver(ctx, module, src):
  """a function of its own, analysed in the namespace of a module (to state what a user of a context or class does)"""
  from ..program import Func
  return Func(ast.parse(src).body[0], ctx.p.module(module))


def map_ops(it, p, base, events=None):
  """[(event, 'set' | 'del', key, value)] of the changes of a mapping on a path"""
  out = []
  for e in (p.events if events is None else events):
    if e.recv is None or e.recv is not base: continue
    if e.kind == "setitem": out.append((e, "set", e.args[0], e.args[1]))
    elif e.kind == "delitem": out.append((e, "del", e.args[0], None))
    elif e.kind == "call" and e.fterm is not None and e.fterm.op == "attr":
      m = e.fterm.a[1]
      if m in ("pop", "__delitem__"): out.append((e, "del", e.args[0] if e.args else None, None))
      elif m == "setdefault" and len(e.args) == 2: out.append((e, "keep", e.args[0], e.args[1]))
      elif m == "__setitem__" and len(e.args) == 2: out.append((e, "set", e.args[0], e.args[1]))
      elif m == "update" and len(e.args) == 1:
        t = it.norm(e.args[0], p.st)
        if t.op == "lit" and t.a[0] == "dict" and all(x.op == "kv" for x in t.a[1:]): out.extend((e, "set", x.a[0], x.a[1]) for x in t.a[1:])
        else: out.append((e, "set", None, None))
      elif m in ("clear", "popitem"): out.append((e, "del", None, None))
  return out


def looked_up(t, base, key, facts=()):
  """does t denote base[key], or None / a given default where there is no such key?"""
  if t.op == "item": return t.a[0] is base and t.a[1] is key
  g = get_of(t)
  if g is not None: return g[0] is base and g[1] is key and (len(t.a[1]) < 2 or t.a[1][1] is NONE)
  return t is NONE and fact(facts, mk("in", key, base)) is False


def consts_of(ctx, qual):
  c = ctx.p.cls(qual)
  out = {}
  for n in c.node.body:
    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
      try: out[n.targets[0].id] = _cev(n.value, out)
      except (ValueError, KeyError): pass
  return out


def _cev(n, env):
  if isinstance(n, ast.Name): return env[n.id]
  return ast.literal_eval(n)


GEN = {DW + ".generate_topic_ids", DW + ".generate_addresses"}
BCAST = BC + ".BroadcastingServer.broadcast"


def discovery_handlers(ctx):
  out = {}
  c = ctx.p.cls(DW)
  for m in c.methods.values():
    names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(m.node) if isinstance(n, (ast.Attribute, ast.Name))}
    if not names & {"FetchServer", "SignalServer"}: continue
    f, hs = handlers(ctx, m.name, c, extra_stop=GEN | {BCAST, LINK + ".send", CL + ".send_stream_data"}, models=RAW)
    for k, v in hs.items(): out.setdefault(k, []).extend(v)
  return out


def c06(ctx):
  R1 = ctx.rule("fresh", "the discovery service hands out, for any requested number, that many ids none of which it handed out before", 10)
  R2 = ctx.rule("reserved", "the ids handed out begin above every well-known id of their kind, and the counters are only changed by handing out ids or by a restart", 4)
  R3 = ctx.rule("served", "a request for topics or addresses is answered with ids handed out for it, in the number requested, and an answer sent as a broadcast carries the id of its request", 3)
  R4 = ctx.rule("client", "a client takes only the answer to its own request, refuses an answer with another number of ids, and registers or takes over exactly the ids it was given", 5)
  c = ctx.p.cls(DW)
  me = mk("self", DW)
  itx, f0, ps0 = summary(ctx, c, "__init__", stop={"streamtasks.worker.Worker.__init__"})
  start = {}
  for p in ps0:
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and is_const(e.args[0]): start[e.name] = e.args[0].a[0]
  cfield = {}
  memo = {}
  def by_n(nm, n):
    if (nm, n) not in memo:
      f = ctx.method(c, nm)
      it = ctx.interp()
      memo[nm, n] = it, f, ctx.run(it, f, selfcls=c, bind={f.node.args.args[1].arg: const(n)})
    return memo[nm, n]
  for nm, consts in (("generate_topic_ids", "NetworkTopics"), ("generate_addresses", "NetworkAddresses")):
    it, f, ps = summary(ctx, c, nm)
    fs = {e.name for p in ps for e in p.events if e.kind == "setattr" and e.recv is me}
    if not ctx.check(len(fs) == 1, R1, f.qualname, "no counter is advanced", at(f)): continue
    cf = fs.pop()
    cfield[cf] = (nm, consts)
    for base in (0, 7):
      st = {cf: base}
      taken = set()
      for n in (2, 0, 3, -1, 1, -4, 2):
        it, f, ps = by_n(nm, n)
        r = step(it, f, ps, me, st, (n,))
        if not ctx.check(r is not None and r[0] == "return" and r[1] is not ... and isinstance(r[2][cf], int), R1, f.qualname + "[known]", f"cannot tell which ids a request for {n} gets", at(f)): break
        ids = list(r[1])
        ctx.check(len(ids) == max(n, 0) == len(set(ids)), R1, f.qualname + "[number]", f"a request for {n} ids gets {len(ids)}", at(f))
        ctx.check(not set(ids) & taken, R1, f.qualname, f"a request for {n} ids gets ids handed out before", at(f))
        ctx.check(not ids or min(ids) >= base, R2, f.qualname, "an id below the counter's start is handed out", at(f))
        taken |= set(ids)
        st = r[2]
    known = [v for k, v in constants(ctx, consts).items() if k != "COUNTER_INIT"]
    ctx.check(isinstance(start.get(cf), int) and start[cf] > max(known), R2, f"{DW}.{cf}", f"the ids begin at {start.get(cf)}, among the well-known ones {sorted(known)}", c.file)
  hs = discovery_handlers(ctx)
  for key, v in hs.items():
    for it, p, h, subs in v:
      for s in subs:
        for e in s.events:
          if e.kind == "setattr" and e.recv is me and e.name in cfield: ctx.fail(R2, f"{DW}[{key[1]}]", f"serving a request sets the counter {e.name}", e.loc, s)
  rf = ctx.method(c, "run")
  for p in ctx.run(ctx.interp(stop=GEN), rf, selfcls=c):
    for i, e in enumerate(p.events):
      if e.kind == "setattr" and e.recv is me and e.name in cfield:
        ctx.check(any(ext_call(x.res, "asyncio.gather") or x.kind == "await" for x in p.events[:i] if x.res is not None) and start.get(e.name) == (e.args[0].a[0] if is_const(e.args[0]) else None), R2, f"{rf.qualname}[{e.name}]", "the counter is set back while ids of it are in use", e.loc, p)
  D = consts_of(ctx, CD + ".DiscoveryConstants")
  for desc, kind, gen, fld in ((D["FD_REQUEST_TOPICS"], "fetch", "generate_topic_ids", "topics"), (D["FD_SD_REQUEST_ADDRESSES"], "fetch", "generate_addresses", "addresses"), (D["FD_SD_REQUEST_ADDRESSES"], "signal", "generate_addresses", "addresses")):
    tag = f"{kind}:{desc}"
    if not ctx.check((kind, desc) in hs, R3, tag, "nobody handles the request", c.file): continue
    for it, p, h, subs in hs[(kind, desc)]:
      src = attr(REQ, "body") if kind == "fetch" else DATA
      for s in subs:
        if s.kind != "return": ctx.fail(R3, tag, f"fails with {show(s.value)[:50]}", c.file, s); continue
        gs = [e for e in s.events if e.kind == "call" and e.name == DW + "." + gen]
        if not ctx.check(len(gs) == 1 and gs[0].args and mfield(gs[0].args[0], "count", src), R3, tag, "not the requested number of ids is handed out once", c.file, s): continue
        if kind == "fetch": outs = [t for _, t in answers(it, s)]
        else: 
          outs = []
          for e in s.events:
            if e.kind == "call" and call_of(e, "send_stream_data") or e.kind == "call" and e.name == LINK + ".send":
              t = it.norm(e.args[-1], s.st)
              outs.append(t)
              tp = e.args[0]
              ctx.check(e.name == LINK + ".send" or is_const(tp) and tp.a[0] == constant(ctx, "NetworkTopics", "ADDRESSES_CREATED"), R3, tag + "[topic]", "the answer goes out on another topic", e.loc, s)
        insts = [(x.a[0], fields(x)) for t in outs for x in subterms(t) if x.op == "inst" and fld in fields(x)]
        if not ctx.check(len(insts) == 1 and len(outs) == 1, R3, tag, "not exactly one answer with the ids is sent", c.file, s): continue
        ctx.check(strip(insts[0][1][fld]) is gs[0].res, R3, tag + "[ids]", "the answer carries other ids than were handed out", c.file, s)
        if kind == "signal": ctx.check(mfield(insts[0][1].get("request_id", NONE), "request_id", src), R3, tag + "[id]", "the answer does not carry the id of its request", c.file, s)
  # client side
  g = ctx.p.func(CD + ".request_addresses")
  cl, cnt = [mk("param", a.arg, g.qualname) for a in g.node.args.args[:2]]
  RAR = CD + ".ResolveAddressesReceiver"
  it = ctx.interp(stop={CL + ".fetch", SEND_SIGNAL, RECV + ".start_recv", RECV + ".stop_recv", RECV + ".get"})
  ways = set()
  for p in ctx.run(it, g):
    fe = [e for e in p.events if e.kind == "call" and e.name == CL + ".fetch"]
    sg = [e for e in p.events if e.kind == "call" and e.name == SEND_SIGNAL]
    got = [e for e in p.events if e.kind == "call" and e.name == RECV + ".get"]
    if not fe and not sg: ctx.check(p.kind == "raise", R4, g.qualname, "no addresses are requested", at(g), p); continue
    noaddr = any(a.op == "is" and a.a[1] is NONE and root(a.a[0]) is cl and v for a, v in p.facts)
    ctx.check(bool(sg) == noaddr, R4, g.qualname + "[way]", "a client without address waits for a response it cannot get" if fe else "a client with an address signals", at(g), p)
    req = fe[0].args[2] if fe and len(fe[0].args) > 2 else sg[0].args[3] if sg and len(sg[0].args) > 3 else None
    d = dumped(req) if req is not None else None
    if not ctx.check(d is not None and d[1].get("count") is cnt, R4, g.qualname + "[count]", "another number of addresses is requested", at(g), p): continue
    if sg:
      ways.add("signal")
      rid = d[1].get("request_id", NONE)
      rnd = rid.op == "call" and contains(rid, lambda s: s.op == "ext" and (s.a[0].startswith("secrets.") or s.a[0].startswith("random.") or s.a[0].startswith("os.urandom") or s.a[0].startswith("uuid.")))
      ctx.check(rnd, R4, g.qualname + "[random]", "requests of different clients carry the same id", at(g), p)
      st = [e for e in p.events if e.kind == "call" and e.name == RECV + ".start_recv"]
      ctx.check(len(st) == 1 and p.events.index(st[0]) < p.events.index(sg[0]), R4, g.qualname + "[order]", "the request is sent before the client listens", at(g), p)
      own = [x.args[0] for x in p.events if x.kind == "setattr" and x.name == "_request_id"]
      ctx.check(own == [rid], R4, g.qualname + "[listens]", "the client listens for the answer to another request", at(g), p)
      ctx.check(not st or len([e for e in p.events if e.kind == "call" and e.name == RECV + ".stop_recv" and e.recv is st[0].recv]) == 1, R4, g.qualname + "[stops]", "the client keeps listening", at(g), p)
    else: ways.add("fetch")
    src = mk("awaited", got[0].res) if got else mk("awaited", fe[0].res)
    if p.kind == "return":
      v = p.value
      base = strip(v)
      ok = base.op == "attr" and base.a[1] == "addresses" and (base.a[0] is src or validated_as(base.a[0], src))
      ctx.check(ok, R4, g.qualname + "[result]", "returns other addresses than it was given", at(g), p)
      ls = [(x, s) for a, v2 in p.facts if a.op == "eq" and v2 and cnt in a.a for x in a.a for s in subterms(x) if s.op == "call" and call_name(s) == "len" or s.op == "len"]
      eqn = any(merged((s.a[1][0] if s.op == "call" else s.a[0])) or not merged(v) for x, s in ls)
      ctx.check(eqn, R4, g.qualname + "[checked]", "an answer with another number of addresses is taken", at(g), p)
  ctx.check(ways == {"fetch", "signal"}, R4, g.qualname + "[ways]", "clients with and without address are not both served", at(g))
  k = ctx.p.cls(RAR)
  f = ctx.method(k, "on_message")
  me2 = mk("self", RAR)
  for p in ctx.run(ctx.interp(), f, selfcls=k):
    for e in p.events:
      if e.kind == "call" and call_of(e, "put_nowait"):
        own = any(a.op == "eq" and v and attr(me2, "_request_id") in a.a and any(x.op == "attr" and x.a[1] == "request_id" for x in a.a) for a, v in p.facts)
        ctx.check(own, R4, f.qualname, "the answer to somebody else's request is taken", e.loc, p)
  c2 = ctx.p.cls(CL)
  f = ctx.method(c2, "request_address")
  it = ctx.interp(stop={CD + ".request_addresses", CL + ".set_address"})
  for p in ctx.run(it, f, selfcls=c2):
    rq = [e for e in p.events if e.kind == "call" and e.name == CD + ".request_addresses"]
    sa = [e for e in p.events if e.kind == "call" and e.name == CL + ".set_address"]
    if p.kind != "return": ctx.check(not sa, R4, f.qualname + "[refused]", "an address is taken over and then refused", at(f), p); continue
    good = len(rq) == 1 and is_const(rq[0].args[1], 1) and len(sa) == 1 and sa[0].awaited and contains(sa[0].args[0], mk("awaited", rq[0].res)) and sa[0].args[0] is p.value
    if good:
      for one in (7, 4096):
        try: good = good and ev(it.norm(sa[0].args[0], p.st), {mk("awaited", rq[0].res): {one}}) == one
        except Unk: good = good and not contains(sa[0].args[0], lambda s: s.op in ("bin", "un"))
    ctx.check(good, R4, f.qualname, "the client's address is not the one address it was given", at(f), p)
  f = ctx.method(c2, "request_topic_ids")
  it = ctx.interp(stop={CL + ".fetch", CL + ".register_out_topics"})
  ap = mk("param", "apply", f.qualname)
  n = mk("param", f.node.args.args[1].arg, f.qualname)
  for p in ctx.run(it, f, selfcls=c2):
    fe = [e for e in p.events if e.kind == "call" and e.name == CL + ".fetch"]
    if p.kind != "return": continue
    ok = len(fe) == 1 and len(fe[0].args) > 2 and (dumped(fe[0].args[2]) or ("", {}))[1].get("count") is n
    ctx.check(ok, R4, f.qualname, "not the wanted number of topics is requested once", at(f), p)
    if not ok: continue
    base = strip(it.norm(p.value, p.st))
    ctx.check(base.op == "attr" and base.a[1] == "topics" and validated_as(base.a[0], mk("awaited", fe[0].res)) is not None, R4, f.qualname + "[result]", "returns other topics than it was given", at(f), p)
    ctx.check(any(a.op == "eq" and v and n in a.a for a, v in p.facts), R4, f.qualname + "[checked]", "an answer with another number of topics is taken", at(f), p)
    reg = [e for e in p.events if e.kind == "call" and e.name == CL + ".register_out_topics"]
    if "apply" in [a.arg for a in f.node.args.args]:
      av = fact(p.facts, mk("truthy", ap))
      ctx.check(av is not None and len(reg) == (1 if av else 0) and all(strip(it.norm(e.args[0], p.st)) is base and e.awaited for e in reg), R4, f.qualname + "[apply]", "the topics are not registered exactly when asked for", at(f), p)


def c10(ctx):
  R1 = ctx.rule("registry", "the discovery service stores a registered name with its address before it announces exactly that pair, answers a resolution with the stored address of the asked name or none, and forgets exactly a name that is unregistered", 6)
  R2 = ctx.rule("resolve", "a client resolves a name from its cache or by asking the discovery service for it, returns that answer, and remembers it only when there is one", 3)
  R3 = ctx.rule("context", "while an address name context is entered the name is registered for the given or own address; however it is left, the name is unregistered and forgotten by the client; without an address it is refused", 8)
  R4 = ctx.rule("wait", "a client waiting for a name listens for registrations before it asks, returns only an address of that name, and stops listening", 4)
  R5 = ctx.rule("distinct", "no two services register the same name, and every well-known name is a valid address name", 4)
  c = ctx.p.cls(DW)
  me = mk("self", DW)
  D = consts_of(ctx, CD + ".DiscoveryConstants")
  hs = discovery_handlers(ctx)
  reg, res, unreg = (("fetch", D["FD_REGISTER_ADDRESS_NAME"]), ("fetch", D["FD_RESOLVE_ADDRESS"]), ("signal", D["SD_UNREGISTER_ADDRESS_NAME"]))
  for k in (reg, res, unreg): ctx.check(k in hs, R1, k[1], "nobody handles the request", c.file)
  M = None
  body = attr(REQ, "body")
  for it, p, h, subs in hs.get(reg, []):
    for s in subs:
      if s.kind != "return": ctx.fail(R1, reg[1], f"fails with {show(s.value)[:50]}", c.file, s); continue
      sets = [(e, k, v) for e in s.events for _, w, k, v in map_ops(it, s, e.recv, [e]) if w == "set" and e.recv.op == "attr" and e.recv.a[0] is me]
      if not ctx.check(len(sets) == 1 and mfield(sets[0][1], "address_name", body) and mfield(sets[0][2], "address", body), R1, reg[1], "the name is not stored with its address once", c.file, s): continue
      M = sets[0][0].recv
      bs = [e for e in s.events if e.kind == "call" and e.name == BCAST]
      if not ctx.check(len(bs) == 1 and bs[0].awaited and is_const(bs[0].args[0], D["BC_ADDRESS_NAME_REGISTERED"]), R1, reg[1] + "[announced]", "the registration is not announced once", c.file, s): continue
      ctx.check(s.events.index(bs[0]) > s.events.index(sets[0][0]), R1, reg[1] + "[order]", "the registration is announced before it can be resolved", bs[0].loc, s)
      d = dumped(bs[0].args[1])
      n, a = (d[1].get("address_name"), d[1].get("address")) if d else (None, None)
      ctx.check(n is not None and mfield(n, "address_name", body) and a is not None and (mfield(a, "address", body) or looked_up(a, M, n)), R1, reg[1] + "[pair]", "another name or address is announced than was registered", bs[0].loc, s)
  if M is None: ctx.fail(R1, reg[1], "registering a name stores nothing", c.file); return
  for it, p, h, subs in hs.get(res, []):
    for s in subs:
      if s.kind != "return": ctx.fail(R1, res[1], f"fails with {show(s.value)[:50]}", c.file, s); continue
      an = answers(it, s)
      if not ctx.check(len(an) == 1, R1, res[1], "not one answer", c.file, s): continue
      d = dumped(an[0][1])
      if not ctx.check(d is not None, R1, res[1], "the answer is no response model", c.file, s): continue
      a = d[1].get("address", NONE)
      key = next((x for x in subterms(a) if mfield(x, "address_name", body)), None) or next((x.a[0] for x, v in s.facts if x.op == "in" and mfield(x.a[0], "address_name", body)), None)
      ctx.check(key is not None and looked_up(a, M, key, s.facts), R1, res[1], f"answers {show(a)[:60]}", c.file, s)
      ctx.check(not map_ops(it, s, M), R1, res[1] + "[pure]", "resolving changes the registered names", c.file, s)
  for it, p, h, subs in hs.get(unreg, []):
    for s in subs:
      if s.kind != "return": ctx.check(contains(s.value, lambda x: x.op == "exc" and x.a[0] in ("builtins.KeyError", VALERR)), R1, unreg[1], f"fails with {show(s.value)[:50]}", c.file, s); continue
      ops = map_ops(it, s, M)
      gone = fact(s.facts, mk("in", ops[0][2], M)) if ops else next((v for x, v in s.facts if x.op == "in" and x.a[1] is M and mfield(x.a[0], "address_name", DATA)), None)
      ctx.check(gone is False and not ops or len(ops) == 1 and ops[0][1] == "del" and ops[0][2] is not None and mfield(ops[0][2], "address_name", DATA), R1, unreg[1], "not exactly the unregistered name is forgotten", c.file, s)
  for key, v in hs.items():
    if key in (reg, unreg): continue
    for it, p, h, subs in v:
      for s in subs: ctx.check(not map_ops(it, s, M), R1, f"{key[1]}[names]", "another request changes the registered names", c.file, s)
  # client resolution
  cc = ctx.p.cls(CL)
  cme = mk("self", CL)
  f = ctx.method(cc, "resolve_address_name")
  it = ctx.interp(stop={CL + ".fetch"})
  nm = mk("param", f.node.args.args[1].arg, f.qualname)
  sf = ctx.method(cc, "set_address_name")
  CACHE = None
  its, _, sps = it, None, ctx.run(ctx.interp(), sf, selfcls=cc)
  sn, sa = [mk("param", a.arg, sf.qualname) for a in sf.node.args.args[1:3]]
  for p in sps:
    for e in p.events:
      if e.kind == "setitem": CACHE = e.recv
  if not ctx.check(CACHE is not None, R2, sf.qualname, "a name is never remembered", at(sf)): return
  for p in sps:
    none = fact(p.facts, mk("is", sa, NONE))
    ops = map_ops(its, p, CACHE)
    known = fact(p.facts, mk("in", sn, CACHE))
    if none: ctx.check(known is False and not ops or len(ops) == 1 and ops[0][1] == "del" and ops[0][2] is sn and (known is True or len(ops[0][0].args) > 1) and p.kind == "return", R2, sf.qualname + "[forget]", "setting a name to no address does not forget it", at(sf), p)
    else: ctx.check(len(ops) == 1 and ops[0][1:] == ("set", sn, sa), R2, sf.qualname, "a name is not remembered with its address", at(sf), p)
  for p in ctx.run(it, f, selfcls=cc):
    fe = [e for e in p.events if e.kind == "call" and e.name == CL + ".fetch"]
    ops = map_ops(it, p, CACHE)
    if p.kind != "return": continue
    if not fe:
      ctx.check(looked_up(p.value, CACHE, nm) and not ops and p.value.op != "const", R2, f.qualname + "[cached]", f"returns {show(p.value)[:60]} without asking", at(f), p)
      continue
    d = dumped(fe[0].args[2]) if len(fe[0].args) > 2 else None
    ok = len(fe) == 1 and is_const(fe[0].args[0], constant(ctx, "NetworkAddresses", "ID_DISCOVERY")) and is_const(fe[0].args[1], D["FD_RESOLVE_ADDRESS"]) and d and d[1].get("address_name") is nm
    if not ctx.check(ok, R2, f.qualname + "[asks]", "the discovery service is not asked for the name", at(f), p): continue
    v = p.value
    none = fact(p.facts, mk("is", v, NONE)) if v is not NONE else True
    good = mfield(v, "address", mk("awaited", fe[0].res)) or v is NONE and any(a.op == "is" and x and a.a[1] is NONE and mfield(a.a[0], "address", mk("awaited", fe[0].res)) for a, x in p.facts)
    ctx.check(good, R2, f.qualname, f"returns {show(v)[:60]}", at(f), p)
    ctx.check(all(o[1] == "set" and o[2] is nm and o[3] is v for o in ops) and (not ops or none is False), R2, f.qualname + "[remembers]", "something else than the answer is remembered for the name", at(f), p)
  g = ctx.method(cc, "_get_address")
  # context
  SETN = CL + ".set_address_name"
  ac = ctx.p.func(CD + ".address_name_context")
  drv = driver(ctx, CD, "async def use(client: 'Client', name: str, address, body):\n  async with address_name_context(client, name, address): await body()")
  q = drv.qualname
  cl, name, addr, bd = [mk("param", x, q) for x in ("client", "name", "address", "body")]
  entered, refused = 0, False
  for where, kinds in ((None, ()), ("body", (CANCEL, VALERR, "builtins.RuntimeError")), ("fetch", (CANCEL, FETCH + ".FetchError")), ("send_signal", (CLOSED,))):
    for k in kinds or (None,):
      def rf(e, st, k=k):
        if where is None or e.kind != "call": return []
        hit = e.fterm is bd if where == "body" else e.name == CL + ".fetch" if where == "fetch" else e.name == SEND_SIGNAL
        return [k] if hit else []
      it = ctx.interp(stop={CL + ".fetch", SETN, SEND_SIGNAL}, raises_fn=rf)
      for p in ctx.run(it, drv):
        tag = f"{ac.qualname}[{where or 'normal'}]"
        fe = [e for e in p.events if e.kind == "call" and e.name == CL + ".fetch"]
        sg = [e for e in p.events if e.kind == "call" and e.name == SEND_SIGNAL]
        sn = [e for e in p.events if e.kind == "call" and e.name == SETN]
        bc = [e for e in p.events if e.kind == "call" and e.fterm is bd]
        noaddr = any(v and a.op == "is" and a.a[1] is NONE and a.a[0].op == "attr" and a.a[0].a[0] is cl for a, v in p.facts)
        if noaddr and fact(p.facts, mk("is", addr, NONE)) is True:
          refused = True
          ctx.check(p.kind == "raise" and not fe and not bc and not sn, R3, ac.qualname + "[no address]", "a context without an address is entered", at(ac), p)
          continue
        own = fact(p.facts, mk("is", addr, NONE))
        want = addr if own is False else None
        good = lambda t: t is want if want is not None else t.op == "attr" and t.a[0] is cl and t.a[1] == address_field(ctx)
        d = dumped(fe[0].args[2]) if fe and len(fe[0].args) > 2 else None
        if not ctx.check(len(fe) == 1 and fe[0].awaited and is_const(fe[0].args[1], D["FD_REGISTER_ADDRESS_NAME"]) and d is not None and d[1].get("address_name") is name and good(d[1].get("address", NONE)), R3, tag + "[registers]", "the name is not registered for the address", at(ac), p): continue
        i = p.events.index(fe[0])
        if bc:
          entered += 1
          j = p.events.index(bc[0])
          ctx.check(i < j and any(p.events.index(e) < j and e.args[0] is name and good(e.args[1]) for e in sn), R3, tag + "[entered]", "the context is entered before the name is registered and known to the client", at(ac), p)
        ds = [dumped(e.args[3]) for e in sg if len(e.args) > 3]
        ctx.check(len(sg) == 1 and is_const(sg[0].args[2], D["SD_UNREGISTER_ADDRESS_NAME"]) and ds and ds[0] is not None and ds[0][1].get("address_name") is name and p.events.index(sg[0]) > max([i] + [p.events.index(e) for e in bc]), R3, tag + "[unregisters]", "the name stays registered after the context is left", at(ac), p)
        if where != "send_signal" or p.kind == "return":
          ctx.check(sn and sn[-1].args[0] is name and sn[-1].args[1] is NONE or not sn and not bc, R3, tag + "[forgets]", "the client still resolves the name after the context is left", at(ac), p)
  drv2 = driver(ctx, CD, "async def fail(client: 'Client', name: str, address):\n  async with address_name_context(client, name, address): raise ValueError()")
  for p in ctx.run(ctx.interp(stop={CL + ".fetch", SETN, SEND_SIGNAL}), drv2): ctx.check(p.kind == "raise", R3, ac.qualname + "[fails]", "an error inside the context is swallowed", at(ac), p)
  ctx.check(refused, R3, ac.qualname + "[no address]", "a context without an address is entered", at(ac))
  ctx.check(entered > 0, R3, ac.qualname, "the context is never entered", at(ac))
  # waiting
  w = ctx.p.func(CD + ".wait_for_address_name")
  cl, name = [mk("param", a.arg, w.qualname) for a in w.node.args.args[:2]]
  RES = CL + ".resolve_address_name"
  ANR = CD + ".AddressNameRegisteredReceiver"
  it = ctx.interp(stop={RECV + ".start_recv", RECV + ".stop_recv", RECV + ".get", RECV + ".empty", RES, SETN}, unroll=2)
  for p in ctx.run(it, w):
    rs = [e for e in p.events if e.kind == "call" and e.name == RES]
    sr = [e for e in p.events if e.kind == "call" and e.name == RECV + ".start_recv"]
    gt = [e for e in p.events if e.kind == "call" and e.name == RECV + ".get"]
    for e in p.events:
      if e.kind != "call" or e.name != SETN: continue
      a, b = e.arg(0, "name"), e.arg(1, "address")
      heard = [mk("awaited", g.res) for g in gt]
      pair = any(b is attr(m, "address") and (a is attr(m, "address_name") or a is name and eq_fact(p.facts, attr(m, "address_name"), name) is True) for m in heard) or a is name and (any(b is mk("awaited", x.res) for x in rs) or b is p.value)
      ctx.check(pair, R4, w.qualname + "[remembers]", f"the client remembers {show(b)[-40:]} as the address of {show(a)[-40:]}", e.loc, p)
    if p.kind == "loopback": continue
    if rs or gt:
      ctx.check(len(sr) == 1 and p.events.index(sr[0]) < min(p.events.index(e) for e in rs + gt), R4, w.qualname + "[order]", "a registration between asking and listening is missed", at(w), p)
      ctx.check(len([e for e in p.events if e.kind == "call" and e.name == RECV + ".stop_recv"]) == len(sr), R4, w.qualname + "[stops]", "the client keeps listening", at(w), p)
      ctx.check(all(e.args[0] is name for e in rs) and len(rs) >= 1, R4, w.qualname + "[asks]", "the discovery service is not asked for the name", at(w), p)
    if p.kind == "return":
      v = p.value
      ok = any(v is mk("awaited", e.res) for e in rs) or looked_up(v, attr(cl, CACHE.a[1]), name)
      for e in gt:
        m = mk("awaited", e.res)
        if v is attr(m, "address"): ok = eq_fact(p.facts, attr(m, "address_name"), name) is True
      ctx.check(ok, R4, w.qualname, f"returns {show(v)[:60]}", at(w), p)
      inloop = [e for e in gt if e.loops]
      if len(inloop) <= 1: ctx.check(fact(p.facts, mk("is", v, NONE)) is False or fact(p.facts, mk("truthy", v)) is True or fact(p.facts, mk("in", name, attr(cl, CACHE.a[1]))) is True, R4, w.qualname + "[found]", "returns without an address", at(w), p)
  k = ctx.p.cls(ANR)
  it = ctx.interp(stop={RECV + ".start_recv", RECV + ".stop_recv", RECV + ".get", RECV + ".empty", RES, SETN})
  news = [e for p in ctx.run(it, w) for e in p.events if e.kind == "call" and e.name == ANR]
  for e in news[:1]:
    ns = e.arg(1, "namespaces")
    ctx.check(e.args and e.args[0] is cl and ns is not None and D["BC_ADDRESS_NAME_REGISTERED"] in [x.a[0] for x in subterms(it.norm(ns, State())) if is_const(x)] or ns is not None and ns.op == "obj", R4, w.qualname + "[listens]", "the client listens for something else", at(w))
  # distinct names
  names = consts_of(ctx, "streamtasks.services.constants.NetworkAddressNames")
  vals = list(names.values())
  for n, v in names.items():
    ctx.check(isinstance(v, str) and vals.count(v) == 1, R5, f"NetworkAddressNames.{n}", "two well-known names are the same", "streamtasks/services/constants.py")
    ctx.check(isinstance(v, str) and ":" not in v and not v[:1].isdigit() and v != "", R5, f"NetworkAddressNames.{n}[valid]", "a well-known name is no valid address name", "streamtasks/services/constants.py")
  users = {}
  for fn in ctx.p.all_funcs():
    if fn.cls is None or fn.module.name == CD: continue
    for n in ast.walk(fn.node):
      if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == "address_name_context" or isinstance(n.func, ast.Attribute) and n.func.attr == "address_name_context"):
        a = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "name"), None)
        users.setdefault(name_value(ctx, a, fn), set()).add(fn.cls.qualname)
  ctx.check(len(users) >= 3, R5, "services", "services register no names", c.file)
  for v, cs in users.items():
    if v is None: ctx.note(f"name registered by {sorted(cs)} is not a constant"); continue
    ctx.check(len(cs) == 1, R5, f"name:{v}", f"{sorted(cs)} register the same name", c.file)


def name_value(ctx, a, fn):
  """constant string an argument denotes: a class constant, or a field set from a constructor default"""
  if isinstance(a, ast.Constant): return a.value
  if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id != "self":
    return consts_of(ctx, "streamtasks.services.constants." + a.value.id).get(a.attr) if a.value.id.startswith("Network") else None
  if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
    init = fn.cls.methods.get("__init__")
    if init is None: return None
    src = next((n.value for n in ast.walk(init.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a.attr for t in n.targets)), None)
    if isinstance(src, ast.Name):
      ps = init.node.args.args
      ds = [None] * (len(ps) - len(init.node.args.defaults)) + init.node.args.defaults
      for x, d in zip(ps, ds):
        if x.arg == src.id and d is not None: return name_value(ctx, d, init)
      return None
    return name_value(ctx, src, init) if src is not None else None
  return None


def as_dict(v):
  try: return dict(v)
  except (TypeError, ValueError): return None


def valued(it, p, t, env, want, conv=lambda x: x):
  """does t have the wanted value under an assignment? (None when it cannot be told)"""
  v = evalue(it, p, t, env)
  return None if v is ... else conv(v) == want


def one_fetch(ctx, f, desc, **k):
  """(interp, path, fetch event, request fields) for every returning path of a client function that asks the discovery service once"""
  it = ctx.interp(stop={CL + ".fetch"}, **k)
  for p in ctx.run(it, f):
    fe = [e for e in p.events if e.kind == "call" and e.name == CL + ".fetch"]
    d = dumped(fe[0].args[2]) if fe and len(fe[0].args) > 2 else None
    ok = len(fe) == 1 and fe[0].awaited and is_const(fe[0].args[0], constant(ctx, "NetworkAddresses", "ID_DISCOVERY")) and is_const(fe[0].args[1], desc) and d is not None
    yield it, p, fe[0] if ok else None, d[1] if ok else {}


def c11(ctx):
  R1 = ctx.rule("space", "registering a topic space maps every given topic to an id handed out for it, under an id no other space has, and answers exactly what is stored", 5)
  R2 = ctx.rule("lookup", "the topic space requested by id is the one that is answered, translated or deleted; an unknown one is answered with an error", 6)
  R3 = ctx.rule("space-client", "the topic space functions of a client ask for exactly the given space or topics and return what was answered", 4)
  R4 = ctx.rule("topics", "a broadcaster asks for one new topic per namespace it has none for, announces and keeps it, and answers the topics of exactly the requested namespaces", 5)
  R5 = ctx.rule("broadcast", "data is broadcast on the topic of its namespace, and only when somebody asked for that namespace", 2)
  R6 = ctx.rule("teardown", "however serving ends, the topics of all namespaces are withdrawn and forgotten", 2)
  R7 = ctx.rule("receive", "a broadcast receiver subscribes the topics it was answered, unsubscribes the same ones, and takes in exactly the data messages of them with the namespace they belong to", 6)
  c = ctx.p.cls(DW)
  me = mk("self", DW)
  body = attr(REQ, "body")
  D = consts_of(ctx, CD + ".DiscoveryConstants")
  hs = discovery_handlers(ctx)
  need = {k: ("fetch", D[k]) for k in ("FD_REGISTER_TOPIC_SPACE", "FD_GET_TOPIC_SPACE", "FD_GET_TOPIC_SPACE_TRANSLATION", "FD_DELETE_TOPIC_SPACE")}
  for k in need.values(): ctx.check(k in hs, R2, k[1], "nobody handles the request", c.file)
  S = None
  itx, f0, ps0 = summary(ctx, c, "__init__", stop={"streamtasks.worker.Worker.__init__"})
  start = {e.name: e.args[0].a[0] for p in ps0 for e in p.events if e.kind == "setattr" and e.recv is me and is_const(e.args[0])}
  for it, p, h, subs in hs.get(need["FD_REGISTER_TOPIC_SPACE"], []):
    tag = D["FD_REGISTER_TOPIC_SPACE"]
    for s in subs:
      if s.kind != "return": ctx.fail(R1, tag, f"fails with {show(s.value)[:50]}", c.file, s); continue
      gs = [e for e in s.events if e.kind == "call" and e.name == DW + ".generate_topic_ids"]
      sets = [e for e in s.events if e.kind == "setitem" and e.recv.op == "attr" and e.recv.a[0] is me]
      cnt = {e.name: e.args[0] for e in s.events if e.kind == "setattr" and e.recv is me}
      an = answers(it, s)
      if not ctx.check(len(gs) == 1 and len(sets) == 1 and len(an) == 1, R1, tag, "not one set of ids is handed out, stored and answered", c.file, s): continue
      S = sets[0].recv
      ids = [x for x in subterms(gs[0].args[0]) if mfield(x, "topic_ids", body)]
      if not ctx.check(len(ids) >= 1, R1, tag, "the number of ids does not depend on the requested topics", c.file, s): continue
      for want, given in (([3, 9, 4], [100, 101, 102]), ([8], [50]), ([], [])):
        env = {ids[0]: want, gs[0].res: given}
        ctx.check(valued(it, s, gs[0].args[0], env, len(want)), R1, tag + "[number]", f"{len(want)} topics get another number of ids", c.file, s)
        pairs = dict(zip(want, given))
        ctx.check(valued(it, s, sets[0].args[1], env, pairs, as_dict), R1, tag + "[map]", "a topic is not mapped to an id of its own", c.file, s)
        d = dumped(an[0][1])
        if ctx.check(d is not None, R1, tag + "[answer]", "the answer is no response model", c.file, s):
          ctx.check(valued(it, s, d[1].get("topic_id_map", NONE), env, pairs, as_dict), R1, tag + "[answer]", "another mapping is answered than stored", c.file, s)
          ctx.check(it.norm(d[1].get("id", NONE), s.st) is it.norm(sets[0].args[0], s.st), R1, tag + "[id]", "another id is answered than the space is stored under", c.file, s)
      key = sets[0].args[0]
      fresh = False
      for nm, v in cnt.items():
        used = set()
        cur = start.get(nm)
        if not isinstance(cur, int): continue
        ok = True
        for _ in range(3):
          k = evalue(it, s, key, {attr(me, nm): cur})
          ok = ok and k is not ... and k not in used
          used.add(repr(k) if k is ... else k)
          cur = evalue(it, s, v, {attr(me, nm): cur})
          if cur is ...: ok = False; break
        fresh = fresh or ok
      ctx.check(fresh, R1, tag + "[fresh]", "two topic spaces get the same id", c.file, s)
  if S is None: ctx.fail(R1, "register_topic_space", "no topic space is stored", c.file)
  def space(field): return lambda t: (t.op == "item" and t.a[0] is S and mfield(t.a[1], field, body)) or (get_of(t) is not None and get_of(t)[0] is S and mfield(get_of(t)[1], field, body))
  for k, fld in (("FD_GET_TOPIC_SPACE", "id"), ("FD_GET_TOPIC_SPACE_TRANSLATION", "topic_space_id"), ("FD_DELETE_TOPIC_SPACE", "id")):
    for it, p, h, subs in hs.get(need[k], []):
      tag = D[k]
      sp = space(fld)
      good = 0
      for s in subs:
        if s.kind != "return": ctx.fail(R2, tag, f"fails with {show(s.value)[:50]}", c.file, s); continue
        an = answers(it, s)
        er = [e for e in s.events if e.kind == "call" and e.name == RERR]
        ctx.check(len(an) + len(er) <= 1, R2, tag + "[once]", "answers twice", c.file, s)
        if not an: continue
        good += 1
        if k == "FD_DELETE_TOPIC_SPACE":
          ops = map_ops(it, s, S)
          ctx.check(len(ops) == 1 and ops[0][1] == "del" and ops[0][2] is not None and mfield(ops[0][2], fld, body), R2, tag, "not exactly the requested space is deleted", c.file, s)
          continue
        ctx.check(not map_ops(it, s, S), R2, tag + "[pure]", "asking for a space changes the spaces", c.file, s)
        d = dumped(an[0][1])
        if not ctx.check(d is not None, R2, tag, "the answer is no response model", c.file, s): continue
        if k == "FD_GET_TOPIC_SPACE":
          src = [x for x in subterms(d[1].get("topic_id_map", NONE)) if sp(x)]
          ctx.check(bool(src) and valued(it, s, d[1]["topic_id_map"], {src[0]: {3: 7, 4: 8}}, {3: 7, 4: 8}, as_dict), R2, tag, "another mapping is answered", c.file, s)
          ctx.check(mfield(d[1].get("id", NONE), "id", body), R2, tag + "[id]", "another id is answered", c.file, s)
        else:
          v = d[1].get("topic_id", NONE)
          g = get_of(v)
          ctx.check(g is not None and sp(g[0]) and mfield(g[1], "topic_id", body) and (v.op == "item" or fact(s.facts, mk("is", v, NONE)) is False), R2, tag, f"answers {show(v)[:60]}", c.file, s)
      ctx.check(good > 0, R2, tag + "[answers]", "a known space is never answered", c.file)
  missing(ctx, R2, c, S, {need[k]: D[k] for k in ("FD_GET_TOPIC_SPACE", "FD_GET_TOPIC_SPACE_TRANSLATION", "FD_DELETE_TOPIC_SPACE")})
  # client side
  f = ctx.p.func(CD + ".register_topic_space")
  tp = mk("param", f.node.args.args[1].arg, f.qualname)
  for it, p, e, d in one_fetch(ctx, f, D["FD_REGISTER_TOPIC_SPACE"]):
    if p.kind != "return": continue
    if not ctx.check(e is not None and strip(d.get("topic_ids", NONE)) is tp, R3, f.qualname + "[asks]", "the given topics are not registered once", at(f), p): continue
    src = mk("awaited", e.res)
    v = it.norm(p.value, p.st)
    ok = v.op == "tuple" and len(v.a) == 2 and mfield(v.a[0], "id", src)
    mp = [x for x in subterms(v) if mfield(x, "topic_id_map", src)]
    ctx.check(ok and mp and valued(it, p, v.a[1], {mp[0]: [(3, 7), (4, 8)]}, {3: 7, 4: 8}, as_dict), R3, f.qualname, f"returns {show(v)[:60]}", at(f), p)
  for nm, desc, fl, res in (("get_topic_space", "FD_GET_TOPIC_SPACE", ("id",), "topic_id_map"), ("delete_topic_space", "FD_DELETE_TOPIC_SPACE", ("id",), None), ("get_topic_space_translation", "FD_GET_TOPIC_SPACE_TRANSLATION", ("topic_space_id", "topic_id"), "topic_id")):
    f = ctx.p.func(f"{CD}.{nm}")
    ps_ = [mk("param", a.arg, f.qualname) for a in f.node.args.args[1:]]
    for it, p, e, d in one_fetch(ctx, f, D[desc]):
      if p.kind != "return": continue
      if not ctx.check(e is not None and [d.get(x) for x in fl] == ps_[:len(fl)], R3, f.qualname + "[asks]", "another space is asked for", at(f), p): continue
      src = mk("awaited", e.res)
      if res == "topic_id": ctx.check(mfield(it.norm(p.value, p.st), res, src), R3, f.qualname, f"returns {show(p.value)[:60]}", at(f), p)
      elif res:
        mp = [x for x in subterms(it.norm(p.value, p.st)) if mfield(x, res, src)]
        ctx.check(mp and valued(it, p, p.value, {mp[0]: [(3, 7), (4, 8)]}, {3: 7, 4: 8}, as_dict), R3, f.qualname, f"returns {show(p.value)[:60]}", at(f), p)
  # broadcasting
  b = ctx.p.cls(BC + ".BroadcastingServer")
  bme = mk("self", b.qualname)
  RTI, UOT, SSD = CL + ".request_topic_ids", CL + ".unregister_out_topics", CL + ".send_stream_data"
  f = ctx.method(b, "broadcast")
  ns, data = [mk("param", a.arg, f.qualname) for a in f.node.args.args[1:3]]
  NS = None
  it = ctx.interp(stop={SSD})
  for p in ctx.run(it, f, selfcls=b):
    for a, v in p.facts:
      for x in subterms(a):
        if x.op == "attr" and x.a[0] is bme and (get_of(a) or any(get_of(y) and get_of(y)[0] is x for y in subterms(a)) or a.op == "in" and a.a[1] is x): NS = x
  if not ctx.check(NS is not None, R5, f.qualname, "broadcasting does not depend on who asked for the namespace", at(f)): return
  for p in ctx.run(it, f, selfcls=b):
    sd = [e for e in p.events if e.kind == "call" and e.name == SSD]
    for env, want in (({NS: {"n": 5}, ns: "n"}, 5), ({NS: {"n": 5}, ns: "m"}, None), ({NS: {}, ns: "n"}, None), ({NS: {"n": 0, "m": 1}, ns: "n"}, 0)):
      if not holds(p.facts, env, lambda x: it.norm(x, p.st)): continue
      if want is None: ctx.check(not sd and p.kind == "return", R5, f.qualname + "[unknown]", "data of a namespace nobody asked for is sent", at(f), p)
      else: ctx.check(len(sd) == 1 and sd[0].awaited and valued(it, p, sd[0].args[0], env, want) and sd[0].args[1] is data, R5, f.qualname, "the data is not sent on the topic of its namespace", at(f), p)
  f, hs = handlers(ctx, "run", b, extra_stop={RTI, UOT}, models=RAW)
  for key, v in hs.items():
    for it, p, h, subs in v:
      for s in subs:
        if s.kind != "return": ctx.fail(R4, key[1], f"fails with {show(s.value)[:50]}", b.file, s); continue
        L = next((x for e in s.events if e.kind == "call" for x in [e.res] if x is not None and validated_as(x, body)), None)
        if L is None: L = body
        rq = [e for e in s.events if e.kind == "call" and e.name == RTI]
        an = answers(it, s)
        if not ctx.check(len(an) == 1, R4, key[1], "not one answer", b.file, s): continue
        none = [e for e in s.events if e.kind == "loop"]
        for req, have in ((["a", "b", "c"], {"b": 7}), (["a"], {"a": 3, "z": 4}), (["a", "b"], {"z": 1})):
          mis = [x for x in req if x not in have]
          new = list(range(50, 50 + len(mis)))
          env = {L: req, NS: have}
          if not rq: 
            ctx.check(not holds(s.facts, env, lambda x: it.norm(x, s.st)) or not mis, R4, key[1] + "[asks]", "no topics are requested for new namespaces", b.file, s)
            continue
          apply = rq[0].arg(1, "apply")
          ctx.check(len(rq) == 1 and rq[0].awaited and apply is not None and is_const(apply, True), R4, key[1] + "[announced]", "the topics of new namespaces are not announced", b.file, s)
          ctx.check(valued(it, s, rq[0].args[0], env, len(mis)), R4, key[1] + "[number]", "not one topic per new namespace is requested", b.file, s)
          env2 = {**env, mk("awaited", rq[0].res): new}
          ops = map_ops(it, s, NS)
          el = [(k, v2) for _, w, k, v2 in ops if w == "set"]
          ctx.check(all(w == "set" for _, w, _, _ in ops), R4, key[1] + "[keeps]", "known namespaces are dropped", b.file, s)
          for e, w, k, v2 in ops:
            if k is None:
              ctx.check(valued(it, s, e.args[0], env2, dict(zip(mis, new)), as_dict), R4, key[1] + "[stored]", "a new namespace does not get its topic", b.file, s)
            else:
              zk, zv = strip(k), strip(v2)
              okk = zk.op == "elem" and zv.op == "elem" and zk.a[1] == zv.a[1] and strip(zv.a[0]) is mk("awaited", rq[0].res) and valued(it, s, zk.a[0], env, mis, list)
              ctx.check(okk, R4, key[1] + "[stored]", f"{show(k)[:40]} gets {show(v2)[:40]}", b.file, s)
          if mis and not ops: ctx.check(any(v3 is False and a.op == "truthy" and not root_is(a.a[0], L) for a, v3 in s.facts) or len(subs) > 1, R4, key[1] + "[stored]", "new namespaces are not kept", b.file, s)
          full = {**have, **dict(zip(mis, new))}
          ctx.check(valued(it, s, an[0][1], {**env2, NS: full}, {x: full[x] for x in req}, as_dict), R4, key[1] + "[answer]", "other topics are answered than those of the requested namespaces", b.file, s)
      ctx.check(any(map_ops(it, s, NS) for s in subs), R4, key[1] + "[stored]", "new namespaces are never kept", b.file)
  ctx.check(len(hs) == 1, R4, f.qualname, "nobody handles requests for topics", at(f))
  gettopics = next(iter(hs))[1] if hs else None
  for cfg in ({}, {"cancel": True}):
    it = ctx.interp(stop=SERVE | {RTI, UOT}, **cfg)
    for p in ctx.run(it, f, selfcls=b):
      sv = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == FS + ".run"]
      if not sv: continue
      un = [e for e in p.events[sv[0]:] if e.kind == "call" and e.name == UOT]
      ok = un and un[0].awaited and valued(it, p, un[0].args[0], {NS: {"a": 1, "b": 2}}, {1, 2}, set) and un[0].arg(1, "force") is not None and is_const(un[0].arg(1, "force"), True)
      ctx.check(ok, R6, f.qualname, "topics of namespaces stay announced", at(f), p)
      if not un: continue
      own = p.kind == "raise" and p.events[-1] is un[0]
      re_ = final(p, bme, NS.a[1])
      ctx.check(own or re_ is not None and valued(it, p, re_, {}, {}) or any(w == "del" and k is None for _, w, k, _ in map_ops(it, p, NS)), R6, f.qualname + "[forgotten]", "withdrawn topics are still known", at(f), p)
  # receiving
  r = ctx.p.cls(BC + ".BroadcastReceiver")
  rme = mk("self", r.qualname)
  RIT, UIT = CL + ".register_in_topics", CL + ".unregister_in_topics"
  f = ctx.method(r, "_on_start_recv")
  it = ctx.interp(stop={CL + ".fetch", RIT, UIT})
  MAP = None
  for p in ctx.run(it, f, selfcls=r):
    fe = [e for e in p.events if e.kind == "call" and e.name == CL + ".fetch"]
    rg = [e for e in p.events if e.kind == "call" and e.name == RIT]
    if p.kind != "return": continue
    if not ctx.check(len(fe) == 1 and fe[0].awaited and is_const(fe[0].args[1], gettopics) and fe[0].args[0].op == "attr" and fe[0].args[0].a[0] is rme and any(x.op == "attr" and x.a[0] is rme for x in subterms(fe[0].args[2])), R7, f.qualname, "the topics of its namespaces are not asked for", at(f), p): continue
    env = {mk("awaited", fe[0].res): {"a": 5, "b": 7}}
    sets = [e for e in p.events if e.kind == "setattr" and e.recv is rme and valued(it, p, e.args[0], env, {5: "a", 7: "b"}, as_dict)]
    if not ctx.check(len(sets) >= 1, R7, f.qualname + "[map]", "the answered topics are not kept with their namespaces", at(f), p): continue
    MAP = attr(rme, sets[-1].name)
    ctx.check(len(rg) == 1 and rg[0].awaited and valued(it, p, rg[0].args[0], {**env, MAP: {5: "a", 7: "b"}}, {5, 7}, set), R7, f.qualname + "[subscribes]", "other topics are subscribed", at(f), p)
  if MAP is None: return
  f = ctx.method(r, "_on_stop_recv")
  it = ctx.interp(stop={RIT, UIT})
  for p in ctx.run(it, f, selfcls=r):
    un = [e for e in p.events if e.kind == "call" and e.name == UIT]
    if p.kind == "return" and holds(p.facts, {MAP: {5: "a", 7: "b"}}): ctx.check(len(un) == 1 and valued(it, p, un[0].args[0], {MAP: {5: "a", 7: "b"}}, {5, 7}, set), R7, f.qualname, "other topics are unsubscribed", at(f), p)
  f = ctx.method(r, "on_message")
  m = mk("param", f.node.args.args[1].arg, f.qualname)
  TD = r.qualname + ".transform_data"
  it = ctx.interp(stop={TD})
  got = 0
  for p in ctx.run(it, f, selfcls=r):
    isd = fact(p.facts, mk("isinst", m, MSGNS + "TopicDataMessage"))
    if isd is None and any(a.op == "isinst" and a.a[0] is m and not v and ctx.p.is_sub(ctx.p.cls(MSGNS + "TopicDataMessage"), a.a[1]) for a, v in p.facts): isd = False
    q = [e for e in p.events if e.kind == "call" and call_of(e, "put_nowait")]
    td = [e for e in p.events if e.kind == "call" and e.name == TD]
    for t, known in ((5, True), (9, False)):
      env = {attr(m, "topic"): t, MAP: {5: "a", 7: "b"}}
      if not holds(p.facts, env): continue
      if isd and known:
        got += 1
        ctx.check(len(q) == 1 and len(td) == 1 and q[0].args[0] is td[0].res and valued(it, p, td[0].args[0], env, "a") and td[0].args[1] is attr(m, "data"), R7, f.qualname, "a broadcast is lost or taken in with another namespace", at(f), p)
      else: ctx.check(not q and p.kind == "return", R7, f.qualname + "[other]", "something else than its broadcasts is taken in", at(f), p)
  ctx.check(got > 0, R7, f.qualname, "no broadcast is taken in", at(f))


def root_is(t, L): return contains(t, L)


def missing(ctx, R, c, S, need):
  """the handlers answer an error where the space (or topic) asked for does not exist"""
  if S is None: return
  for m in c.methods.values():
    names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(m.node) if isinstance(n, (ast.Attribute, ast.Name))}
    if "FetchServer" not in names: continue
    def absent(e, st):
      if e.kind == "getitem" and (e.recv is S or e.recv.op == "item" and e.recv.a[0] is S): return ["builtins.KeyError"]
      if e.kind == "delitem" and e.recv is S or e.kind == "call" and call_of(e, "pop") and e.recv is S and len(e.args) < 2: return ["builtins.KeyError"]
      return []
    f, hs = handlers(ctx, m.name, c, extra_stop=GEN | {BCAST, LINK + ".send", CL + ".send_stream_data"}, models=RAW, want_getitem=True, raises_fn=absent)
    for key, tag in need.items():
      for it, p, h, subs in hs.get(key, []):
        bad = [s for s in subs if s.kind == "raise" and not contains(s.value, lambda x: x.op == "exc" and x.a[0] == VALERR)]
        for s in bad: ctx.fail(R, tag + "[unknown]", f"an unknown space ends the request with {show(s.value)[:40]}", c.file, s)
        er = [s for s in subs if any(e.kind == "call" and e.name == RERR for e in s.events)]
        ctx.check(bool(er) or bool(bad), R, tag + "[unknown]", "an unknown space is not answered with an error", c.file)


RULES = {"C06": c06, "C10": c10, "C11": c11}
