"""Requests of the web tunnelled over the network: the two ends of a tunnel, run against modelled tasks, queues and events."""
from __future__ import annotations
import ast
from ..interp import exc
from .web import *

ANN, DEANN = "annotate_value", "deannotate_value"
FREE, ENABLE, DISABLE, CFETCH = CL + ".get_free_port", CL + ".enable_receiver", CL + ".disable_receiver", CL + ".fetch"
RAWI = "streamtasks.net.serialization.RawData.__init__"
TUNNELSTOP = {VT + "." + ANN, VT + "." + DEANN, FREE, ENABLE, DISABLE, CFETCH, SENDTO, RAWI, RECV + ".get"}
ATM = "streamtasks.utils.AsyncTaskManager"


def is_op(f, op): return f.op == "attr" and isinstance(f.a[0], T) and f.a[0].op == op


def ev(it, st, fr, n, f, a, k, res, name, awaited=False):
  return st.event(it._mkev("call", st, fr, n, name=name, recv=f.a[0] if f.op == "attr" else None, args=tuple(a), fterm=f, res=res, awaited=awaited, kw=tuple(k)))


def new(op, heap):
  def make(it, f, a, k, n, st, fr):
    st, i = st.fresh()
    t = mk(op, i)
    st.heap[t] = (op, heap)
    return [("v", t, ev(it, st, fr, n, f, a, k, t, "new " + op))]
  return make


def put(st, t, v):
  s = st.copy()
  s.heap[t] = (s.heap[t][0], v)
  return s


def is_set(it, f, a, k, n, st, fr):
  """a signal that was set is set; one that was not may have been set by someone else"""
  if not is_op(f, "signal"): return None
  if st.heap[f.a[0]][1]: return [("v", TRUE, st)]
  return [("v", x, ev(it, st, fr, n, f, a, k, x, "is_set")) for x in (TRUE, FALSE)]


def set_(it, f, a, k, n, st, fr):
  if not is_op(f, "signal"): return None
  return [("v", NONE, put(ev(it, st, fr, n, f, a, k, NONE, "set"), f.a[0], f.a[1] == "set"))]


def q_put(it, f, a, k, n, st, fr):
  if not is_op(f, "queue"): return None
  return [("v", NONE, put(st, f.a[0], st.heap[f.a[0]][1] + (it.norm(a[0], st),)))]


def q_get(it, f, a, k, n, st, fr):
  if not is_op(f, "queue"): return None
  q = st.heap[f.a[0]][1]
  if q: return [("v", q[0] if f.a[1].endswith("nowait") else mk("got", q[0]), put(st, f.a[0], q[1:]))]
  return [("x", exc("asyncio.QueueEmpty"), st)] if f.a[1].endswith("nowait") else []     # waits for ever


def q_empty(it, f, a, k, n, st, fr):
  if not is_op(f, "queue"): return None
  q = st.heap[f.a[0]][1]
  return [("v", const(not q) if f.a[1] == "empty" else const(len(q)), st)]


def create(it, f, a, k, n, st, fr):
  t = mk("task", a[0])
  return [("v", t, ev(it, st, fr, n, f, a, k, t, "asyncio.create_task"))]


def first_done(it, f, a, k, n, st, fr):
  """one of the tasks runs to its end; the wait itself may be cancelled before"""
  ts = it.exact_items(a[0], st)
  out = [("x", exc(x), st) for x in it.cfg.raises(it._mkev("call", st, fr, n, name="asyncio.wait", args=tuple(a), fterm=f, awaited=True), st)]
  mode = dict(k).get("return_when")
  for t in ts or []:
    if t.op != "task": continue
    s = ev(it, st, fr, n, f, (t, mode or NONE), k, t, "asyncio.wait", True)
    for r in it.await_value(t.a[0], s, fr, n):
      s2 = r[2].copy()
      s2.heap[t] = ("done", (r[0], r[1]))
      s2 = ev(it, s2, fr, n, f, (t,), (), t, "ended")
      d, s2 = it.new_obj("set", [("e", t)], s2)
      rest, s2 = it.new_obj("set", [("e", x) for x in ts if x is not t], s2)
      out.append(("v", mk("tuple", d, rest), s2))
  return out


def result(it, f, a, k, n, st, fr):
  """what a task that ran to its end gave"""
  if not is_op(f, "task") or f.a[0] not in st.heap: return None
  k, r = st.heap[f.a[0]][1]
  return [(k, r, st)] if f.a[1] == "result" else [("v", r if k == "x" else NONE, st)]


WORLD = {"result": result, "exception": result, "asyncio.Event": new("signal", False), "asyncio.Queue": new("queue", ()), "is_set": is_set, "set": set_, "clear": set_, "put": q_put, "put_nowait": q_put, "get_nowait": q_get, "empty": q_empty, "qsize": q_empty,
         "get": q_get, "asyncio.create_task": create, "asyncio.ensure_future": create, "asyncio.wait": first_done}


def messages(ctx, batches):
  """model of Receiver.get: hands out messages with these events, one after the other, then waits for ever"""
  def get(it, f, a, k, n, st, fr):
    i = sum(1 for e in st.events if e.name == RECV + ".get")
    s = ev(it, st, fr, n, f, a, k, const(i), RECV + ".get", True)
    if i >= len(batches): return []
    events, closed = batches[i]
    o, s = it.new_obj("list", [("e", x) for x in events], s)
    return [("v", mk("got", mk("inst", ASG + ".ASGIEventMessage", (("closed", closed), ("events", o)))), s)] + [("x", exc(x), s) for x in it.cfg.raises(s.events[-1], s)]
  return {RECV + ".get": get}


PROXY = '''
async def d(client: Client, endpoint, scope, receive, send):
  await ASGIProxyApp(client, endpoint)(scope, receive, send)
'''
CLIENT, REMOTE = mk("client"), mk("tuple", mk("remote-address"), mk("remote-port"))
E1, E2, E3 = mk("event1"), mk("event2"), mk("event3")


def got(t):
  """what an await of a modelled queue gave"""
  while t.op == "got": t = t.a[0]
  return t


def coded(it, p, t, name):
  """the value this is the annotated (or restored) form of"""
  t = it.norm(t, p.st)
  return got(it.norm(t.a[1][0], p.st)) if t.op == "call" and call_name(t) == name and len(t.a[1]) == 1 and not t.a[2] else None


def message(it, p, e):
  """(endpoint, events, closed) of a message of a tunnel; None when it is something else"""
  end, t = e.arg(0, "endpoint"), e.arg(1, "data")
  if end is None or t is None: return None
  t = it.norm(t, p.st)
  if t.op != "raw" or len(t.a) != 1: return None
  d = dumped(t)
  fs = d[1] if d else {x[0].a[0]: x[1] for x in members(t.a[0])[1] if isinstance(x, tuple) and is_const(x[0])} if members(t.a[0])[0] == "dict" else None
  if not fs or "events" not in fs: return None
  k, ms = members(it.norm(fs["events"], p.st))
  return it.norm(end, p.st), ms if k in ("list", "tuple") else None, fs.get("closed", NONE)


def same_end(t, a, b):
  """is this the endpoint (a, b)?"""
  return t.op == "tuple" and len(t.a) == 2 and got(t.a[0]) is a and got(t.a[1]) is b


def first(p, pred): return next((i for i, e in enumerate(p.events) if pred(e)), None)


def is_call(e, *names): return e.kind == "call" and e.name in names


def port_of(it, p, receiver):
  """[the values a receiver was made with], and its class"""
  t = it.norm(receiver, p.st)
  return (t.a[0], [v for _, v in t.a[1]]) if t.op == "inst" else (None, [])


def tunnel(ctx, src, batches, raises=None, extra=None, **bind):
  f = driver(ctx, ASG, src)
  it = ctx.interp(**{**DEEP, "models": {**WORLD, **RAW, **messages(ctx, batches), **(extra or {})}, "closed_loops": True, "unroll": 5, "raises_fn": raises}, stop=TUNNELSTOP | SERVE | {RESP, RERR, ATM + ".cancel_all"})
  it.types[CLIENT] = ctx.p.cls(CL)
  it.types[REQ] = ctx.p.cls(FETCH + ".FetchRequest"); it.types[REQ2] = it.types[REQ]
  b = {"client": CLIENT, "endpoint": REMOTE, "scope": SCOPE, "receive": RECEIVE, "send": SEND, "seen": SEEN, "event1": E1, "event2": E2, **bind}
  ps = ctx.run(it, f, bind={k: v for k, v in b.items() if any(a.arg == k for a in f.node.args.args)})
  return it, [p for p in ps if not any(a.op == "is" and address(ctx) in a.a and v is True for a, v in p.facts)]     # both ends refuse a client without an address


REQ2 = mk("req2")


def address(ctx):
  """the address of the client"""
  f = driver(ctx, ASG, "def d(client: Client): return client.address")
  it = ctx.interp()
  it.types[CLIENT] = ctx.p.cls(CL)
  return ctx.run(it, f, bind={"client": CLIENT})[0].value


def init_descriptor(ctx):
  """descriptors an app runner answers"""
  return {k[1] for k in handlers(ctx, "run", cls=ASG + ".ASGIAppRunner", extra_stop=TUNNELSTOP)[1] if k[0] == "fetch"}


def a01(ctx):
  R1 = ctx.rule("opened", "the sending end listens on a port of its own before it asks for the tunnel, and tells the other end its address, that port and the scope", 3)
  R2 = ctx.rule("requests", "each event of the request is sent on, once and in order, before the next one is taken, to the port the other end answered with", 3)
  R3 = ctx.rule("responses", "each event of a message is handed to the caller, once and in order", 3)
  R4 = ctx.rule("ended", "the sending end ends when the other end is done, the request is disconnected or something fails, which its caller is told; it then stops its tasks and stops listening", 6)
  R5 = ctx.rule("started", "each request for a tunnel gets an application of its own, with the scope it was sent and a port of its own that is answered, which is listened to before it is used", 4)
  R6 = ctx.rule("served", "the application gets the events sent to its port, in order, and its events are sent in order to the end that asked", 4)
  R7 = ctx.rule("closed", "however an application ends, the other end is told it is done after everything it sent, and its port is given up", 3)
  R8 = ctx.rule("stopped", "when the serving end stops its applications are stopped", 1)
  R9 = ctx.rule("listening", "an end takes exactly the valid messages for its own port", 2)
  proxy(ctx, R1, R2, R3, R4, R9)
  runner(ctx, R5, R6, R7, R8, R9)


def proxy(ctx, R1, R2, R3, R4, R9):
  where = ctx.p.cls(ASG + ".ASGIProxyApp").file
  ds = init_descriptor(ctx)
  classes = set()
  def opened(it, p):
    i = first(p, lambda e: is_call(e, CFETCH))
    if i is None: return None
    e = p.events[i]
    ctx.check(sum(is_call(x, CFETCH) for x in p.events) == 1, R1, "once", "a tunnel is asked for more than once", where, p)
    ctx.check(e.recv is CLIENT and it.norm(e.arg(0, "endpoint"), p.st) is REMOTE, R1, "endpoint", "another endpoint than the given one is asked for a tunnel", where, p)
    d = e.arg(1, "descriptor")
    ctx.check(d is not None and is_const(d) and d.a[0] in ds, R1, "descriptor", "the tunnel is asked for with something the other end does not answer", where, p)
    free = [x.res for x in p.events[:i] if is_call(x, FREE) and x.recv is CLIENT]
    ens = [x for x in p.events[:i] if is_call(x, ENABLE)]
    ports = port_of(it, p, ens[0].args[0]) if ens else (None, [])
    mine = [x for x in free if x in ports[1]]
    if ctx.check(len(mine) == 1, R1, "listening", "the tunnel is asked for before its port, which no one else uses, is listened to", where, p): classes.add((ports[0], port_field_of(it, p, ens[0].args[0], mine[0])))
    m = dumped(it.norm(e.arg(2, "body"), p.st))
    fs = m[1] if m else {}
    ctx.check(fs.get("address") is address(ctx) and mine and fs.get("port") is mine[0], R1, "return", "the other end is not told where to send the events", where, p)
    ctx.check("scope" in fs and coded(it, p, fs["scope"], ANN) is SCOPE, R1, "scope", "the other end is not told the scope of the request", where, p)
    return e

  def port_sent_to(it, p, e, r):
    """is it the port the other end answered with?"""
    a, b = r.a if r.op == "tuple" and len(r.a) == 2 else (None, None)
    return a is REMOTE.a[0] and b is not None and b.op == "attr" and b.a[1] == "port" and (validated_as(b.a[0], e.res) or validated_as(b.a[0], mk("awaited", e.res))) is not None

  def clean(it, p):
    i = first(p, lambda e: is_call(e, ENABLE))
    if i is None: return
    r = p.events[i].args[0]
    ctx.check(any(is_call(e, DISABLE) and e.args and e.args[0] is r for e in p.events[i:]), R4, "listening", "the sending end goes on listening after it ended", where, p)
    for x in [e.res for e in p.events if is_call(e, "asyncio.create_task")]:
      ctx.check(any(is_call(e, "ended") and e.args[0] is x or e.kind == "call" and call_of(e, "cancel") and e.recv is x for e in p.events), R4, "tasks", "a task of the sending end goes on after it ended", where, p)

  it, ps = tunnel(ctx, PROXY, [((E1, E2), NONE), ((), NONE), ((E3,), TRUE), ((E1,), NONE)])
  ctx.check(bool(ps), R1, "open", "no tunnel is asked for", where)
  up = down = 0
  for p in ps:
    e = opened(it, p)
    ctx.check(p.kind == "return" and e is not None, R1, "open", "no tunnel is asked for", where, p)
    clean(it, p)
    if e is None: continue
    waits = [x for x in p.events if is_call(x, "asyncio.wait")]
    if not ctx.check(bool(waits) and all(is_const(x.args[1]) and x.args[1].a[0] == "FIRST_COMPLETED" or x.args[1].op == "ext" and x.args[1].a[0].endswith("FIRST_COMPLETED") for x in waits), R4, "first", "the tunnel does not end with the first of its directions that ends", where, p): continue
    rs, out, sent = calls_to(p, RECEIVE), calls_to(p, SEND), [x for x in p.events if is_call(x, SENDTO)]
    elsewhere = any(is_call(x, "is_set") and x.res is TRUE for x in p.events)
    gots = [x for x in p.events if is_call(x, RECV + ".get")]
    if rs:
      up += 1
      ok = len(sent) == len(rs) and not out
      ctx.check(ok, R2, "each", "an event of the request is not sent on once", where, p)
      for r, s in zip(rs, sent):
        i, j = p.events.index(r), p.events.index(s)
        n = next((p.events.index(x) for x in rs if p.events.index(x) > i), len(p.events))
        m = message(it, p, s)
        ctx.check(i < j < n and m is not None and m[1] is not None and len(m[1]) == 1 and coded(it, p, m[1][0], ANN) in (r.res, mk("awaited", r.res)) and m[2] in (NONE, FALSE), R2, "event", "an event of the request is not sent on as it is, before the next one", where, p)
        ctx.check(m is not None and port_sent_to(it, p, e, m[0]), R2, "to", "an event of the request is sent elsewhere than to the port of the application", where, p)
      def gone(r):
        vs = [next((x for b in (r.res, mk("awaited", r.res)) if (x := type_of_event(p.facts, ty, b)) is not None), None) for ty in ("http.disconnect", "websocket.disconnect")]
        return True if True in vs else False if vs == [False, False] else None
      ctx.check(all(gone(r) is False for r in rs[:-1]), R4, "disconnected", "the tunnel stays open after the request was disconnected", where, p)
      ctx.check(gone(rs[-1]) is True or elsewhere, R4, "goes on", "the request is no longer sent on although nothing ended", where, p)
    elif gots:
      down += 1
      ks = [coded(it, p, x.args[0], DEANN) if x.args else None for x in out]
      n = len(gots)
      want = [E1, E2] if n < 3 else [E1, E2, E3]
      ctx.check(ks == want and not sent, R3, "each", "the events of a message are not handed to the caller, each once and in order", where, p)
      ctx.check(n <= 3, R4, "done", "the tunnel stays open after the other end is done", where, p)
      ctx.check(n == 3 or elsewhere, R4, "goes on", "events are no longer handed to the caller although nothing ended", where, p)
  ctx.check(up > 3, R2, "each", "events of the request are not sent on", where)
  ctx.check(down > 0 and any(len([x for x in p.events if is_call(x, RECV + ".get")]) == 3 for p in ps), R3, "each", "events of messages are not handed to the caller", where)
  FE = FETCH + ".FetchError"
  for what, err, at_ in (("ask", FE, lambda e: is_call(e, CFETCH)), ("ask", CANCEL, lambda e: is_call(e, CFETCH)), ("wait", CANCEL, lambda e: is_call(e, "asyncio.wait")), ("receive", "builtins.OSError", lambda e: e.fterm is RECEIVE), ("send", "builtins.OSError", lambda e: e.fterm is SEND),
                         ("forward", "builtins.OSError", lambda e: is_call(e, SENDTO)), ("answer", VALERR, lambda e: e.kind == "call" and call_of(e, "model_validate")), ("enable", CANCEL, lambda e: e.kind == "call" and e.awaited and e.name == "asyncio.sleep")):
    it, ps = tunnel(ctx, PROXY, [((E1, E2), NONE), ((), TRUE)], lambda e, st: [err] if e.kind == "call" and at_(e) else [])
    some = False
    for p in ps:
      if p.kind != "raise" and what != "enable": continue
      some = True
      ctx.check(p.kind == "return" or p.value.op in ("exc", "inst", "new") and p.value.a[0] == err, R4, f"error[{what}]", "an error of a tunnel reaches its caller as another one", where, p)
      clean(it, p)
    ctx.check(some or what == "enable", R4, f"error[{what}]", "an error of a tunnel does not reach its caller", where)
    for p in ps:
      if p.kind == "return" and what in ("receive", "send", "forward") and any(is_call(x, "ended") and p.st.heap[x.args[0]][1][0] == "x" for x in p.events): ctx.check(False, R4, f"error[{what}]", "an error of a tunnel does not reach its caller", where, p)
  listening(ctx, R9, classes)


def type_of_event(facts, ty, base):
  """last known truth of `the type of the event is ty`, also from how it ends"""
  r = type_is(facts, ty, base)
  for a, v in facts:
    c = a.a[0] if a.op in ("bool", "truthy") else a
    if isinstance(c, T) and c.op == "call" and call_name(c) == "endswith" and len(c.a[1]) == 1 and is_const(c.a[1][0]):
      g = get_of(call_recv(c))
      if g is not None and g[0] is base and g[1] is const("type"):
        x = ty.endswith(c.a[1][0].a[0])
        if v is False and x: r = False
        if v is True: r = x
  return r


def port_field_of(it, p, receiver, port): return next((k for k, v in it.norm(receiver, p.st).a[1] if v is port), None)


def listening(ctx, R, classes):
  for q, field in sorted(classes):
    k = ctx.p.cls(q)
    def wants(it, p, e, raw, f):
      v = it.norm(e.args[0], p.st) if e.args else NONE
      ctx.check(validated(v, raw) is not None, R, f"{k.name}.value", "something else than the received message is taken in", at(f), p)
    accepts(ctx, R, k, field, wants)


RUNNER = '''
async def d(client: Client, app):
  await ASGIAppRunner(client, app).run()
'''
READING = '''
async def d(client: Client, seen, event1, event2):
  async def app(scope, receive, send):
    await seen(scope)
    await seen(await receive())
    await send(event1)
    await seen(await receive())
    await seen(await receive())
    await send(event2)
  await ASGIAppRunner(client, app).run()
'''
ONCE = '''
async def d(client: Client, seen, event1):
  async def app(scope, receive, send):
    await seen(scope)
    await seen(await receive())
    await send(event1)
  await ASGIAppRunner(client, app).run()
'''


def serving(reqs, run=True, ends=(("v", NONE),)):
  """model of a fetch server: its handler gets these requests, then the tasks it started run, one after the other"""
  def serve(it, f, a, k, n, st, fr):
    sts = [st]
    for r in reqs:
      nx = []
      for s in sts:
        p = Path("return", NONE, s)
        for kind, d, h, srv, q in routes(p):
          if kind != "fetch": continue
          expr = ast.parse("0").body[0]
          s1 = s.event(it._mkev("call", s, fr, n, name="request", args=(r,), fterm=mk("request"), awaited=True, kw=()))
          for x in it.call(h, [r], [], expr.value, s1, fr, awaited=True):
            ys = [x] if x[0] == "x" or x[1].op != "coro" else it.await_value(x[1], x[2], fr, expr)
            for y in ys: nx.append(y[2] if y[0] == "v" else y[2].event(it._mkev("call", y[2], fr, n, name="refused", args=(r, y[1]), fterm=mk("request"), awaited=True, kw=())))
      sts = nx
    if run:
      i = 0
      while True:
        nx, more = [], False
        for s in sts:
          ts = [e for e in s.events if is_call(e, "asyncio.create_task")]
          if i >= len(ts): nx.append(s); continue
          more = True
          t = ts[i].res
          s = s.event(it._mkev("call", s, fr, n, name="starts", args=(t,), fterm=mk("request"), awaited=True, kw=()))
          for y in it.await_value(t.a[0], s, fr, ast.parse("0").body[0]): nx.append(y[2].event(it._mkev("call", y[2], fr, n, name="ended", args=(t, const(y[0]), y[1]), fterm=mk("request"), awaited=True, kw=())))
        sts = nx
        i += 1
        if not more: break
    return [(kind, v, s) for s in sts for kind, v in ends]
  return {FS + ".run": serve}


def sliced(p, i):
  """[(task start, events up to its end)] of the i-th task that runs"""
  s = [j for j, e in enumerate(p.events) if is_call(e, "starts")]
  if i >= len(s): return []
  e = next((j for j, x in enumerate(p.events) if j > s[i] and is_call(x, "ended")), len(p.events) - 1)
  return p.events[s[i]:e + 1]


def runner(ctx, R5, R6, R7, R8, R9):
  where = ctx.p.cls(ASG + ".ASGIAppRunner").file
  classes = set()
  def from_init(t, req, name):
    """is this the field of the request for a tunnel?"""
    return t.op == "attr" and t.a[1] == name and validated_as(t.a[0], attr(req, "body")) is not None

  def started(it, p, i, req):
    """the port of the tunnel, when it is asked for as it should be"""
    a = [j for j, e in enumerate(p.events) if is_call(e, "request")]
    b = next((j for j in range(a[i] + 1, len(p.events)) if is_call(p.events[j], "request", "starts")), len(p.events))
    evs = p.events[a[i]:b]
    ans = [e for e in evs if is_call(e, RESP)]
    if not ctx.check(len(ans) == 1 and ans[0].recv is req and bool(ans[0].args) and not any(is_call(e, RERR) for e in evs), R5, "answered", "a request for a tunnel is not answered", where, p): return None
    m = dumped(it.norm(ans[0].args[0], p.st))
    port = m[1].get("port") if m else None
    ctx.check(port is not None and port in [e.res for e in evs if is_call(e, FREE) and e.recv is CLIENT], R5, "port", "a tunnel is answered with a port that is not its own", where, p)
    j = evs.index(ans[0])
    ctx.check(any(is_call(e, "asyncio.create_task", ENABLE) for e in evs[:j]), R5, "before", "a tunnel is answered before it listens", where, p)
    return port

  def run(it, p, i, req, port):
    evs = sliced(p, i)
    ens = [e for e in p.events if is_call(e, ENABLE) and port in port_of(it, p, e.args[0])[1]]
    if not ctx.check(len(ens) == 1, R5, "listens", "the port of a tunnel is not listened to", where, p): return evs
    classes.add((port_of(it, p, ens[0].args[0])[0], port_field_of(it, p, ens[0].args[0], port)))
    k = first(p, lambda e: e is ens[0])
    s = next(j for j, e in enumerate(p.events) if evs and e is evs[0])
    ctx.check(k < s or not any(e.kind == "await" or e.kind == "call" and e.awaited and not e.inlined and e.name != ENABLE for e in p.events[s + 1:k]), R5, "listens", "the port of a tunnel is listened to only after other tasks ran", where, p)
    x = first(p, lambda e: is_call(e, DISABLE) and e.args and e.args[0] is ens[0].args[0])
    ctx.check(x is not None, R7, "port", "the port of an application that ended stays in use", where, p)
    return evs

  def out(it, p, evs, req):
    """what is sent: [(events, closed)]"""
    res = []
    for e in evs:
      if not is_call(e, SENDTO): continue
      m = message(it, p, e)
      ctx.check(m is not None and m[0].op == "tuple" and len(m[0].a) == 2 and from_init(m[0].a[0], req, "address") and from_init(m[0].a[1], req, "port"), R6, "to", "the events of an application are sent elsewhere than to the end that asked for it", where, p)
      res.append(([coded(it, p, x, ANN) for x in m[1] or []], m[2]) if m else (None, NONE))
    return res

  def flat(ms): return [x for es, c in ms for x in (es or [None])] if False else [x for es, c in ms for x in (es if es is not None else [None])]

  def closing(ms): return bool(ms) and ms[-1][1] is TRUE and not any(c is TRUE for _, c in ms[:-1])

  it, ps = tunnel(ctx, READING, [((E1, E2), NONE), ((), NONE), ((E3,), NONE)], extra=serving([REQ]))
  ps = [p for p in ps if p.kind == "return"]
  ctx.check(any(sliced(p, 0) for p in ps), R5, "started", "no application is started for a request", where)
  for p in ps:
    if not sliced(p, 0): ctx.check(False, R5, "started", "no application is started for a request", where, p); continue
    port = started(it, p, 0, REQ)
    if port is None: continue
    evs = run(it, p, 0, REQ, port)
    seen = [it.norm(e.args[0], p.st) for e in evs if e.fterm is SEEN]
    en = first(p, lambda e: is_call(e, ENABLE)); ap = first(p, lambda e: e.fterm is SEEN)
    sc = coded(it, p, seen[0], DEANN) if seen else None
    ctx.check(sc is not None and from_init(sc, REQ, "scope"), R5, "scope", "the application does not get the scope of the request", where, p)
    ctx.check(en is not None and ap is not None and en < ap, R5, "listens", "the application is started before its port is listened to", where, p)
    vals = [coded(it, p, got(x), DEANN) for x in seen[1:]]
    ctx.check(vals == [E1, E2, E3], R6, "in", "the application does not get the events sent to it, each once and in order", where, p)
    ms = out(it, p, evs, REQ)
    ctx.check(flat(ms) == [E1, E2], R6, "out", "the events of the application are not sent, each once and in order", where, p)
    ctx.check(closing(ms), R7, "done", "the other end is not told once that the application is done", where, p)
  if not ps: ctx.check(False, R6, "in", "the application does not get the events sent to it, each once and in order", where)
  # two tunnels: nothing of one shows in the other
  it, ps = tunnel(ctx, ONCE, [((E1, E2), NONE), ((E3,), NONE)], extra=serving([REQ, REQ2]))
  ps = [p for p in ps if p.kind == "return"]
  for p in ps:
    ports = [started(it, p, 0, REQ), started(it, p, 1, REQ2)]
    if None in ports or len({e.args[0] for e in p.events if is_call(e, "starts")}) != 2: ctx.check(False, R5, "own", "two tunnels do not have an application each", where, p); continue
    ctx.check(ports[0] is not ports[1], R5, "own", "two tunnels use one port", where, p)
    for i, (req, want) in enumerate(((REQ, E1), (REQ2, E3))):
      evs = run(it, p, i, req, ports[i])
      seen = [it.norm(e.args[0], p.st) for e in evs if e.fterm is SEEN]
      ctx.check([coded(it, p, got(x), DEANN) for x in seen[1:]] == [want], R6, "own", "an application gets events of another tunnel", where, p)
      sc = coded(it, p, seen[0], DEANN) if seen else None
      ctx.check(sc is not None and from_init(sc, req, "scope"), R5, "own", "an application gets the scope of another tunnel", where, p)
      ms = out(it, p, evs, req)
      ctx.check(flat(ms) == [E1] and closing(ms), R6, "own", "the events of an application are sent into another tunnel", where, p)
  ctx.check(bool(ps), R5, "own", "two tunnels do not have an application each", where)
  # ends
  for err in ("builtins.OSError", CANCEL, FETCH + ".FetchError"):
    it, ps = tunnel(ctx, RUNNER, [], raises_in(err), extra=serving([REQ]), app=HANDLER)
    some = False
    for p in ps:
      evs = sliced(p, 0)
      if p.kind != "return" or not any(e.fterm is HANDLER for e in evs): continue
      port = started(it, p, 0, REQ)
      if port is None: continue
      run(it, p, 0, REQ, port)
      ms = out(it, p, evs, REQ)
      some = some or evs[-1].args[1] is const("x")
      ctx.check(closing(ms) and not flat(ms), R7, "failed" if evs[-1].args[1] is const("x") else "done", "the other end is not told that an application ended", where, p)
    ctx.check(some, R7, "failed", "an error of an application is not passed on to its task", where) if err == CANCEL else None
  # stop
  it, ps = tunnel(ctx, RUNNER, [], extra=serving([REQ], run=False, ends=(("v", NONE), ("x", exc("builtins.OSError")), ("x", exc(CANCEL)))), app=HANDLER)
  for p in ps:
    s = first(p, lambda e: is_call(e, "asyncio.create_task"))
    if s is None: continue
    t = p.events[s].res
    ms_ = [e.recv for e in p.events if e.kind == "call" and e.name == ATM + ".create"]
    ok = any(is_call(e, ATM + ".cancel_all") and e.recv in ms_ or e.kind == "call" and call_of(e, "cancel") and e.recv is t for e in p.events[s:])
    ctx.check(ok, R8, "stopped", "an application goes on when the serving end stops", where, p)
  listening(ctx, R9, classes)


RULES = {"A01": a01}
