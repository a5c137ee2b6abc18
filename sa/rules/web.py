"""The web side: applications, routing, static files and requests tunnelled over the network."""
from __future__ import annotations
import ast
from .runs import *

ASG = "streamtasks.asgi"
HANDLER, OTHER = mk("handler"), mk("other-handler")
SRV, NXT, NOHANDLER = ASV + ".ASGIServer", ASV + ".ASGINext", ASV + ".NoHandlerError"
DEEP = {"decorate": True, "recursion": 5, "max_depth": 40, "exc_values": True, "exact_comps": True}


def stack(ctx, src, bind=None, module=TW, **cfg):
  """paths of a driver, with the names handler, other, scope, receive and send bound to fixed terms"""
  f = driver(ctx, module, src)
  it = ctx.interp(**{**DEEP, **cfg})
  b = {"handler": HANDLER, "other": OTHER, "scope": SCOPE, "receive": RECEIVE, "send": SEND, **(bind or {})}
  return it, ctx.run(it, f, bind={k: v for k, v in b.items() if any(a.arg == k for a in f.node.args.args)})


def raises_in(*names, who=HANDLER): return lambda e, st: list(names) if e.kind == "call" and e.fterm is who else []


def lookup(t, key):
  """value a written out mapping has for a key: a term, None when it is not there; (base, key) read for what comes from a mapping spread into it"""
  if t.op == "copy": return lookup(t.a[1], key)
  if t.op == "lit" and t.a[0] == "dict":
    for i, x in reversed(list(enumerate(t.a[1:]))):
      if x.op == "kv":
        if x.a[0] is const(key): return x.a[1]
      elif x.op == "spread":
        y = lookup(x.a[0], key)
        if y is not None: return y
    return None
  if t.op == "bin" and t.a[0] == "|":
    y = lookup(t.a[2], key)
    return y if y is not None else lookup(t.a[1], key)
  if t.op == "call" and ext_name(t) == "builtins.dict" and len(t.a[1]) == 1: return lookup(t.a[1][0], key)
  return mk("item", t, const(key))


def plain(t, key, base=SCOPE):
  """is the value of this key just that of the base mapping?"""
  v = lookup(t, key)
  g = get_of(v) if v is not None else None
  return g is not None and g[0] is base and g[1] is const(key)


def sends(it, p, who=SEND):
  """[(event, type, sent mapping)]"""
  out = []
  for e in p.events:
    if e.kind == "call" and e.fterm is who and e.args:
      t = it.norm(e.args[0], p.st)
      ty = lookup(t, "type")
      out.append((e, ty.a[0] if ty is not None and is_const(ty) else None, t))
  return out


def called(p, who): return [e for e in p.events if e.kind == "call" and e.fterm is who]


def type_is(facts, ty, base=SCOPE):
  """last known truth of `scope type is ty`"""
  r = None
  for a, v in facts:
    if a.op == "eq" and const(ty) in a.a:
      g = get_of(a.a[0] if a.a[1] is const(ty) else a.a[1])
      if g is not None and g[0] is base and g[1] is const("type"): r = v
      continue
    if a.op == "in" and (get_of(a.a[0]) or (None, None))[0] is base and get_of(a.a[0])[1] is const("type"):
      vs = [x.a[0] for x in (a.a[1].a[1:] if a.a[1].op in ("lit",) else a.a[1].a) if isinstance(x, T) and is_const(x)]
      if v is False and ty in vs: r = False
      if v is True and ty not in vs: r = False
      if v is True and vs == [ty]: r = True
  return r


def one_answer(it, p):
  """status when exactly one whole response was sent, None when nothing was, otherwise what is wrong"""
  es = sends(it, p)
  if not es: return None
  kinds = [k for _, k, _ in es]
  if kinds[0] != "http.response.start" or kinds.count("http.response.start") != 1: return "not one start of a response: " + ", ".join(map(str, kinds))
  if set(kinds[1:]) != {"http.response.body"}: return "no body" if len(kinds) == 1 else "events that are no part of a response: " + ", ".join(map(str, kinds))
  more = [lookup(t, "more_body") for _, _, t in es[1:]]
  if any(m is FALSE or m is None for m in more[:-1]) or not (more[-1] is FALSE or more[-1] is None): return "a response that is not ended once, by its last part"
  st = lookup(es[0][2], "status")
  return st.a[0] if st is not None and is_const(st) else "an unknown status"


ERRORS = [("builtins.ValueError", 400, "a bad value"), ("pydantic.ValidationError", 400, "an invalid body"), ("builtins.KeyError", 404, "something that does not exist"),
          ("builtins.IndexError", 500, "an internal error"), ("builtins.RuntimeError", 500, "an internal error"), ("builtins.TypeError", 500, "an internal error"), ("builtins.OSError", 500, "an internal error"), (NOHANDLER, 404, "no route")]
APP = '''
async def d(handler, scope, receive, send, kind):
  s = ASGIServer()
  s.add_handler(asgi_default_http_error_handler)
  s.add_handler(handler)
  await s({ **scope, "type": kind }, receive, send)
'''
FAILING = '''
async def d(scope, receive, send, kind, body, FetchError):
  async def failing(scope, receive, send): raise FetchError(body)
  s = ASGIServer()
  s.add_handler(asgi_default_http_error_handler)
  s.add_handler(failing)
  await s({ **scope, "type": kind }, receive, send)
'''


def a04(ctx):
  R1 = ctx.rule("errors", "a request that fails gets exactly one answer, with the status of what went wrong: bad values 400, missing things and unmatched requests 404, what another node answered, and 500 for everything else; a websocket is closed", 10)
  R2 = ctx.rule("applications", "every application that is served starts with the handler that answers errors", 4)
  R3 = ctx.rule("answered", "every http route answers exactly once on every way through it that does not fail or pass the request on", 20)
  where = ctx.p.func(ASG + ".asgi_default_http_error_handler").file
  FE = FETCH + ".FetchError"
  for x, status, what in ERRORS:
    for kind in ("http", "websocket"):
      it, ps = stack(ctx, APP, {"kind": const(kind)}, raises_fn=raises_in(x))
      ps = [p for p in ps if any(e.kind == "handle" and e.name == x or e.kind == "raise" and x in str(e.name) for e in p.events) or p.kind == "raise"]
      failed(ctx, R1, it, ps, kind, status, x.split(".")[-1], what, where)
  for code, status in (("not_found", 404), ("bad_request", 400), ("general", 500), ("another", 500)):
    for kind in ("http", "websocket"):
      it, ps = stack(ctx, FAILING, {"kind": const(kind), "body": mk("tuple", const(code), const("-")), "FetchError": mk("class", FE)})
      failed(ctx, R1, it, ps, kind, status, f"FetchError[{code}]", f"what another node answered with '{code}'", where)
  for kind in ("http", "websocket", "lifespan"):
    it, ps = stack(ctx, APP, {"kind": const(kind)})
    for p in ps:
      if called(p, HANDLER): ctx.check(p.kind == "return" and not sends(it, p), R1, "handled", "something is sent besides what the handler of a request sends", where, p)
  served(ctx, R2)
  answered_routes(ctx, R3)


def failed(ctx, R, it, ps, kind, status, name, what, where):
  ctx.check(bool(ps), R, f"{name}[{kind}]", "an error of a request is not answered", where)
  for p in ps:
    if kind == "http":
      a = one_answer(it, p)
      ctx.check(p.kind == "return" and a == status, R, f"{name}[http]", f"a request that fails with {what} is answered with {a or 'nothing'} instead of {status}" if p.kind == "return" else "an error of a request is not answered", where, p)
    else: ctx.check(p.kind == "return" and [k for _, k, _ in sends(it, p)] == ["websocket.close"], R, f"{name}[websocket]", "a websocket that fails is not closed once", where, p)


def mentions_name(f, *names): return any(isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Attribute) and x.attr in names for x in ast.walk(f.node))


def served(ctx, R):
  """applications handed to a runner"""
  RUN = ASG + ".ASGIAppRunner"
  n = 0
  for c in list(ctx.p._class_by_qual.values()):
    for f in c.methods.values():
      if not mentions_name(f, "ASGIServer", "ASGIAppRunner"): continue
      try: ps = ctx.run(it := ctx.interp(decorate=True, stop=WEBSTOP | {CL + ".request_address"}, max_paths=4000), f, selfcls=c)
      except Truncated: ctx.note(f"{f.qualname}: too many ways"); continue
      for p in ps:
        for e in p.events:
          if e.kind != "call" or e.name != RUN or e.inlined is None: continue
          app = e.arg(1, "app")
          t = it.norm(app, p.st) if app is not None else NONE
          hs = [fields_(t).get("_handlers")] if t.op == "inst" and t.a[0] == SRV else []
          if not hs: continue
          first = next(iter(added(p, app)), None)
          n += 1
          ctx.check(first is not None and first.op in ("func", "closure") and first.a[0].split(".")[-1] == "asgi_default_http_error_handler", R, f.qualname, "an application is served without answering errors", f.file, p)


def fields_(t): return {k: v for k, v in t.a[1]} if t.op == "inst" else {}


def added(p, app):
  for e in p.events:
    if e.kind == "call" and e.recv is app and e.name == ASV + ".ASGIHandlerStack.add_handler" and e.args: yield e.args[0]


def answered_routes(ctx, R):
  n = 0
  for c in list(ctx.p._class_by_qual.values()):
    for f in c.methods.values():
      if not mentions_name(f, "ASGIRouter", "asgi_router", "router"): continue
      near = lambda g, fr, c=c, f=f: None if g.module.name == ASV or g.parent is not None or g.cls is c or g.cls is None and g.module is f.module else False     # what may hold the request
      try: w = Web(ctx, c.qualname, f.name, inline_fn=near)
      except Truncated: continue
      for (m, path) in w.routes:
        for s in w.subs(m, path) or []:
          if s.kind != "return": continue
          n += 1
          es = [e for e in s.events if e.kind == "call" and e.name in (ANSWER, HC + ".respond_file")]
          on = [e for e in s.events if e.kind == "call" and not e.inlined and e.name not in (ANSWER, HC + ".respond_file") and len(e.args or ()) == 3 and e.args[0] is SCOPE]
          ctx.check(len(es) + len(on) == 1, R, f"{m} {path}", "a request is not answered" if not es else "a request is answered twice", f.file, s)


# ---- routing

SEEN, SEEN2, PATH, METHODS, EVENT, GOT = mk("seen"), mk("seen2"), mk("path"), mk("methods"), mk("event"), mk("got")
ROUTESTOP = {ASV + ".PathPattern.__init__", ASV + ".PathPattern.match", ASV + ".PathPattern.construct"}


def arguments_ok(p): return not any(v is False and any(x.op == "call" and ext_name(x) == "builtins.callable" for x in subterms(a)) for a, v in p.facts)


def written(t):
  """(base mapping, {key: value}) of a mapping written out over another one; the base is None when it is none of those known"""
  if t.op == "copy": return written(t.a[1])
  if t.op == "lit" and t.a[0] == "dict":
    base, d = mk("lit", "dict"), {}
    for i, x in enumerate(t.a[1:]):
      if x.op == "kv": d[x.a[0]] = x.a[1]
      elif x.op == "spread":
        b, dd = written(x.a[0])
        if b is not base and not (b.op == "lit" and len(b.a) == 1):
          if i and d: return t, d
          base = b
        d = {**d, **dd}
    return base, d
  if t.op == "bin" and t.a[0] == "|":
    b, d = written(t.a[1]); b2, d2 = written(t.a[2])
    if not (b2.op == "lit" and len(b2.a) == 1): return t, d
    return b, {**d, **d2}
  if t.op == "call" and ext_name(t) == "builtins.dict" and len(t.a[1]) == 1:
    b, d = written(t.a[1][0])
    return b, {**d, **{const(k): v for k, v in t.a[2]}}
  if t.op == "call" and call_name(t) == "copy" and call_recv(t) is not None: return written(call_recv(t))
  return t, {}


def same_scope(it, p, t, but=(), base=SCOPE):
  """is this the scope of the request, but for the given keys and the state of the handlers?"""
  t = it.norm(t, p.st)
  b, d = written(t)
  for k, v in d.items():
    if k is const("state") or is_const(k) and k.a[0] in but: continue
    g = get_of(v)
    if not (g is not None and g[0] is base and g[1] is k): return False
  if b is not base: return False
  st = lookup(t, "state")
  if st is None: return False
  sb, sd = written(st)
  g = get_of(sb)
  return g is not None and g[0] is base and g[1] is const("state") or sb.op == "lit" and len(sb.a) == 1 and stateless(p.facts, base)


def stateless(facts, base):
  """is it known that the scope has no state?"""
  def it_(x): g = get_of(x); return g is not None and g[0] is base and g[1] is const("state")
  return any(v is False and (a.op in ("truthy", "bool") and it_(a.a[0]) or a.op == "in" and a.a[0] is const("state") and a.a[1] is base) or v is True and a.op == "is" and NONE in a.a and any(map(it_, a.a)) for a, v in facts)


def state(it, p, t, key):
  s = lookup(it.norm(t, p.st), "state")
  return None if s is None else lookup(s, key)


def calls_to(p, *who): return [e for e in p.events if e.kind == "call" and any(e.fterm is w for w in who)]


def forwarded(it, p, e):
  """are receive and send what the request came with, or the ones of a context over them?"""
  def is_(t, base, name):
    t = it.norm(t, p.st)
    return t is base or t.op in ("bound", "closure", "func", "partial")
  return len(e.args) == 3 and is_(e.args[1], RECEIVE, "_wreceive") and is_(e.args[2], SEND, "_wsend")


CHAIN = '''
async def d(handler, other, seen, scope, receive, send, kind):
  async def first(scope, receive, send):
    await seen(scope, receive, send)
    await ContextBase(scope, receive, send).next()
    await seen(scope, receive, send)
  s = ASGIHandlerStack()
  s.add_handler(first)
  s.add_handler(handler)
  s.add_handler(other)
  await s({ **scope, "type": kind }, receive, send)
'''
CHAIN2 = '''
async def d(handler, other, seen, seen2, scope, receive, send, kind):
  @transport_context_handler
  async def first(ctx):
    await seen()
    await ctx.next()
    await seen()
    await ctx.next()
    await seen()
  @transport_context_handler
  async def second(ctx):
    await seen2()
    await ctx.next()
    await seen2()
  s = ASGIHandlerStack()
  s.add_handler(first)
  s.add_handler(second)
  s.add_handler(handler)
  await s({ **scope, "type": kind }, receive, send)
'''
LAST = '''
async def d(seen, scope, receive, send, kind):
  @transport_context_handler
  async def first(ctx):
    await seen()
    await ctx.next()
    await seen()
  s = ASGIHandlerStack()
  s.add_handler(first)
  await s({ **scope, "type": kind }, receive, send)
'''
INNER = '''
async def d(handler, scope, receive, send, kind, NESTED):
  inner = NESTED()
  inner.add_handler(handler)
  s = ASGIHandlerStack()
  s.add_handler(inner)
  await s({ **scope, "type": kind }, receive, send)
'''
TYPED = '''
async def d(seen, other, scope, receive, send, kind, wrap):
  async def h(ctx): await seen(ctx)
  s = ASGIHandlerStack()
  s.add_handler(wrap(h))
  s.add_handler(other)
  await s({ **scope, "type": kind }, receive, send)
'''
THROUGH = '''
async def d(scope, receive, send, kind, event, got):
  @transport_context_handler
  async def first(ctx): await ctx.next()
  async def inner(scope, receive, send):
    await send(event)
    await got(await receive())
  s = ASGIHandlerStack()
  s.add_handler(first)
  s.add_handler(inner)
  await s({ **scope, "type": kind }, receive, send)
'''
PARAMS = '''
async def d(scope, receive, send, kind, path, got):
  @transport_context_handler
  async def h(ctx): await got(ctx.params)
  r = ASGIRouter()
  r.add_transport_route(h, path)
  await r({ **scope, "type": kind }, receive, send)
'''
ROUTED = '''
async def d(handler, other, path, methods, scope, receive, send, kind, method):
  r = ASGIRouter()
  %s
  r.add_handler(other)
  await r({ **scope, "type": kind, "method": method }, receive, send)
'''
REWRITE = '''
async def d(handler, path, scope, receive, send, kind):
  s = ASGIHandlerStack()
  s.add_handler(%s)
  await s({ **scope, "type": kind }, receive, send)
'''
VERBS = ("get", "head", "post", "put", "delete", "connect", "options", "trace", "patch")


def a05(ctx):
  R1 = ctx.rule("order", "handlers are asked in the order they were added; one that passes a request on reaches the next one, however often, and after the last no handler is found", 6)
  R2 = ctx.rule("scope", "a handler gets the scope of the request, unchanged but for the state of the handlers, and what the caller passed is not changed", 6)
  R3 = ctx.rule("types", "a handler for one kind of request gets exactly those, every other one is passed on", 6)
  R4 = ctx.rule("events", "events pass through a handler to the next one and back unchanged", 2)
  R5 = ctx.rule("routes", "a route gets exactly the requests of its kind, its methods and its path, with the parameters of the path; every other one is passed on", 20)
  R6 = ctx.rule("rewritten", "a rewritten request reaches its handler with the path made of its parameters and is otherwise unchanged", 2)
  where = ctx.p.cls(ASV + ".ASGIHandlerStack").file
  def runs(src, kind, stop=(), **bind):
    it, ps = stack(ctx, src, module=ASV, stop=set(stop), bind={"kind": const(kind), "seen": SEEN, "seen2": SEEN2, "path": PATH, "methods": METHODS, "event": EVENT, "got": GOT, **bind})
    return it, [p for p in ps if arguments_ok(p)]

  def unchanged(it, ps, tag):
    for p in ps:
      bad = [e for e in p.events if (e.kind in ("setitem", "delitem") or e.kind == "call" and any(call_of(e, x) for x in ("update", "pop", "setdefault", "clear", "popitem"))) and e.recv is not None and from_request(it, p, e.recv)]
      ctx.check(not bad, R2, tag, "the scope a request came with is changed", where, p)

  for kind in ("http", "websocket", "lifespan"):
    it, ps = runs(CHAIN, kind)
    ctx.check(bool(ps), R1, f"next[{kind}]", "handlers are not asked in the order they were added", where)
    for p in ps:
      es = calls_to(p, SEEN, HANDLER, OTHER)
      ctx.check(p.kind == "return" and [e.fterm for e in es] == [SEEN, HANDLER, SEEN], R1, f"next[{kind}]", "handlers are not asked in the order they were added", where, p)
      for e in es: ctx.check(len(e.args) == 3 and same_scope(it, p, e.args[0], ("type",)) and lookup(it.norm(e.args[0], p.st), "type") is const(kind) and forwarded(it, p, e), R2, f"scope[{kind}]", "a handler does not get the request as it came", where, p)
    unchanged(it, ps, f"caller[{kind}]")
  for kind in ("http", "websocket"):
    it, ps = runs(CHAIN2, kind)
    ctx.check(bool(ps), R1, f"again[{kind}]", "a request that is passed on does not reach the next handler", where)
    for p in ps:
      es = calls_to(p, SEEN, SEEN2, HANDLER)
      ctx.check(p.kind == "return" and [e.fterm for e in es] == [SEEN, SEEN2, HANDLER, SEEN2] * 2 + [SEEN], R1, f"again[{kind}]", "a request that is passed on again does not reach the next handler", where, p)
      for e in calls_to(p, HANDLER): ctx.check(len(e.args) == 3 and same_scope(it, p, e.args[0], ("type",)) and forwarded(it, p, e), R2, f"scope[{kind}]", "a handler does not get the request as it came", where, p)
    unchanged(it, ps, f"caller[{kind}]")
    it, ps = runs(LAST, kind)
    ctx.check(bool(ps), R1, f"last[{kind}]", "after the last handler something else than no handler is found", where)
    for p in ps: ctx.check(p.kind == "raise" and p.value.op in ("exc", "new", "inst") and p.value.a[0] == NOHANDLER and len(calls_to(p, SEEN)) == 1, R1, f"last[{kind}]", "after the last handler something else than no handler is found", where, p)
    for n in ("ASGIHandlerStack", "ASGIRouter", "ASGIServer"):
      it, ps = runs(INNER, kind, NESTED=mk("class", ASV + "." + n))
      for p in ps:
        es = calls_to(p, HANDLER)
        ctx.check(p.kind == "return" and len(es) == 1 and same_scope(it, p, es[0].args[0], ("type",)) and forwarded(it, p, es[0]), R1, f"inner[{n}]", "a handler of an inner application is not asked", where, p)
  for n, kinds in (("http_context_handler", {"http"}), ("websocket_context_handler", {"websocket"}), ("transport_context_handler", {"http", "websocket"})):
    g = ctx.p.func(ASV + "." + n)
    for kind in ("http", "websocket", "lifespan"):
      f = driver(ctx, ASV, TYPED)
      it = ctx.interp(**DEEP); it._regf(g)
      ps = [p for p in ctx.run(it, f, bind={"seen": SEEN, "other": OTHER, "scope": SCOPE, "receive": RECEIVE, "send": SEND, "kind": const(kind), "wrap": mk("func", g.qualname)}) if arguments_ok(p)]
      ctx.check(bool(ps), R3, f"{n}[{kind}]", "a handler does not get the requests it is for", where)
      for p in ps:
        es = calls_to(p, SEEN, OTHER)
        ctx.check(p.kind == "return" and [e.fterm for e in es] == [SEEN if kind in kinds else OTHER], R3, f"{n}[{kind}]", "a handler does not get the requests it is for" if kind in kinds else "a request of another kind is not passed on", where, p)
        for e in es:
          if e.fterm is OTHER: ctx.check(same_scope(it, p, e.args[0], ("type",)) and e.args[1] is RECEIVE and e.args[2] is SEND, R2, f"{n}[{kind}]", "a handler does not get the request as it came", where, p)
          elif e.args:
            t = it.norm(e.args[0], p.st)
            cls = {"http": "HTTPContext", "websocket": "WebsocketContext"}.get(kind, "?")
            ctx.check(t.op == "inst" and t.a[0] == ASV + "." + cls and any(same_scope(it, p, v, ("type",)) for k, v in t.a[1] if v.op == "lit") and {RECEIVE, SEND} <= {v for k, v in t.a[1]}, R2, f"{n}[{kind}]", "a handler gets another request", where, p)
  for kind in ("http", "websocket"):
    it, ps = runs(THROUGH, kind)
    ctx.check(bool(ps), R4, f"through[{kind}]", "events do not pass through", where)
    for p in ps:
      if p.kind == "raise" and not calls_to(p, SEND): ctx.check(False, R4, f"through[{kind}]", "events do not pass through", where, p); continue
      out = [it.norm(e.args[0], p.st) for e in calls_to(p, SEND) if e.args]
      ok = len(out) == 1
      if ok:
        b, d = written(out[0])
        ok = b is EVENT and all(k is const("headers") and same_headers(v) or (get_of(v) or (None,))[0] is EVENT and get_of(v)[1] is k for k, v in d.items())
      got = [it.norm(e.args[0], p.st) for e in calls_to(p, GOT)]
      ctx.check(p.kind == "return" and ok, R4, f"send[{kind}]", "an event of the response is changed, lost or sent twice on its way out", where, p)
      ctx.check(p.kind == "return" and len(got) == 1 and (got[0].a[0] if got[0].op == "awaited" else got[0]) in [e.res for e in calls_to(p, RECEIVE)] and len(calls_to(p, RECEIVE)) == 1, R4, f"receive[{kind}]", "an event of the request is changed or lost on its way in", where, p)
  routes_(ctx, R5, R2, runs, where)
  for n in ("path_rewrite(handler, path)", "path_rewrite_handler(path)(handler)"):
    for kind in ("http", "websocket"):
      it, ps = runs(REWRITE % n, kind, ROUTESTOP, path=const("/x/{a}"))
      ctx.check(bool(ps), R6, f"{n}[{kind}]", "a rewritten request does not reach its handler", where)
      for p in ps:
        es = calls_to(p, HANDLER)
        if not ctx.check(p.kind == "return" and len(es) == 1 and len(es[0].args) == 3, R6, f"{n}[{kind}]", "a rewritten request does not reach its handler", where, p): continue
        t = it.norm(es[0].args[0], p.st)
        v = lookup(t, "path")
        made = [e for e in p.events if e.kind == "call" and e.name == ASV + ".PathPattern.construct"]
        ctx.check(same_scope(it, p, es[0].args[0], ("type", "path")) and forwarded(it, p, es[0]), R6, f"{n}[{kind}]", "a rewritten request is changed besides its path", where, p)
        ok = len(made) == 1 and v in (made[0].res, it.norm(made[0].res, p.st)) and made[0].arg(0, "params") is not None
        if ok:
          ps_ = it.norm(made[0].arg(0, "params"), p.st)
          g = get_of(ps_)
          ok = g is not None and g[1] is const("params") and from_request(it, p, g[0]) or ps_.op == "lit" and len(ps_.a) == 1 and (stateless(p.facts, SCOPE) or any(a.op == "in" and v2 is False for a, v2 in p.facts))
        ctx.check(ok, R6, f"{n}[{kind}]", "the path of a rewritten request is not made of the parameters of the request", where, p)


def from_request(it, p, t):
  """does this belong to the scope the caller passed (not to a copy of it)?"""
  t = it.norm(t, p.st)
  while t is not SCOPE:
    g = get_of(t)
    if g is None: return False
    t = g[0]
  return True


def same_headers(v):
  """headers of an event with those the handler itself added"""
  return v.op == "bin" and v.a[0] == "+" and (get_of(v.a[1]) or (None, None))[0] is EVENT and get_of(v.a[1])[1] is const("headers") and v.a[2].op == "lit" and len(v.a[2].a) == 1 or \
    (get_of(v) or (None, None))[0] is EVENT and get_of(v)[1] is const("headers") or \
    v.op == "lit" and len(v.a) == 2 and v.a[1].op == "spread" and same_headers(v.a[1].a[0])


def routes_(ctx, R, R2, runs, where):
  def one(tag, reg, kind, method, expect, kinds_ok=True):
    it, ps = runs(ROUTED % reg, kind, ROUTESTOP, method=const(method))
    ctx.check(bool(ps), R, tag, "a request a route matches is not handled by it", where)
    hit = False
    for p in ps:
      es = calls_to(p, HANDLER, OTHER)
      made = [e for e in p.events if e.kind == "call" and e.name in (ASV + ".PathPattern", ASV + ".PathPattern.__init__")]
      if not ctx.check(p.kind == "return" and len(es) == 1 and len(es[0].args) == 3, R, tag, "a request is handled by no handler or by more than one", where, p): continue
      ctx.check(any(PATH in (e.args or ()) or PATH in [v for _, v in e.kw or ()] for e in made), R, tag, "a route is registered for another path", where, p)
      m = [e for e in p.events if e.kind == "call" and e.name == ASV + ".PathPattern.match"]
      paths = [get_of(it.norm(e.args[0], p.st)) for e in m if e.args]
      match = known(p.facts, m[-1].res) if m else None
      to = es[0].fterm is HANDLER
      if expect is False: ctx.check(not to, R, tag, "a route handles a request of another kind or method", where, p); continue
      if to:
        hit = True
        ctx.check(match is True and all(g is not None and g[0] is SCOPE and g[1] is const("path") for g in paths), R, tag, "a route handles a request with another path", where, p)
        ctx.check(bool(m) and state(it, p, es[0].args[0], "params") in (m[-1].res, it.norm(m[-1].res, p.st)), R, tag, "a handler gets other parameters than those of the path", where, p)
      else: ctx.check(match is False, R, tag, "a request a route matches is passed on", where, p)
      ctx.check(same_scope(it, p, es[0].args[0], ("type", "method")) and forwarded(it, p, es[0]), R2, tag, "a handler does not get the request as it came", where, p)
    if expect: ctx.check(hit, R, tag, "a request a route matches is not handled by it", where)
  for kind in ("http", "websocket"):
    it, ps = runs(PARAMS, kind, ROUTESTOP)
    for p in ps:
      m = [e for e in p.events if e.kind == "call" and e.name == ASV + ".PathPattern.match"]
      for e in calls_to(p, GOT): ctx.check(bool(m) and it.norm(e.args[0], p.st) in (m[-1].res, it.norm(m[-1].res, p.st)), R, f"params[{kind}]", "a handler gets other parameters than those of the path", where, p)
  for v in VERBS:
    for m in VERBS: one(f"{v}[{m}]", f"r.{v}(path)(handler)", "http", m.upper(), v == m)
    one(f"{v}[websocket]", f"r.{v}(path)(handler)", "websocket", v.upper(), False)
  for ms in ('["get", "POST"]', '("get", "post")', '{ "Get", "POST" }'):
    for reg in (f"r.add_http_route(handler, path, {ms})", f"r.http_route(path, {ms})(handler)"):
      for m in ("GET", "POST", "PUT"): one(f"http_route {ms}[{m}]", reg, "http", m, m != "PUT")
      one(f"http_route {ms}[websocket]", reg, "websocket", "GET", False)
  for reg, kinds in (("add_websocket_route(handler, path)", {"websocket"}), ("websocket_route(path)(handler)", {"websocket"}), ("add_transport_route(handler, path)", {"http", "websocket"}), ("transport_route(path)(handler)", {"http", "websocket"})):
    for kind in ("http", "websocket", "lifespan"): one(f"{reg.split('(')[0]}[{kind}]", "r." + reg, kind, "GET", kind in kinds)


def known(facts, res):
  """is the result of a match known to be (True) or not to be (False) a match?"""
  r = None
  for a, v in facts:
    if a.op == "is" and set(a.a) == {res, NONE}: r = not v
    if a.op == "bool" and a.a[0] is res and v is True: r = True
  return r


# ---- values of the tunnel

VT = ASG + ".ValueTransformer"
TRIP = "def d(X, x, y): return X.deannotate_value(X.annotate_value(%s))\n"
GOES = "def d(X, x, y): return X.annotate_value(%s)\n"
X_, Y_ = mk("x"), mk("y")
CARRIED = {"JSONValueTransformer": {"str", "int", "float", "bool"}, "MessagePackValueTransformer": {"str", "int", "float", "bool", "bytes", "bytearray"}}
LEAVES = ("str", "int", "bool", "float", "bytes", "bytearray")
WHOLE = ("[x, y]", "(x, y)", "{x, y}", "{ 'a': x, 'b': y }", "[]", "()", "{}", "set()", "[x]", "(x,)", "{ 'a': x }", "['bytes', x]", "['list', x, y]", "['none']", "('dict', x)", "{ 'list': x }", "['dict', x]", "[x, y, x]")


def members(t):
  """(kind, members) of a written out container; the members of a mapping are (key, value) pairs"""
  if t.op == "copy": return members(t.a[1])
  if t.op == "tuple": return "tuple", list(t.a)
  if t.op == "lit": return t.a[0], [(x.a[0], x.a[1]) if x.op == "kv" else x for x in t.a[1:]]
  return None, None


def a02(ctx):
  R1 = ctx.rule("leaves", "a value of a carried type arrives as an equal value of its type, one of any other type as nothing", 12)
  R2 = ctx.rule("containers", "a list, tuple, set or mapping arrives as one of its kind, with each of its members, in their order, as it arrives on its own; also when it looks like an encoded value", 20)
  R3 = ctx.rule("carried", "what is sent consists of values the encoding carries and keeps apart: no tuples, sets or objects", 20)
  base = ctx.p.cls(VT)
  where = base.file
  subs = [c for c in ctx.p._class_by_qual.values() if c is not base and base in ctx.p.mro(c) and not c.qualname.startswith("?")]
  for c in subs:
    carried = CARRIED.get(c.name, CARRIED["JSONValueTransformer"]) | {"NoneType"}
    def go(src, **b):
      f = driver(ctx, ASG, src)
      it = ctx.interp(**{**DEEP, "recursion": 1})
      ps = ctx.run(it, f, bind={"X": mk("class", c.qualname), "x": X_, "y": Y_, **b})
      if not ps: raise AnalysisBroken("no path through the encoding of values")
      return it, ps
    def inner(it, p, name, t):
      """the member this is the result of calling the method with, or None"""
      return t.a[1][0] if t.op == "call" and call_name(t) == name and len(t.a[1]) == 1 else None
    def back(it, p, t):
      """the member a decoded member was"""
      a = inner(it, p, "deannotate_value", t)
      return inner(it, p, "annotate_value", a) if a is not None else None
    def sent(it, p, t):
      k, ms = members(t)
      if k == "list": return all(sent(it, p, m) for m in ms)
      if k == "dict": return all(isinstance(m, tuple) and (is_const(m[0]) and isinstance(m[0].a[0], str) or m[0].op in ("elem", "item")) and sent(it, p, m[1]) for m in ms)
      if k is not None: return False
      if is_const(t): return t is NONE or isinstance(t.a[0], (str, int, float, bool)) or isinstance(t.a[0], bytes) and "bytes" in carried
      if t.op == "typed": return t.a[0] in carried
      if t.op == "comp": return t.a[0] in ("list", "dict") and all(not ok or sent_member(it, p, e) for ok, _, e in t.a[2])
      if t.op == "call" and call_name(t) in ("hex", "decode", "isoformat"): return True
      return inner(it, p, "annotate_value", t) is not None
    def sent_member(it, p, e):
      if isinstance(e, T) and e.op == "kv": return sent(it, p, e.a[1])
      if isinstance(e, T) and e.op == "tuple" and len(e.a) == 2: return sent(it, p, e.a[1])
      return isinstance(e, T) and sent(it, p, e)
    for t in LEAVES + ("complex",):
      v = mk("typed", t)
      it, ps = go(TRIP % "x", x=v)
      for p in ps:
        r = it.norm(p.value, p.st)
        want = NONE if t not in LEAVES else v
        ok = p.kind == "return" and (r is want or want is not NONE and leaf(r, v, t))
        ctx.check(ok, R1, f"{c.name}[{t}]", f"a value of type {t} does not arrive as it is" if t in LEAVES else "a value that can not be carried does not arrive as nothing", where, p)
      it, ps = go(GOES % "x", x=v)
      for p in ps: ctx.check(p.kind == "return" and sent(it, p, it.norm(p.value, p.st)), R3, f"{c.name}[{t}]", f"a value of type {t} is sent as something the encoding does not carry", where, p)
    it, ps = go(TRIP % "None")
    for p in ps: ctx.check(p.kind == "return" and it.norm(p.value, p.st) is NONE, R1, f"{c.name}[None]", "nothing does not arrive as nothing", where, p)
    for e in WHOLE:
      it, ps = go("def d(X, x, y): return %s\n" % e)
      k, ms = members(it.norm(ps[0].value, ps[0].st))
      it, ps = go(TRIP % e)
      for p in ps:
        k2, ms2 = members(it.norm(p.value, p.st))
        ok = p.kind == "return" and k2 == k and len(ms) == len(ms2)
        if ok:
          for m, m2 in zip(ms, ms2):
            if k == "dict":
              ok = ok and isinstance(m2, tuple) and m2[0] is m[0]
              m, m2 = m[1], m2[1] if isinstance(m2, tuple) else m2
            b = back(it, p, m2)
            ok = ok and (b is m or is_const(m) and m2 is m)
        ctx.check(ok, R2, f"{c.name} {e}", "a container does not arrive with the members it was sent with", where, p)
      it, ps = go(GOES % e)
      for p in ps: ctx.check(p.kind == "return" and sent(it, p, it.norm(p.value, p.st)), R3, f"{c.name} {e}", "a container is sent as something the encoding does not carry", where, p)
    for t in ("list", "tuple", "set"):
      v = mk("typed", t)
      it, ps = go(TRIP % "x", x=v)
      if not any(it.norm(p.value, p.st).op == "comp" for p in ps): continue     # built member by member: seen for those written out
      some = False
      for p in ps:
        r = it.norm(p.value, p.st)
        none = any(a.op in ("bool", "truthy") and a.a[0] is v and x is False for a, x in p.facts)
        if members(r)[0] == t and not members(r)[1]: ctx.check(p.kind == "return" and none, R2, f"{c.name} {t}", "the members of a container do not arrive", where, p); continue
        ok = p.kind == "return" and r.op == "comp" and r.a[0] == t and all(none if not g else not fs and (b := back(it, p, e)) is not None and b.op == "elem" and b.a[0] is v for g, fs, e in r.a[2])
        some = some or ok and any(g for g, fs, e in r.a[2])
        ctx.check(ok, R2, f"{c.name} {t}", "the members of a container do not arrive as they were sent", where, p)
      ctx.check(some, R2, f"{c.name} {t}", "the members of a container do not arrive as they were sent", where)


def leaf(r, v, t):
  """is this an equal value: the value through its own type, or bytes through a text form and back?"""
  if r.op == "call" and ext_name(r) == "builtins." + t and len(r.a[1]) == 1: return r.a[1][0] is v or leaf(r.a[1][0], v, t)
  if t in ("bytes", "bytearray") and r.op == "call" and (ext_name(r) or "").split(".")[-1] == "fromhex" or t in ("bytes", "bytearray") and call_name(r) == "fromhex":
    h = r.a[1][0]
    return h.op == "call" and call_name(h) == "hex" and call_recv(h) is v and not h.a[1]
  return False


RULES = {"A02": a02, "A04": a04, "A05": a05}
