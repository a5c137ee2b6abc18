"""The web of the system: requests for tasks, task hosts and registered paths."""
from __future__ import annotations
from .bodies import *

PROXY, RUNNER, TR = ASG + ".ASGIProxyApp", ASG + ".ASGIAppRunner", ASV + ".ASGIRouter.add_transport_route"
IDP, REST, TEXTP, EPP = mk("id"), mk("rest"), mk("content"), mk("endpoint")
REG1, REG2, BACKEND = mk("reg1"), mk("reg2"), mk("backend")
PP = ASV + ".PathPattern"
REGISTRATIONS = '''
async def d(backend, reg1, reg2, scope, receive, send):
  backend.path_registrations = [reg1, reg2]
  await backend.run_asgi_server()
'''


def pattern_of(st, t):
  """the text of a pattern: what the object was made with"""
  for e in reversed(st.events):
    if e.kind == "call" and e.name in (PP, PP + ".__init__") and (e.recv is t or e.res is t) and e.arg(0, "pattern") is not None and is_const(e.arg(0, "pattern")): return str(e.arg(0, "pattern").a[0])
  return None


def cut(pattern):
  """[(is it a parameter, text)] of a pattern"""
  out, rest = [], pattern
  while "{" in rest:
    a, _, rest = rest.partition("{")
    n, _, rest = rest.partition("}")
    if a: out.append((False, a))
    out.append((True, n))
  return out + ([(False, rest)] if rest else [])


def words(t):
  """what a text is made of, in order"""
  if t.op == "path-of": return [x for y in t.a for x in words(y)]
  if t.op == "bin" and t.a[0] == "+": return words(t.a[1]) + words(t.a[2])
  if t.op == "fstr": return [x for y in t.a for x in words(y if isinstance(y, T) else const(y))]
  if t.op == "call" and ext_name(t) == "builtins.str" and len(t.a[1]) == 1: return words(t.a[1][0])
  if t is const(""): return []
  return [t]


FILE = "/a.txt"


def app_web(ctx, asked, metadata):
  """(interp, paths) of a request to the application the backend serves; asked: what the path of the request begins with (None: nothing that is routed), metadata: of the task or host it is for"""
  def run_app(it, f, a, k, n, st, fr):
    r = f.a[0] if f.a and isinstance(f.a[0], T) else None
    es = [e for e in st.events if e.kind == "call" and e.name == RUNNER]
    es = [e for e in es if e.res is r] or es
    if not es: return None
    return call_app(it, es[-1].arg(1, "app"), n, st, fr)
  def match(it, f, a, k, n, st, fr):
    pat = pattern_of(st, f.a[0])
    if pat is None: return None
    ps = cut(pat)
    if len(ps) > 1:
      o, s = it.new_obj("dict", [("kv", const(x.rstrip("*")), REST if x.endswith("*") else IDP) for is_p, x in ps if is_p], st)
      return [("v", o, s)]
    o, s = it.new_obj("dict", [], st)
    at = mk("bool", mk("matches", const(pat)))
    return [("v", o, it.assume(at, True, s)), ("v", NONE, it.assume(at, False, st))]
  def construct(it, f, a, k, n, st, fr):
    pat = pattern_of(st, f.a[0])
    if pat is None or not a: return None
    out = []
    for is_p, x in cut(pat):
      if not is_p: out.append(const(x)); continue
      h = st.heap.get(a[0].a[0]) if a[0].op == "obj" else None
      r = it.dict_lookup(h[1], const(x.rstrip("*")), st) if h is not None and h[0] == "dict" else None
      out.append(r[1] if r is not None and r[0] == "hit" else mk("unknown", const(x)))
    return [("v", mk("path-of", *out), st)]
  def skip(it, f, a, k, n, st, fr):
    path = dict(k).get("path") or next((x for x in a if is_const(x) and isinstance(x.a[0], str)), None)
    if path is None or not is_const(path): return None
    return None if path.a[0] == FILE or asked is not None and cut(str(path.a[0]))[:1] == [(False, asked)] else [("v", NONE, st)]
  def validated(it, f, a, k, n, st, fr):
    if not a or not (asks(a[0], asked)): return None
    o, s = it.new_obj("dict", [("kv", const(x), v) for x, v in metadata.items()], st)
    s, i = s.fresh()
    t = mk("registration", i)
    s = s.copy(); s.store[(t, "metadata")] = o
    return [("v", t, s)]
  models = {RUNNER + ".run": run_app, PP + ".match": match, PP + ".construct": construct, ASV + ".ASGIRouter.add_http_route": skip, ASV + ".ASGIRouter.add_websocket_route": skip, TR: skip, "model_validate": validated}
  f = driver(ctx, TW, REGISTRATIONS)
  it = ctx.interp(**{**DEEP, "stop": {PP + ".__init__", PP + ".match", PP + ".construct", PROXY + ".__init__", PROXY + ".__call__", RUNNER + ".__init__", RUNNER + ".run", ASV + ".static_files_handler", ASV + ".decode_data_uri", ANSWER, CL + ".fetch", "streamtasks.net.utils.str_to_endpoint"}, "models": models})
  it.types[BACKEND] = ctx.p.cls(TWB)
  return it, ctx.run(it, f, bind={"backend": BACKEND, "reg1": REG1, "reg2": REG2, "scope": SCOPE, "receive": RECEIVE, "send": SEND})


def call_app(it, app, n, st, fr):
  out = []
  for x in it.call(app, [SCOPE, RECEIVE, SEND], [], n, st, fr, awaited=True):
    out += [x] if x[0] == "x" or x[1].op != "coro" else it.await_value(x[1], x[2], fr, n)
  return out


def asks(t, asked):
  """is this what was answered about what the request is for?"""
  d = {"/task/": "get_task", "/task-host/": "get_task_host"}.get(asked)
  return any(x.op == "call" and call_name(x) == "fetch" and any(y is const(d) for y in x.a[1]) and contains(x, IDP) for x in subterms(t))


def scope_of(it, p, t):
  """(path, {other keys that were changed}) of the scope of a request that was passed on"""
  base, d = written(it.norm(t, p.st))
  return (d.get(const("path")) if base is SCOPE else None), {k.a[0] for k in d if is_const(k)} - {"path", "state"}


def sliced(t):
  """(what, from, to) of a part of something: 0 and None for its ends"""
  if t.op == "item" and t.a[1].op == "slice": x, lo, hi, step = t.a[0], *t.a[1].a[:3]
  else: return None
  if step not in (NONE, None, const(1)): return None
  return x, 0 if lo in (NONE, None, const(0)) else lo, None if hi in (NONE, None) else hi


def rest_of(t, prefix):
  """is this what is left of the path of the request after a prefix that ends with a slash, which it begins with?"""
  def path(x): return (get_of(x) or (None, None))[0] is SCOPE and get_of(x)[1] is const("path")
  def n(x, off):      # the length of the prefix plus something
    if off == 0: return x.op == "len" and x.a[0] is prefix or x.op == "call" and ext_name(x) == "builtins.len" and x.a[1][0] is prefix
    return x.op == "bin" and (x.a[0] == "-" and n(x.a[1], 0) and x.a[2] is const(-off) or x.a[0] == "+" and any(n(x.a[i], 0) and x.a[3 - i] is const(off) for i in (1, 2)))
  def trimmed(x): return sliced(x) == (prefix, 0, const(-1)) or x.op == "call" and call_name(x) in ("rstrip", "removesuffix") and call_recv(x) is prefix and x.a[1] == (const("/"),)
  def tail(x, off):
    sl = sliced(x)
    if sl is not None and path(sl[0]) and sl[2] is None: return isinstance(sl[1], T) and (n(sl[1], off) or off == -1 and (sl[1].op == "len" and trimmed(sl[1].a[0]) or sl[1].op == "call" and ext_name(sl[1]) == "builtins.len" and trimmed(sl[1].a[1][0])))
    return x.op == "call" and call_name(x) == "removeprefix" and path(call_recv(x)) and len(x.a[1]) == 1 and (x.a[1][0] is prefix if off == 0 else trimmed(x.a[1][0]))
  w = words(t)
  return len(w) == 1 and tail(w[0], -1) or len(w) == 2 and w[0] is const("/") and tail(w[1], 0)


def begins(facts, prefix):
  """is the path of the request known to begin with this prefix: True, False or None"""
  r = None
  for a, v in facts:
    c = a.a[0] if a.op in ("bool", "truthy") else a
    if isinstance(c, T) and c.op == "call" and call_name(c) == "startswith" and c.a[1] == (prefix,) and (get_of(call_recv(c)) or (None, None))[0] is SCOPE and get_of(call_recv(c))[1] is const("path"): r = v
    if c.op == "eq" and prefix in c.a[:2]:
      x = c.a[1] if c.a[0] is prefix else c.a[0]
      sl = sliced(x)
      if sl is not None and (get_of(sl[0]) or (None, None))[0] is SCOPE and sl[1] == 0 and isinstance(sl[2], T) and sl[2].op == "len" and sl[2].a[0] is prefix: r = v
  return r


def proxied(it, p):
  """[(event of the call, endpoint, scope, is it forwarded with the events of the request?)] of the requests passed to another node"""
  made = {e.res: e for e in p.events if e.kind == "call" and e.name == PROXY and e.res is not None}
  out = []
  for e in p.events:
    if e.kind != "call" or len(e.args or ()) != 3 or e.inlined: continue
    r = e.recv if e.recv is not None else e.fterm
    m = next((m for t, m in made.items() if r is t or e.fterm is t or isinstance(e.fterm, T) and contains(e.fterm, t)), None)
    if m is not None: out.append((e, m.arg(1, "remote_endpoint"), e.args[0], forwarded(it, p, e)))
  return out


def strangers(it, p):
  """calls that pass the request to something that is not known"""
  def known_(e): return e.fterm is not None and (e.fterm.op in ("func", "bound", "class", "ext", "new", "closure", "partial") or isinstance(e.fterm, T) and e.fterm.op == "call" and call_name(e.fterm) == "static_files_handler")
  return [e for e in p.events if e.kind == "call" and len(e.args or ()) == 3 and not e.inlined and not known_(e) and (written(it.norm(e.args[0], p.st))[0] is SCOPE)]



def a07(ctx):
  R1 = ctx.rule("owner", "a request for a task or a task host is answered from what it has registered last: by its application, or with the file registered for the path", 12)
  R2 = ctx.rule("rest", "the application gets the request with the rest of the path, everything else as it was, and with its events", 6)
  R3 = ctx.rule("nothing", "a request for something that registered nothing for it is answered as not found", 4)
  R4 = ctx.rule("registered", "a request for a path is answered by the application registered first for what the path begins with, and by the files of the interface if there is none", 4)
  R5 = ctx.rule("registrations", "a registration replaces the one with its id, removing one removes that one only", 2)
  where = ctx.method(ctx.p.cls(TWB), "run_asgi_server").file
  def live(it, ps):
    for p in ps:
      if not arguments_ok(p): continue
      if any(a.op == "is" and v and NONE in a.a[:2] and any(x in a.a for x in (EPP, TEXTP, REST, IDP, REG1, REG2)) for a, v in p.facts): continue
      if type_is(p.facts, "http") is not True and type_is(p.facts, "websocket") is not True: continue
      yield p
  for asked, what in (("/task/", "task"), ("/task-host/", "task host")):
    for md in ({}, {"asgiserver": EPP}, {"label": mk("label"), "file:" + FILE: TEXTP}, {"FILE:" + FILE: TEXTP, "label": mk("label"), "asgiserver": EPP}):
      it, ps = app_web(ctx, asked, md)
      k = what + "[" + ",".join(md) + "]"
      n = files = 0
      for p in live(it, ps):
        n += 1
        st = strangers(it, p)
        if not ctx.check(not st, R1, k, f"a request for a {what} is answered by something that was not asked for with the request", where, p): continue
        px, an = proxied(it, p), [e for e in p.events if e.kind == "call" and e.name == ANSWER]
        here = any(a.op == "bool" and a.a[0].op == "matches" and a.a[0].a[0] is const(FILE) and v for a, v in p.facts) and got_method(p.facts) is True
        ok = [e for e in an if e.arg(0, "status") is const(200)]
        if here and len(md) > 1:
          files += 1
          good = ctx.check(p.kind == "return" and len(ok) == 1 == len(an) and not px and contains(it.norm(ok[0].arg(1, "content"), p.st), TEXTP), R1, k, "the file registered for a path is not what a request for it gets", where, p)
        elif "asgiserver" in md:
          if not ctx.check(p.kind == "return" and len(px) == 1 and not an, R1, k, f"a request is not passed to the application of its {what}", where, p): continue
          e, ep, sc, fw = px[0]
          t = it.norm(ep, p.st) if ep is not None else NONE
          ctx.check(t.op == "call" and call_name(t) == "str_to_endpoint" and t.a[1] == (EPP,), R1, k, f"a request is passed to another endpoint than the one its {what} registered", where, p)
          path, others = scope_of(it, p, sc)
          ctx.check(path is not None and words(path) in ([const("/"), REST],), R2, k, "a request is not passed on with the rest of its path", where, p)
          ctx.check(not others, R2, k, "something else of a request is changed than its path", where, p)
          ctx.check(fw, R2, k, "a request is not passed on with its events", where, p)
        else:
          if type_is(p.facts, "http") is True: ctx.check(len(an) == 1 and an[0].arg(0, "status") is const(404) and not px, R3, k, "a request for something that is not registered is not answered as not found", where, p)
          else: ctx.check(not px and not an, R3, k, "a websocket for something that is not registered is not refused", where, p)
      ctx.check(n >= 2, R1, k, f"requests for a {what} are not handled", where)
      ctx.check(files > 0 or len(md) < 2, R1, k, "a file that is registered is not served for its path", where)
  it, ps = app_web(ctx, None, {})
  n = 0
  for p in live(it, ps):
    px = proxied(it, p)
    bs = [(r, begins(p.facts, attr(r, "path"))) for r in (REG1, REG2)]
    st = strangers(it, p)
    ctx.check(not st, R4, "unknown", "a request is answered by something unknown", where, p)
    n += 1
    want = REG1 if bs[0][1] is True else REG2 if bs[0][1] is False and bs[1][1] is True else None
    if px:
      e, ep, sc, fw = px[0]
      if not ctx.check(len(px) == 1 and want is not None and it.norm(ep, p.st) is attr(want, "endpoint"), R4, "owner", "a request is passed to another application than the one registered for its path", where, p): continue
      path, others = scope_of(it, p, sc)
      ctx.check(path is not None and rest_of(path, attr(want, "path")), R4, "rest", "a request for a registered path is not passed on with the rest of its path", where, p)
      ctx.check(not others and fw, R4, "same", "something else of a request for a registered path is changed than its path", where, p)
    else:
      ctx.check(want is None and all(b is False for _, b in bs), R4, "missed", "a request is not passed to the application registered for its path", where, p)
      ctx.check(any(e.kind == "call" and len(e.args or ()) == 3 and isinstance(e.fterm, T) and e.fterm.op == "call" and call_name(e.fterm) == "static_files_handler" for e in p.events), R4, "files", "a request for no registered path does not reach the files of the interface", where, p)
  ctx.check(n >= 3, R4, "some", "requests for registered paths are not handled", where)
  # registrations
  for fname, kind, key in (("run_fetch_api", "fetch", "register_path"), ("run_signal_api", "signal", "unregister_path")):
    hs = handlers(ctx, fname, ctx.p.cls(TWB))[1]
    base = attr(mk("self", TWB), "path_registrations")
    l = next((v for (kd, d), v in hs.items() if kd == kind), None)
    if not ctx.check(bool(l), R5, key, "paths can not be registered or removed", where): continue
    for it, p, h, subs in l:
      for s in subs:
        if s.kind != "return": continue
        es = [e for e in s.events if e.kind == "setattr" and e.name == "path_registrations"]
        if not ctx.check(len(es) == 1, R5, key, "a registration is not stored or removed", where, s): continue
        body = next((x for x in subterms(C(it, s, es[0].args[0])) if x.op == "body"), None)
        body = body or next((x for a, v in cfacts(it, s) for x in subterms(a) if x.op == "body"), None)
        if not ctx.check(body is not None, R5, key, "the registrations do not depend on what was sent", where, s): continue
        kept, added = new_entries(it, s, es[0], base, C(it, s, es[0].args[0]), "id", attr(body, "id"))
        ctx.check(kept is True and (added == [body] if kind == "fetch" else not added), R5, key, "other registrations are changed, or this one is not", where, s)


def got_method(facts):
  """is it known that this is a GET request?"""
  r = None
  for a, v in facts:
    if a.op in ("in", "eq") and contains(a, lambda x: (get_of(x) or (None, None))[0] is not None and get_of(x)[0] is SCOPE and get_of(x)[1] is const("method")): r = v
  return r


RULES = {"A07": a07}
