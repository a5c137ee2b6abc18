"""Bodies of requests and responses, files that are served, and messages of websockets."""
from __future__ import annotations
from .tunnel import *

HX, WX = "HTTPContext", "WebsocketContext"
D = [mk("data", i) for i in range(6)]
SOURCE, FILE = mk("source"), mk("file")
FROM = attr(SOURCE, "receive")
TEXTD, MIME, CHARSET, STATUSV = mk("text"), mk("mime"), mk("charset"), mk("status-code")


# ---- models: events of a request, buffers, files

def source(script):
  """hands out these events, one after the other, then waits for ever"""
  def receive(it, f, a, k, n, st, fr):
    if f is not FROM: return None
    i = sum(1 for e in st.events if e.name == "receive" and e.fterm is FROM)
    if i >= len(script): return []
    o, s = it.new_obj("dict", [("kv", const(x), y) for x, y in script[i].items()], st)
    s = ev(it, s, fr, n, f, a, k, o, "receive", True)
    return [("v", mk("got", o), s)] + [("x", exc(x), s) for x in it.cfg.raises(s.events[-1], s)]
  return {"receive": receive}


def buffer(it, f, a, k, n, st, fr):
  st, i = st.fresh()
  t = mk("buffer", i)
  x = flat(it, a[0], st) if a else []
  st.heap[t] = ("buffer", (tuple(x), 0 if f.a[0].endswith("BytesIO") else len(x)))
  return [("v", t, st)]


def content(st, t): return st.heap[t][1]


def flat(it, t, st):
  """the pieces of data a value consists of"""
  t = got(t)
  if t.op == "whole": return [y for x in t.a for y in flat(it, x, st)]
  if t.op == "buffer": return list(content(st, t)[0])
  if t.op == "awaited": return flat(it, t.a[0], st) if t.a[0].op in ("whole", "got", "data") else [t]
  if t.op == "bin" and t.a[0] == "+": return flat(it, t.a[1], st) + flat(it, t.a[2], st)
  if is_const(t) and t.a[0] in (b"", ""): return []
  if t.op == "call" and ext_name(t) in ("builtins.bytes", "builtins.bytearray", "builtins.memoryview") and len(t.a[1]) == 1: return flat(it, t.a[1][0], st)
  n = it.norm(t, st)
  return [n] if n is t or n.op not in ("whole", "bin", "got") else flat(it, n, st)


def b_write(it, f, a, k, n, st, fr):
  if not is_op(f, "buffer"): return None
  c, pos = content(st, f.a[0])
  x = tuple(flat(it, a[0], st))
  if pos > len(c): c = c + (mk("gap"),) * (pos - len(c))
  if f.a[1] in ("extend", "append"): pos = len(c)
  new_ = c[:pos] + x if pos == len(c) or not x else c[:pos] + tuple(mk("over", y) for y in x)
  return [("v", NONE, put(st, f.a[0], (new_ if pos == len(c) else new_ + c[len(new_):], pos + len(x))))]


def b_value(it, f, a, k, n, st, fr):
  if not is_op(f, "buffer"): return None
  c, pos = content(st, f.a[0])
  if f.a[1] == "read": return [("v", mk("whole", *c[pos:]), put(st, f.a[0], (c, len(c))))]
  return [("v", mk("whole", *c), st)]


def b_seek(it, f, a, k, n, st, fr):
  if not is_op(f, "buffer"): return None
  c, pos = content(st, f.a[0])
  if f.a[1] == "seek":
    end = len(a) > 1 and is_const(a[1]) and a[1].a[0] == 2 or any(x == "whence" and y is const(2) for x, y in k) or len(a) > 1 and a[1].op == "ext" and a[1].a[0].endswith("SEEK_END")
    return [("v", NONE, put(st, f.a[0], (c, len(c) if end else 0 if a and a[0] is const(0) else len(c) + 1)))]
  if f.a[1] == "clear": return [("v", NONE, put(st, f.a[0], ((), 0)))]
  return [("v", NONE, put(st, f.a[0], (() if a and a[0] is const(0) else c[:pos] if not a or a[0] is NONE else c, pos)))]


def b_join(it, f, a, k, n, st, fr):
  if not (f.op == "attr" and is_const(f.a[0]) and f.a[0].a[0] in (b"", "")): return None
  ex = it.exact_items(a[0], st)
  return None if ex is None else [("v", mk("whole", *[y for x in ex for y in flat(it, x, st)]), st)]


def b_bytes(it, f, a, k, n, st, fr):
  if len(a) != 1: return None
  x = flat(it, a[0], st)
  if x == [a[0]]: return None
  return [("v", x[0] if len(x) == 1 else mk("whole", *x), st)]


BUFFERS = {"io.BytesIO": buffer, "builtins.bytearray": buffer, "write": b_write, "extend": b_write, "getvalue": b_value, "getbuffer": b_value, "read": b_value, "seek": b_seek, "truncate": b_seek, "clear": b_seek, "join": b_join, "builtins.bytes": b_bytes}


def file(chunks, size):
  """a file that is read in parts of a size: these, the last of which may be shorter, then nothing"""
  def read(it, f, a, k, n, st, fr):
    if not is_op(f, "file"): return b_value(it, f, a, k, n, st, fr)
    i = sum(1 for e in st.events if e.name == "read" and e.recv is FILE)
    asked = a[0] if a else const(-1)
    if asked is const(-1) or asked is NONE: r, upto = mk("whole", *[c for c, _ in chunks[i:]]), len(chunks)
    elif is_const(asked) and asked.a[0] == size: r, upto = (chunks[i][0], i + 1) if i < len(chunks) else (const(b""), i)
    else: r, upto = mk("data", "odd", i), i + 1
    s = ev(it, st, fr, n, f, a, k, r, "read")
    for _ in range(upto - i - 1): s = ev(it, s, fr, n, f, a, k, r, "read")
    return [("v", r, s)] + [("x", exc(x), s) for x in it.cfg.raises(s.events[-1], s)]
  def length(it, f, a, k, n, st, fr):
    m = {c: const(l) for c, l in chunks}
    if len(a) == 1 and a[0] in m: return [("v", m[a[0]], st)]
    if len(a) == 1 and a[0].op == "whole": return [("v", const(sum(m[c].a[0] for c in a[0].a)), st)] if all(c in m for c in a[0].a) else None
    return None
  return {"read": read, "builtins.len": length, "builtins.open": lambda it, f, a, k, n, st, fr: [("v", FILE, ev(it, st, fr, n, f, a, k, FILE, "open"))]}


def handled(ctx, src, script=(), extra=None, **bind):
  b = {"scope": SCOPE, "receive": FROM, "send": SEND, "seen": SEEN, **bind}
  it, ps = stack(ctx, src, b, module=ASV, models={**BUFFERS, **source(script), **(extra or {})}, unroll=6, unroll_for=6, closed_loops=True, stop={ASV + ".TransportContext.content_type"})
  return it, ps


def http(body=None, more=None):
  d = {"type": const("http.request")}
  if body is not None: d["body"] = body
  if more is not None: d["more_body"] = const(more)
  return d


READ = '''
async def d(scope, receive, send, seen):
  ctx = HTTPContext(scope, receive, send)
  seen(await ctx.body.read_all())
'''
AGAIN = '''
async def d(scope, receive, send, seen):
  ctx = HTTPContext(scope, receive, send)
  a = await ctx.body.read_all()
  seen(await ctx.body.read_all())
'''
PARTS = '''
async def d(scope, receive, send, seen):
  ctx = HTTPContext(scope, receive, send)
  while not ctx.body.ended:
    x = await ctx.body.read()
    seen(x)
'''
BODIES = [([http(D[0], True), http(D[1], True), http(D[2], False), http(D[3], False)], D[:3], 3), ([http(D[0]), http(D[1])], D[:1], 1), ([http(D[0], False), http(D[1])], D[:1], 1), ([http(more=True), http(D[1], False)], D[1:2], 2),
          ([http(D[0], True), http(const(b""), False)], D[:1], 2), ([http(D[0], True), {"type": const("http.disconnect")}, http(D[1])], D[:1], 2), ([http(const(b""), True), http(D[1], True), http(D[2])], D[1:3], 3), ([http()], [], 1), ([http(D[0], True), http(D[0], False)], [D[0], D[0]], 2), ([{"type": const("http.disconnect")}, http(D[0])], [], 1)]
WRITE = '''
async def d(scope, receive, send, a, b, c):
  ctx = HTTPContext(scope, receive, send)
  ctx.add_response_headers([(b"z", b"w")])
  w = await ctx.respond(201, [(b"x", b"y")])
  %s
'''
WRITES = [("w.write(a)\n  await w.close()", [([0], False)]), ("w.write(a)\n  w.write(b)\n  await w.close()", [([0, 1], False)]), ("w.write(a)\n  w.write(b)\n  await w.flush()\n  w.write(c)\n  await w.close()", [([0, 1], True), ([2], False)]),
          ("w.write(a)\n  await w.flush()\n  await w.close()", [([0], True), ([], False)]), ("w.write(a)\n  await w.flush()\n  w.write(b)\n  await w.flush()\n  w.write(c)\n  await w.flush(True)", [([0], True), ([1], True), ([2], False)]),
          ("w.write(a)\n  w.write(b)\n  await w.flush()\n  w.write(a)\n  await w.flush(close=True)", [([0, 1], True), ([0], False)]), ("await w.close()", [([], False)])]
SEND_ = '''
async def d(scope, receive, send, text, data, mime, charset, status):
  ctx = HTTPContext(scope, receive, send)
  await ctx.%s
'''
FILES = '''
async def d(scope, receive, send, path, mime, size):
  ctx = HTTPContext(scope, receive, send)
  await ctx.respond_file(path, mime_type=mime, buffer_size=size)
'''
TEXT = '''
async def d(scope, receive, send, seen, allowed):
  ctx = HTTPContext(scope, receive, send)
  seen(await ctx.%s)
'''
STATIC = '''
async def d(scope, receive, send, data, mime, charset):
  s = ASGIHandlerStack()
  s.add_handler(static_content_handler(data, mime, charset))
  await s({ **scope, "type": "http" }, receive, send)
'''


def items_of(t):
  """members of a list that may be put together"""
  if t.op == "bin" and t.a[0] == "+":
    a, b = items_of(t.a[1]), items_of(t.a[2])
    return None if a is None or b is None else a + b
  k, ms = members(t)
  if ms is None: return None
  out = []
  for m in ms:
    if isinstance(m, T) and m.op in ("spread", "star"):
      x = items_of(m.a[0])
      if x is None: return None
      out += x
    else: out.append(m)
  return out


def letters(t):
  """pieces of a text: constants joined, and unknown pieces"""
  if t.op == "bin" and t.a[0] == "+": ps = letters(t.a[1]) + letters(t.a[2])
  elif t.op == "fstr": ps = [y for x in t.a for y in letters(x)]
  elif t.op == "call" and ext_name(t) == "builtins.str" and len(t.a[1]) == 1: ps = letters(t.a[1][0])
  elif t.op == "call" and call_name(t) == "encode": ps = letters(call_recv(t))
  elif is_const(t): ps = [t.a[0].decode() if isinstance(t.a[0], bytes) else str(t.a[0])]
  elif t.op == "const": ps = [str(t.a[0])]
  else: ps = [t]
  out = []
  for x in ps:
    if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
    elif x != "": out.append(x)
  return out


def header(t, name):
  """values of a header of a response"""
  hs = items_of(t)
  return [h.a[1] for h in hs or [] if h.op == "tuple" and len(h.a) == 2 and is_const(h.a[0]) and h.a[0].a[0].lower() == name]


def encoded(t):
  """(text, encoding) of encoded text"""
  if t.op == "call" and call_name(t) == "encode": return call_recv(t), t.a[1][0] if t.a[1] else dict(t.a[2]).get("encoding", const("utf-8"))
  if t.op == "call" and ext_name(t) == "builtins.bytes" and len(t.a[1]) == 2: return t.a[1]
  if is_const(t) and isinstance(t.a[0], bytes):
    return const(t.a[0].decode()), const("utf-8")
  return None, None


def charset_of(ps):
  """what a content type names as its charset"""
  for i, x in enumerate(ps):
    if isinstance(x, str) and "charset=" in x:
      rest = x.split("charset=", 1)[1]
      return const(rest) if rest else ps[i + 1] if i + 1 < len(ps) else None
  return None


def same_charset(a, b): return a is b or all(x is not None and is_const(x) and isinstance(x.a[0], str) for x in (a, b)) and a.a[0].lower().replace("_", "-") == b.a[0].lower().replace("_", "-")


def a06(ctx):
  R1 = ctx.rule("read", "the body of a request is all of its parts in order, up to the last one or until its client is gone, and nothing more is taken", 10)
  R2 = ctx.rule("written", "what is written as a response is sent once, in order, and is ended once by its last part", 7)
  R3 = ctx.rule("announced", "a response is sent whole, with its status, and with the length, the type and the charset of what is sent", 8)
  R4 = ctx.rule("files", "a file is sent whole, with its own length and type; one of unknown type is refused before anything is sent", 8)
  R5 = ctx.rule("text", "text of a request is its whole body in the charset it states (utf-8 when it states none), of an allowed type only", 3)
  where = ctx.p.cls(HC).file
  def taken(p): return len(calls_to(p, FROM))
  for i, (s, want, n) in enumerate(BODIES):
    it, ps = handled(ctx, READ, s)
    ctx.check(bool(ps), R1, f"whole[{i}]", "the body of a request is not read to its end", where)
    for p in ps:
      got_ = [flat(it, e.args[0], p.st) for e in calls_to(p, SEEN)]
      ctx.check(p.kind == "return" and got_ == [want], R1, f"whole[{i}]", "the body of a request is not read whole", where, p)
      ctx.check(taken(p) == n, R1, f"taken[{i}]", "more is taken than the body of a request", where, p)
    it, ps = handled(ctx, PARTS, s)
    for p in ps:
      got_ = [y for e in calls_to(p, SEEN) for y in flat(it, e.args[0], p.st)]
      ctx.check(p.kind == "return" and got_ == want and taken(p) == n, R1, f"parts[{i}]", "the parts of a body are not read in order, up to the last one", where, p)
    it, ps = handled(ctx, AGAIN, s)
    for p in ps: ctx.check(p.kind == "return" and taken(p) == n and [flat(it, e.args[0], p.st) for e in calls_to(p, SEEN)] == [[]], R1, f"again[{i}]", "something is taken after the end of a body", where, p)
  for i, (src, want) in enumerate(WRITES):
    it, ps = handled(ctx, WRITE % src, a=D[0], b=D[1], c=D[2])
    ctx.check(bool(ps), R2, f"{i}", "what is written is not sent", where)
    for p in ps:
      es = sends(it, p)
      out = [(flat(it, lookup(t, "body"), p.st) if lookup(t, "body") is not None else [], (lookup(t, "more_body") or FALSE) is TRUE) for e, k, t in es[1:]]
      ctx.check(p.kind == "return" and bool(es) and es[0][1] == "http.response.start" and all(k == "http.response.body" for _, k, _ in es[1:]), R2, f"{i}", "a response does not consist of one start and its parts", where, p)
      ctx.check(out == [([D[x] for x in xs], m) for xs, m in want], R2, f"{i}", "what is written is not sent once, in order, with one last part", where, p)
      ctx.check(bool(es) and lookup(es[0][2], "status") is const(201) and [[letters(x) for x in header(lookup(es[0][2], "headers"), h)] for h in (b"x", b"z")] == [[["y"]], [["w"]]], R2, f"{i}", "a response has another status or other headers", where, p)
  announced(ctx, R3, where)
  filed(ctx, R4, where)
  received(ctx, R5, where)


def response(it, p):
  """(status, headers, sent pieces, ended once)"""
  es = sends(it, p)
  if one_answer(it, p) is None or isinstance(one_answer(it, p), str) and one_answer(it, p) != "an unknown status": return None
  t = es[0][2]
  return lookup(t, "status"), lookup(t, "headers"), [y for _, k, x in es[1:] for y in flat(it, lookup(x, "body") or const(b""), p.st)]


def announced(ctx, R, where):
  text, js = mk("typed", "str"), "application/json"
  for src, status, what, mime, charset in (("respond_status(404)", const(404), None, "text/plain", None), ("respond_json(data)", const(200), "json", js, None), ("respond_json(data, status)", STATUSV, "json", js, None), ("respond_json_string(text)", const(200), text, js, None), ("respond_json_string(text, status)", STATUSV, text, js, None),
                                     ("respond_json_raw(data, status, charset)", STATUSV, D[0], js, CHARSET), ("respond_json_raw(data)", const(200), D[0], js, const("utf-8")), ("respond_text(text)", const(200), text, "text/plain", None), ("respond_text(text, status, mime)", STATUSV, text, MIME, None), ("respond_string(status, text, mime)", STATUSV, text, MIME, None),
                                     ("respond_buffer(status, data, mime)", STATUSV, D[0], MIME, None), ("respond_buffer(status, data, mime, charset)", STATUSV, D[0], MIME, CHARSET), ("static", const(200), D[0], MIME, CHARSET)):
    it, ps = handled(ctx, STATIC if src == "static" else SEND_ % src, text=text, data=D[0], mime=MIME, charset=CHARSET, status=STATUSV)
    ctx.check(bool(ps), R, src, "a response is not sent", where)
    for p in ps:
      if src == "static" and not arguments_ok(p): continue
      r = response(it, p) if p.kind == "return" else None
      if not ctx.check(r is not None and len(r[2]) == 1, R, src, "a response is not sent whole, once", where, p): continue
      st, hs, body = r
      ctx.check(st is status, R, src, "a response has another status than the given one", where, p)
      sent, enc = (body[0], None) if body[0] is D[0] else encoded(body[0])
      ctx.check(sent is what or what == "json" and sent is not None and sent.op == "call" and ext_name(sent) == "json.dumps" and sent.a[1][0] is D[0] or what is None and sent is not None and is_const(sent), R, src, "something else is sent than what was given", where, p)
      ln, ty = header(hs, b"content-length"), header(hs, b"content-type")
      ls = letters(ln[0]) if len(ln) == 1 else []
      ctx.check(len(ls) == 1 and isinstance(ls[0], T) and (x := it.lenof(ls[0])) is not None and flat(it, x, p.st) == body, R, src, "the length a response is announced with is not that of what is sent", where, p)
      cs = letters(ty[0]) if len(ty) == 1 else []
      ctx.check(bool(cs) and (cs[0].startswith(mime) if isinstance(mime, str) and isinstance(cs[0], str) else cs[0] is mime), R, src, "a response is announced with another type", where, p)
      said = charset_of(cs)
      if enc is not None: ctx.check(said is None or same_charset(said, enc), R, src, "a response is announced with another charset than the one of what is sent", where, p)
      elif charset is None: ctx.check(said is None, R, src, "a response is announced with a charset that was not given", where, p)
      else: ctx.check(said is None and any(a.op == "is" and charset in a.a and v or a.op in ("bool", "truthy") and a.a[0] is charset and not v for a, v in p.facts) or said is not None and same_charset(said, charset), R, src, "a response is announced with another charset than the given one", where, p)


def filed(ctx, R, where):
  P, GIVEN = mk("path"), mk("data", "mime")
  for i, ch in enumerate(([(D[0], 5), (D[1], 5), (D[2], 3)], [(D[0], 5), (D[1], 5)], [(D[0], 2)], [])):
    for size in (5, -1):
      for mime in (GIVEN, NONE):
        it, ps = handled(ctx, FILES, extra=file(ch, 5), path=P, mime=mime, size=const(size))
        ctx.check(any(p.kind == "return" for p in ps), R, f"file[{i},{size}]", "a file is not sent, or not to its end", where)
        for p in ps:
          if p.kind == "raise":
            ctx.check(not sends(it, p) and p.value.op in ("exc", "inst", "new") and p.value.a[0] == "builtins.ValueError" and mime is NONE, R, f"file[{i},{size}]", "a file whose type is known is not sent", where, p)
            continue
          r = response(it, p)
          opened_ = [e for e in p.events if is_call(e, "open")]
          if not ctx.check(r is not None and len(opened_) == 1 and opened_[0].args and opened_[0].args[0] is P and (opened_[0].arg(1, "mode") or NONE) is const("rb"), R, f"file[{i},{size}]", "a file is not sent once, as it is", where, p): continue
          st, hs, body = r
          ctx.check(body == [c for c, _ in ch], R, f"file[{i},{size}]", "a file is not sent whole and in order", where, p)
          ln, ty = header(hs, b"content-length"), header(hs, b"content-type")
          ls = letters(ln[0]) if len(ln) == 1 else []
          ctx.check(len(ls) == 1 and isinstance(ls[0], T) and size_of(ls[0], P), R, f"file[{i},{size}]", "the length a file is announced with is not its own", where, p)
          cs = letters(ty[0]) if len(ty) == 1 else []
          ctx.check(bool(cs) and (cs[0] is GIVEN if mime is GIVEN else isinstance(cs[0], T) and contains_(cs[0], P)), R, f"file[{i},{size}]", "a file is announced with another type", where, p)


def contains_(t, x): return any(y is x for y in subterms(t))


def size_of(t, path):
  if t.op == "attr" and t.a[1] == "st_size": return contains_(t, path)
  return t.op == "call" and (ext_name(t) or "").endswith("getsize") and t.a[1][0] is path


def received(ctx, R, where):
  ALLOWED = mk("typed", "set")
  whole = [http(D[0], True), http(D[1], False), http(D[2])]
  for src in ("receive_text(allowed)", "receive_json_raw()", "receive_json()"):
    it, ps = handled(ctx, TEXT % src, whole, allowed=ALLOWED)
    ctx.check(any(p.kind == "return" for p in ps) and any(p.kind == "raise" for p in ps), R, src, "text is received whatever its type", where)
    for p in ps:
      ok = None
      for a, v in p.facts:
        if src == "receive_text(allowed)" and a.op == "in" and a.a[1] is ALLOWED: ok = v
        if src != "receive_text(allowed)" and a.op == "eq" and const("application/json") in a.a: ok = v
      if p.kind == "raise":
        ctx.check(ok is False and p.value.op in ("exc", "inst", "new") and p.value.a[0] == "builtins.ValueError" and not calls_to(p, FROM), R, src, "text of an allowed type is refused" if ok else "text of another type is not refused with an error", where, p)
        continue
      ctx.check(ok is True, R, src, "text of another type than the allowed ones is received", where, p)
      vs = [it.norm(e.args[0], p.st) for e in calls_to(p, SEEN)]
      v = vs[0] if len(vs) == 1 else NONE
      if src == "receive_json()": v = v.a[1][0] if v.op == "call" and ext_name(v) == "json.loads" else NONE
      data, cs = decoded(v)
      ctx.check(data is not None and flat(it, data, p.st) == D[:2], R, src, "the text received is not the whole body", where, p)
      g = get_of(cs) if cs is not None else None
      ctx.check(g is not None and g[1] is const("charset") and cs.op == "call" and len(cs.a[1]) == 2 and same_charset(cs.a[1][1], const("utf-8")) and cs.a[1][1].a[0].lower() in ("utf-8", "utf8"), R, src, "text is not decoded with the charset the request states, utf-8 when it states none", where, p)
  # the names of a content type and of what it states are in whatever case the client wrote them
  cls = ctx.p.cls(ASV + ".TransportContext")
  ct = ctx.method(cls, "content_type", False)
  if ct is not None:
    lowered = lambda x: x.op == "call" and call_name(x) in ("lower", "casefold", "upper")
    it = ctx.interp()
    for p in ctx.run(it, ct, selfcls=cls):
      t = it.norm(p.value, p.st)
      if p.kind != "return" or t.op not in ("tuple", "lit"): continue
      for x in t.a[-2:] if t.op == "tuple" else t.a[1:]:
        if not isinstance(x, T) or x.op in ("lit", "obj") and len(x.a) == 1: continue
        if x.op == "comp" and not any(ok for ok, _, _ in x.a[2]): continue
        ctx.check(contains(x, lowered), R, "case", "the type or charset of a request is not found when it is written in another case", p.loc if hasattr(p, "loc") else where, p)
  it, ps = stack(ctx, TEXT % "receive_text(allowed)", {"receive": FROM, "seen": SEEN, "allowed": ALLOWED}, module=ASV, models={**BUFFERS, **source(whole)}, unroll=6, closed_loops=True, stop={ASV + ".TransportContext.content_type"}, raises_fn=lambda e, st: ["builtins.LookupError"] if is_call(e, "codecs.getdecoder", "codecs.lookup") and e.fterm.op == "ext" else [])
  for p in ps:
    if any(e.kind == "handle" and e.name == "builtins.LookupError" for e in p.events) or p.kind == "raise" and "LookupError" in show(p.value): ctx.check(p.kind == "raise" and p.value.a[0] == "builtins.ValueError", R, "charset", "an unknown charset is not refused as a bad value", where, p)


def decoded(t):
  """(data, charset) of a decoded text"""
  if t.op == "item" and t.a[1] is const(0) and t.a[0].op == "call":
    c = t.a[0]
    f = c.a[0]
    if f.op == "call" and ext_name(f) == "codecs.getdecoder" and c.a[1]: return c.a[1][0], f.a[1][0]
    if f.op == "attr" and f.a[1] == "decode" and f.a[0].op == "call" and ext_name(f.a[0]) == "codecs.lookup" and c.a[1]: return c.a[1][0], f.a[0].a[1][0]
  if t.op == "call" and call_name(t) == "decode" and t.a[1]: return call_recv(t), t.a[1][0]
  if t.op == "call" and ext_name(t) in ("codecs.decode", "builtins.str") and len(t.a[1]) >= 2: return t.a[1][0], t.a[1][1]
  return None, None


# ---- websockets

def frame(k, **x): return {"type": const("websocket." + k), **x}


WS = '''
async def d(scope, receive, send, seen, seen2):
  ctx = WebsocketContext(scope, receive, send)
  %s
'''
LOOP = "async for m in ctx.messages(): seen(m)"


def a08(ctx):
  R1 = ctx.rule("accepted", "a websocket is accepted once, after its client connected, with the headers and the protocol that were given", 6)
  R2 = ctx.rule("received", "a handler gets every message of its client, once and in order, also empty ones, until the client is gone", 6)
  R3 = ctx.rule("sent", "a message is sent as it is, text as text and data as data", 3)
  R4 = ctx.rule("closed", "a websocket is closed with the given code and reason, and one whose client is gone is known to be gone", 4)
  where = ctx.p.cls(ASV + "." + WX).file
  def run_(src, script, **b): return handled(ctx, WS % src, script, **{"seen2": SEEN2, **b})
  C, G = frame("connect"), frame("disconnect")
  hs = "[(b\"X-One\", b\"1\")]"
  for i, src in enumerate((f"await ctx.accept({hs}, \"p\")", f"ctx.add_accept_headers([(b\"x-one\", b\"1\")])\n  await ctx.accept(subprotocol=\"p\")", f"await ctx.accept({hs}, \"p\")\n  await ctx.accept()", f"await ctx.accept({hs}, subprotocol=\"p\")\n  async for m in ctx.messages(): pass", f"ctx.add_accept_headers({hs.lower()})\n  async for m in ctx.messages(subprotocol=\"p\"): pass")):
    it, ps = run_(src, [C, G])
    ctx.check(bool(ps), R1, f"{i}", "a websocket is not accepted", where)
    for p in ps:
      es = sends(it, p)
      if not ctx.check(p.kind == "return" and [k for _, k, _ in es] == ["websocket.accept"], R1, f"{i}", "a websocket is not accepted, or accepted more than once", where, p): continue
      h = header(lookup(es[0][2], "headers") or mk("lit", "list"), b"x-one")
      ctx.check(len(calls_to(p, FROM)) > 0 and p.events.index(calls_to(p, FROM)[0]) < p.events.index(es[0][0]), R1, f"{i}", "a websocket is accepted before its client connected", where, p)
      ctx.check([letters(x) for x in h] == [["1"]] and len(items_of(lookup(es[0][2], "headers")) or ()) == 1, R1, f"{i}", "a websocket is accepted with other headers than those given", where, p)
      ctx.check(lookup(es[0][2], "subprotocol") is const("p"), R1, f"{i}", "a websocket is accepted with another protocol", where, p)
  for i, s in enumerate(([G], [frame("receive", bytes=D[0])])):
    it, ps = run_("await ctx.accept()", s)
    for p in ps: ctx.check(p.kind == "raise" and not sends(it, p), R1, f"refused[{i}]", "a websocket is accepted although its client did not connect", where, p)
  m = lambda d: frame("receive", bytes=d)
  both = lambda d: frame("receive", bytes=d, text=NONE)
  t = lambda d: frame("receive", text=d)
  t2 = lambda d: frame("receive", bytes=NONE, text=d)
  for i, (s, want) in enumerate((([C, m(D[0]), t(D[1]), m(D[0]), G, m(D[2])], [D[0], D[1], D[0]]), ([C, both(D[0]), t2(D[1]), G], D[:2]), ([C, G, m(D[0])], []), ([C, m(const(b"")), m(D[1]), G], [const(b""), D[1]]), ([C, both(const(b"")), t(const("")), G], [const(b""), const("")]), ([C, t2(const("")), m(D[0]), G], [const(""), D[0]]), ([C, t(D[0]), m(D[1]), t(D[2]), m(D[3]), G], D[:4]))):
    for src in (LOOP, "await ctx.accept()\n  " + LOOP):
      it, ps = run_(src, s)
      ctx.check(bool(ps), R2, f"messages[{i}]", "a handler does not get the messages of its client", where)
      for p in ps: ctx.check(p.kind == "return" and [got(it.norm(e.args[0], p.st)) for e in calls_to(p, SEEN)] == want, R2, f"messages[{i}]", "a handler does not get every message of its client, once and in order, until it is gone", where, p)
    it, ps = run_("await ctx.accept()\n  await ctx.receive_disconnect()\n  seen(ctx.connected)", s)
    ctx.check(bool(ps), R4, f"gone[{i}]", "a client that is gone is not noticed", where)
    for p in ps: ctx.check(p.kind == "return" and [e.args[0] for e in calls_to(p, SEEN)] == [FALSE] and len(calls_to(p, FROM)) == next(j for j, x in enumerate(s) if x is G) + 1, R4, f"gone[{i}]", "a client that is gone is not noticed, or taken to be gone too early", where, p)
  it, ps = run_("a = ctx.connected\n  await ctx.accept()\n  seen(a)\n  seen(ctx.connected)\n  await ctx.receive()\n  seen(ctx.connected)\n  await ctx.receive()\n  seen(ctx.connected)", [C, m(D[0]), G])
  for p in ps: ctx.check(p.kind == "return" and [e.args[0] for e in calls_to(p, SEEN)] == [FALSE, TRUE, TRUE, FALSE], R4, "connected", "a websocket is taken to be connected when it is not, or the other way round", where, p)
  for x, key, other in ((mk("typed", "str"), "text", "bytes"), (mk("typed", "bytes"), "bytes", "text"), (const(""), "text", "bytes"), (const(b""), "bytes", "text")):
    it, ps = handled(ctx, (WS % "await ctx.send_message(data)").replace("seen, seen2", "data"), [C], data=x)
    ctx.check(bool(ps), R3, show(x), "a message is not sent", where)
    for p in ps:
      es = sends(it, p)
      ok = p.kind == "return" and [k for _, k, _ in es] == ["websocket.send"]
      ctx.check(ok and lookup(es[0][2], key) is x and (lookup(es[0][2], other) or NONE) is NONE, R3, show(x), f"a message is not sent as it is, as {key}", where, p)
  for src, code, reason in (("close()", const(1000), None), ("close(status)", STATUSV, None), ("close(status, text)", STATUSV, TEXTD), ("close(reason=text)", const(1000), TEXTD), ("close(code=1011)", const(1011), None)):
    it, ps = handled(ctx, (WS % f"await ctx.{src}").replace("seen, seen2", "status, text"), [C], status=STATUSV, text=TEXTD)
    ctx.check(bool(ps), R4, src, "a websocket is not closed", where)
    for p in ps:
      es = sends(it, p)
      ok = p.kind == "return" and [k for _, k, _ in es] == ["websocket.close"] and lookup(es[0][2], "code") is code
      ctx.check(ok, R4, src, "a websocket is not closed once with the given code", where, p)
      given = not any(a.op == "is" and reason in a.a and v for a, v in p.facts)
      if ok and reason is not None and given: ctx.check(lookup(es[0][2], "reason") is reason, R4, src, "a websocket is closed with another reason", where, p)


RULES = {"A06": a06, "A08": a08}


# ---- static files

SERVED = '''
async def d(scope, receive, send, path, index):
  s = ASGIHandlerStack()
  s.add_handler(static_files_handler(path, index))
  await s({ **scope, "type": "http" }, receive, send)
'''
ONE = '''
async def d(scope, receive, send, path, index):
  s = ASGIHandlerStack()
  s.add_handler(static_file_handler(path))
  await s({ **scope, "type": "http" }, receive, send)
'''
ROOT, INDEX = mk("root-path"), (const("index.html"), const("index.htm"))


def resolved(t):
  """what is resolved, or None"""
  if t.op != "call": return None
  if call_name(t) == "resolve" and call_recv(t) is not None: return call_recv(t)
  if call_name(t) == "realpath" and t.a[1]: return t.a[1][0]
  return None


def joined(t):
  """(directory, what is below it) of a path put together"""
  if t.op == "bin" and t.a[0] == "/": return t.a[1], t.a[2]
  if t.op == "call" and call_name(t) == "joinpath" and len(t.a[1]) == 1: return call_recv(t), t.a[1][0]
  if t.op == "call" and (ext_name(t) or "").endswith("path.join") and len(t.a[1]) == 2: return t.a[1]
  if t.op == "call" and (ext_name(t) or "") == "pathlib.Path" and len(t.a[1]) == 2: return t.a[1]
  return None


def plain_path(t):
  """a path without its wrappers"""
  while t.op == "call" and ext_name(t) in ("pathlib.Path", "builtins.str", "os.fspath") and len(t.a[1]) == 1: t = t.a[1][0]
  while (r := resolved(t)) is not None and resolved(plain_path(r)) is not None: t = plain_path(r)     # resolving twice is resolving once
  return t


def same_path(a, b):
  a, b = plain_path(a), plain_path(b)
  if a is b: return True
  ra, rb = resolved(a), resolved(b)
  if ra is not None and rb is not None: return same_path(ra, rb)
  ja, jb = joined(a), joined(b)
  return ja is not None and jb is not None and same_path(ja[0], jb[0]) and ja[1] is jb[1]


def inside(facts, d, x):
  """is it known that a path lies within a directory: True, False or None"""
  r = None
  for a, v in facts:
    c = a.a[0] if a.op in ("bool", "truthy") else a
    if c.op == "in" and same_path(c.a[0], d):
      t = c.a[1]
      while t.op in ("copy", "comp") or t.op == "call" and ext_name(t) in ("builtins.list", "builtins.tuple", "builtins.set"):
        if t.op == "comp": break
        t = t.a[1] if t.op == "copy" else t.a[1][0]
      if t.op == "attr" and t.a[1] == "parents" and same_path(t.a[0], x): r = True if v else r
    elif c.op == "eq" and any(same_path(c.a[i], d) and same_path(c.a[1 - i], x) for i in (0, 1)): r = True if v else r
    elif c.op == "eq" and v and any(same_path(c.a[i], d) and c.a[1 - i].op == "call" and call_name(c.a[1 - i]) == "commonpath" and any(contains_(c.a[1 - i], y) for y in (x, plain_path(x))) for i in (0, 1)): r = True
    elif c.op == "call" and call_name(c) == "is_relative_to" and len(c.a[1]) == 1 and same_path(c.a[1][0], d) and same_path(call_recv(c), x): r = True if v else r
  return r


def told(facts, name, x):
  """what a path was last asked about itself: True, False or None"""
  r = None
  for a, v in facts:
    c = a.a[0] if a.op in ("bool", "truthy") else a
    if isinstance(c, T) and c.op == "call" and (call_name(c) == name and (call_recv(c) is not None and call_recv(c).op != "ext" and same_path(call_recv(c), x) or (ext_name(c) or "").startswith("os.path.") and same_path(c.a[1][0], x)) or (ext_name(c) or "") == "os.path." + name.replace("_", "") and same_path(c.a[1][0], x)): r = v
  return r


def below(t, d):
  """is this the path of the request, within the directory?"""
  r = resolved(plain_path(t))
  j = joined(plain_path(r)) if r is not None else None
  return j is not None and same_path(j[0], d) and from_path(j[1])


def from_path(t):
  """the path of the request without the slashes it begins with"""
  if t.op == "call" and call_name(t) in ("lstrip", "strip", "removeprefix"): t = call_recv(t)
  elif t.op == "item" and t.a[1].op == "slice": t = t.a[0]
  else: return False
  return (get_of(t) or (None, None))[0] is not None and get_of(t)[1] is const("path")


def a03(ctx):
  R1 = ctx.rule("inside", "only files within the directory are served, whatever the path of a request and wherever links lead", 4)
  R2 = ctx.rule("file", "a request gets the file its path names, and one for a directory the first of its index files that exists", 4)
  R3 = ctx.rule("missing", "a request for something that does not exist, that is a directory without an index file, or that lies outside is answered as not found", 4)
  R4 = ctx.rule("one", "a single file is served for every request", 1)
  where = ctx.p.func(ASV + ".static_files_handler").file
  FILE_ = HC + ".respond_file"
  def run_(src): return stack(ctx, src, {"path": ROOT, "index": mk("tuple", *INDEX)}, module=ASV, stop={FILE_}, max_paths=4000)
  def root_of(t): return resolved(plain_path(t)) is not None and plain_path(resolved(plain_path(t))) is ROOT
  for src in (SERVED, ONE):
    it, ps = run_(src)
    n = 0
    for p in ps:
      if not arguments_ok(p) or any(no_path(a, v) for a, v in p.facts): continue
      fs = [e for e in p.events if is_call(e, FILE_)]
      if src is ONE or len(fs) == 1 and root_of(fs[0].args[0]) and any(told(p.facts, k, fs[0].args[0]) is w for k, w in (("is_dir", False), ("is_file", True))):
        ctx.check(p.kind == "return" and len(fs) == 1 and root_of(fs[0].args[0]) and not sends(it, p), R4, "one file", "another file is served than the given one", where, p)
        continue
      dirs = [resolve_of(a, ROOT) for a, v in p.facts]
      d = next((x for x in dirs if x is not None), None)
      if not fs:
        ctx.check(p.kind == "return" and one_answer(it, p) == 404, R3, "not found", "a request for no file is not answered as not found", where, p)
        ctx.check(changed(p.facts) or not found(it, p, d) and (d is None or absent(p.facts, d)), R2, "existing", "a file within the directory is not served", where, p)
        continue
      n += 1
      f = fs[0].args[0]
      ctx.check(p.kind == "return" and len(fs) == 1 and not sends(it, p), R2, "once", "a request is not answered with one file", where, p)
      r = resolved(plain_path(f))
      ok = d is not None and r is not None and inside(p.facts, d, f) is True
      ctx.check(ok, R1, "inside", "a file is served that is not known to lie within the directory, with all links followed", where, p)
      j = joined(plain_path(r)) if r is not None else None
      i = next((i for i, x in enumerate(INDEX) if j is not None and j[1] is x), None)
      if i is not None:
        ctx.check(d is not None and below(j[0], d) and told(p.facts, "is_dir", j[0]) is True, R2, "index", "an index file is served for something else than the directory that was asked for", where, p)
        ctx.check(inside(p.facts, d, j[0]) is True, R1, "inside", "a directory is looked into that is not known to lie within the directory", where, p)
        ctx.check(all(exists(p.facts, j[0], x) is False for x in INDEX[:i]), R2, "first", "an index file is served although an earlier one exists", where, p)
      else: ctx.check(d is not None and below(f, d) and (told(p.facts, "is_dir", f) is False or told(p.facts, "is_file", f) is True), R2, "path", "another file is served than the one the path of the request names", where, p)
      ctx.check(told(p.facts, "exists", f) is True or told(p.facts, "is_file", f) is True, R3, "exists", "a file is served without knowing that it exists", where, p)
      ctx.check(told(p.facts, "is_dir", f) is False or told(p.facts, "is_file", f) is True, R3, "no directory", "a directory is served as a file", where, p)
    if src is SERVED: ctx.check(n >= 2, R2, "some", "no files of the directory are served", where)


def resolve_of(atom, root):
  """the resolved given path in an atom"""
  return next((x for x in subterms(atom) if resolved(x) is not None and plain_path(resolved(x)) is root), None)


def no_path(atom, v):
  """is a path taken for None here?"""
  if atom.op != "is" or NONE not in atom.a[:2]: return False
  x = atom.a[1] if atom.a[0] is NONE else atom.a[0]
  return v and (resolved(x) is not None or joined(x) is not None)


def changed(facts):
  """were files changed while a request was answered: one question answered in two ways"""
  asked = [(call_name(c), call_recv(c), v) for a, v in facts for c in [a.a[0] if a.op in ("bool", "truthy") else a] if isinstance(c, T) and c.op == "call" and not c.a[1] and call_recv(c) is not None and call_name(c) in ("is_dir", "is_file", "exists")]
  if any(n == m and v is not w and same_path(x, y) for n, x, v in asked for m, y, w in asked): return True
  rel = [(call_recv(c), c.a[1][0]) for a, v in facts for c in [a.a[0] if a.op in ("bool", "truthy") else a] if not v and isinstance(c, T) and c.op == "call" and call_name(c) == "is_relative_to" and len(c.a[1]) == 1]
  return any(inside(facts, d, x) is True for x, d in rel)


def exists(facts, d, name):
  """is an index file known to exist: what was asked about a path made of the directory and its name"""
  for a, v in reversed(facts):
    for x in subterms(a):
      j = joined(x)
      if j is not None and j[1] is name and same_path(j[0], d):
        for k in ("exists", "is_file"):
          if (r := told(facts, k, x)) is not None: return r
          y = next((y for y in subterms(a) if resolved(y) is x), None)
          if y is not None and (r := told(facts, k, y)) is not None: return r
  return None


def found(it, p, d):
  """is it known that what the request names is a file within the directory?"""
  if d is None: return False
  for a, v in p.facts:
    for x in subterms(a):
      if resolved(x) is None: continue
      x = plain_path(x)
      j = joined(plain_path(resolved(x)))
      if j is None or not (below(x, d) or j[1] in INDEX): continue
      if inside(p.facts, d, x) is True and not same_path(x, d) and (told(p.facts, "exists", x) is True and told(p.facts, "is_dir", x) is False or told(p.facts, "is_file", x) is True): return True
  return False


def absent(facts, d):
  """is there a reason on this path that a request names no file within the directory?"""
  def outside(x): return inside(facts, d, x) is not True and any(not v and contains_(a, plain_path(x)) and contains_(a, d) for a, v in facts)
  def none(x): return told(facts, "exists", x) is False or told(facts, "is_file", x) is False
  seen = {plain_path(x) for a, v in facts for x in subterms(a) if resolved(x) is not None or joined(x) is not None}
  for x in seen:
    if below(x, d):
      if outside(x) or told(facts, "exists", x) is False or told(facts, "is_file", x) is False and told(facts, "is_dir", x) is False: return True
      if told(facts, "is_dir", x) is False and any(v and a.op == "eq" and any(same_path(a.a[i], d) and same_path(a.a[1 - i], x) for i in (0, 1)) for a, v in facts): return True     # the directory is one
      if told(facts, "is_dir", x) is False and inside(facts, d, x) is True and any(not v and a.op == "in" and same_path(a.a[0], d) and a.a[1].op == "attr" and same_path(a.a[1].a[0], x) for a, v in facts): return True     # the directory is one
      if told(facts, "is_dir", x) is True and all(exists(facts, x, i) is False for i in INDEX): return True
    j = joined(plain_path(resolved(x)) if resolved(x) is not None else x)
    if j is not None and j[1] in INDEX and below(j[0], d) and told(facts, "is_dir", j[0]) is True and (outside(x) or none(x) or told(facts, "is_dir", x) is True) and not all(exists(facts, j[0], i) is False for i in INDEX): return True
  return False


RULES["A03"] = a03
