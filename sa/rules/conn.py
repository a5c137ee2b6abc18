"""Connections: handshake, framing, reconnecting, url schemes."""
from __future__ import annotations
import ast, struct as _struct
from ..interp import State, Frame
from .net import *
from ..tev import ev, holds, Unk

CONN = "streamtasks.connection"
RAWC, LCON = CONN + ".RawConnection", CONN + ".RawConnectionLink"
FAIL = ["builtins.OSError", "builtins.ValueError"]


def ext_call(t, name): return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == name


def own_version(t): return contains(t, lambda s: s.op == "ext" and s.a[0].startswith("importlib.metadata"))


def received(p):
  """the decoded handshake message of the peer"""
  for e in p.events:
    if e.kind == "call" and e.name == "msgpack.unpackb": return e.res
  return None


def entry(lit, key):
  """value of a constant key in a dict literal term (later entries win); None when absent, ... when unknown"""
  if lit.op != "lit": return ...
  r = None
  for x in lit.a[1:]:
    if x.op == "kv":
      if is_const(x.a[0], key): r = x.a[1]
    elif x.op == "spread":
      if not excludes(x.a[0], key): r = ... if r is None or True else r
  return r


def excludes(t, key):
  """is it sure that a dict-valued term has no entry `key`?"""
  while t.op == "copy": t = t.a[1]
  if t.op == "lit": return all(not is_const(x.a[0], key) if x.op == "kv" else excludes(x.a[0], key) for x in t.a[1:] if isinstance(x, T))
  if t.op == "comp":
    for passed, fs, e in t.a[2]:
      if not passed: continue
      k = e.a[0] if e.op == "tuple" else e
      if eq_fact(fs, k, const(key)) is not False and fact(fs, mk("is", k, const(key))) is not False:
        if not any(a.op == "in" and a.a[0] is k and not v and key in [x.a[0] for x in subterms(a.a[1]) if x.op == "const"] for a, v in fs): return False
    return True
  return False


def dict_has(t, key):
  if t.op != "lit": return False
  return any(x.op == "kv" and is_const(x.a[0], key) for x in t.a[1:])


def raises_awaited(kinds): return lambda e, st: kinds if e.kind == "call" and (e.awaited or e.name in ("msgpack.unpackb", "msgpack.packb")) else []


MUT = {"pop", "update", "clear", "setdefault", "popitem", "append", "add", "remove", "discard", "extend", "insert"}


def mutations(p, base):
  """writes below `base` on a path"""
  out = []
  for e in p.events:
    if e.kind in ("setitem", "delitem", "setattr") and e.recv is not None and strip2(e.recv) is base: out.append(e)
    elif e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] in MUT and e.recv is not None and strip2(e.recv) is base: out.append(e)
  return out


def strip2(t):
  while t.op in ("item", "attr") and t.op != "copy": 
    if t.op == "attr": break
    t = t.a[0]
  return t


def k01(ctx):
  R1 = ctx.rule("server-accepts", "the server's handshake completes only on paths where the client's version equals the own version and the client's token equals the configured one", 1)
  R2 = ctx.rule("server-answers", "the answer says accepted exactly on the paths that complete, and never contains the token", 2)
  R3 = ctx.rule("client-checks", "the client's handshake completes only on paths where the server answered with the own version and accepted, and the client sent its own version", 1)
  R4 = ctx.rule("closed-on-failure", "every path on which the handshake fails or is cancelled closes the connection and raises", 4)
  R5 = ctx.rule("gate", "a connection is attached to the switch or returned to the caller only after its handshake completed", 3)
  R6 = ctx.rule("config-unchanged", "handshaking does not change the configured handshake data, which all connections share", 1)
  f = ctx.method(RAWC, "init_server")
  X = mk("param", f.node.args.args[1].arg, f.qualname)
  me = mk("self", RAWC)
  it = ctx.interp()
  ps = ctx.run(it, f, selfcls=ctx.p.cls(RAWC))
  for p in ps:
    M = received(p)
    if M is None: 
      if p.kind == "return": ctx.fail(R1, f.qualname, "completes without reading the client's handshake", f.file, p)
      continue
    done = p.kind == "return"
    if done:
      ver = any(a.op == "eq" and v and any(is_key(x, M, "version") and own_version(y) for x, y in (a.a, a.a[::-1])) for a, v in p.facts)
      ctx.check(ver, R1, f.qualname + "[version]", "completes although the client's version was not found equal to the own one", f.file, p)
      auth = any(a.op == "eq" and v and any(is_key(x, M, "auth") and is_key(y, X, "auth") for x, y in (a.a, a.a[::-1])) for a, v in p.facts)
      ctx.check(auth, R1, f.qualname + "[auth]", "completes although the client's token was not found equal to the configured one", f.file, p)
    for e in p.events:
      if e.kind == "call" and e.name == "msgpack.packb":
        d = it.norm(e.args[0], p.st)
        ctx.check(excludes(d, "auth"), R2, f.qualname + "[token]", "the server's token is sent to the client", e.loc, p)
        acc = entry(d, "accepted")
        if acc is None or acc is ...: ctx.fail(R2, f.qualname, "the answer does not say whether the client is accepted", e.loc, p); continue
        tv = truth_of(it, acc, p.facts, p.st)
        ctx.check(tv is done, R2, f.qualname, f"a client that is {'' if done else 'not '}accepted is told {'it is' if tv else 'it is not' if tv is False else 'something else'}", e.loc, p)
        vv = entry(d, "version")
        ctx.check(isinstance(vv, T) and own_version(vv), R2, f.qualname + "[version]", "the answer does not carry the server's version", e.loc, p)
    for e in mutations(p, X): ctx.fail(R6, f.qualname, f"changes the shared handshake data ({e!r})"[:150], e.loc, p)
    ctx.ok(R6, f.qualname)
    if done: ctx.check(any(e.kind == "call" and e.name == "msgpack.packb" for e in p.events), R2, f.qualname + "[answered]", "completes without answering the client", f.file, p)
  g = ctx.method(RAWC, "init_client")
  it = ctx.interp()
  Y = mk("param", g.node.args.args[1].arg, g.qualname)
  for p in ctx.run(it, g, selfcls=ctx.p.cls(RAWC)):
    M = received(p)
    for e in p.events:
      if e.kind == "call" and e.name == "msgpack.packb":
        d = it.norm(e.args[0], p.st)
        vv = entry(d, "version")
        ctx.check(isinstance(vv, T) and own_version(vv), R3, g.qualname + "[sent]", "the client does not send its version", e.loc, p)
        ctx.check(contains(d, Y), R3, g.qualname + "[data]", "the client's handshake data is not sent", e.loc, p)
    if p.kind != "return": continue
    if not ctx.check(M is not None, R3, g.qualname, "completes without reading the server's answer", g.file, p): continue
    ver = any(a.op == "eq" and v and any(is_key(x, M, "version") and own_version(y) for x, y in (a.a, a.a[::-1])) for a, v in p.facts)
    ctx.check(ver, R3, g.qualname + "[version]", "completes although the server's version was not found equal to the own one", g.file, p)
    acc = any((a.op == "eq" and v and any(is_key(x, M, "accepted") and is_const(y, True) for x, y in (a.a, a.a[::-1]))) or (a.op == "is" and v and is_key(a.a[0], M, "accepted") and a.a[1] is TRUE) or (a.op == "truthy" and v and is_key(a.a[0], M, "accepted")) for a, v in p.facts)
    ctx.check(acc, R3, g.qualname + "[accepted]", "completes although the server did not accept", g.file, p)
  for h in (f, g):
    for cfg in (dict(raises_fn=raises_awaited(FAIL)), dict(cancel=True), dict()):
      it = ctx.interp(**cfg)
      for p in ctx.run(it, h, selfcls=ctx.p.cls(RAWC)):
        if p.kind != "raise": continue
        ctx.check(any(e.kind == "call" and call_of(e, "close") and e.recv is me for e in p.events), R4, h.qualname, f"the handshake fails ({show(p.value)[:40]}) without closing the connection", f"{h.file}:{h.line}", p)
  # gates
  for fn in handshake_users(ctx):
    it = ctx.interp(stop={RAWC + ".init_server", RAWC + ".init_client", SW + ".add_link", CONN + ".extract_connection_data_from_url"})
    for p in ctx.run(it, fn, **({"selfcls": fn.cls} if fn.cls else {})):
      outs = [(e, e.arg(0, "link"), i) for i, e in enumerate(p.events) if e.kind == "call" and e.name == SW + ".add_link"]
      if p.kind == "return" and isinstance(p.value, T) and it.type_of(p.value) is ctx.p.cls(LCON): outs.append((None, p.value, len(p.events)))
      for e, link, i in outs:
        conn = link_conn(it, link, p)
        if conn is None: ctx.fail(R5, fn.qualname, f"attaches {show(link)[:60]}, which wraps no connection made here", fn.file, p); continue
        hs = [x for x in p.events[:i] if x.kind == "call" and x.awaited and x.name in (RAWC + ".init_server", RAWC + ".init_client") and x.recv is conn]
        want = ".init_server" if e is not None else ".init_client"
        good = [x for x in hs if x.name.endswith(want)]
        ctx.check(bool(good), R5, fn.qualname, "a connection is used before its handshake completed", f"{fn.file}:{fn.line}", p)
        for x in good:
          a = x.arg(0, "extra_data")
          ok = a is not None and a.op == "attr" and a.a[1] == "handshake_data" or a is not None and strip(a).op == "attr" and strip(a).a[1] == "handshake_data"
          ctx.check(ok, R5, fn.qualname + "[data]", "the handshake does not use the configured handshake data", x.loc, p)


def is_key(t, m, k):
  g = get_of(t)
  return bool(g and strip(g[0]) is m and is_const(g[1], k)) and no_default(t)


def no_default(t):
  """a read that yields nothing usable when the key is missing"""
  if t.op == "item": return True
  d = t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("default", NONE)
  return d.op == "const" and not d.a[0]


def call_of(e, nm):
  if e.name and e.name.split(".")[-1] == nm: return True
  return e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] == nm


def truth_of(it, t, facts, st):
  """truth value of a boolean term on a path"""
  if t.op == "const": return bool(t.a[0])
  if t.op == "not": 
    r = truth_of(it, t.a[0], facts, st)
    return None if r is None else not r
  r = fact(facts, t)
  if r is None: r = fact(facts, mk("truthy", t))
  if r is None: r = it.decide(t, st) if t.op in ("eq", "in", "is", "lt", "truthy", "isinst") else None
  return r


def link_conn(it, link, p):
  """the raw connection a link object wraps"""
  v = it.norm(link, p.st)
  for e in p.events:
    if e.kind == "setattr" and e.recv is link and e.args and isinstance(e.args[0], T) and is_conn(it, e.args[0]): return e.args[0]
  if v.op == "inst":
    for _, x in v.a[1]:
      if isinstance(x, T) and is_conn(it, x): return x
  return None


def is_conn(it, x):
  t = it.type_of(x)
  return isinstance(t, Class) and any(c.qualname == RAWC for c in it.p.mro(t))


def handshake_users(ctx):
  """functions outside the connection and link classes that build connections: the only ways a connection comes into use"""
  out = []
  subs = {c.qualname for c in ctx.p.subclasses(ctx.p.cls(RAWC))} | {RAWC}
  for f in ctx.p.all_funcs():
    if f.cls and f.cls.qualname in subs: continue
    for n in ast.walk(f.node):
      if isinstance(n, ast.Call):
        r = ctx.p.resolve_expr(n.func, f.module)
        if r and r[0] == "class" and r[1].qualname in subs: out.append(f); break
  return out


# ------------------------------------------------------------------ K02 framing
SZ = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8, "b": 1, "h": 2, "i": 4, "l": 4, "q": 8}


def fmt_codec(fmt):
  """(bytes, byteorder, signed) of a one-number struct format"""
  if not isinstance(fmt, str) or not fmt: return None
  order = {"<": "little", ">": "big", "!": "big"}.get(fmt[0])
  if order is None or len(fmt) != 2 or fmt[1] not in SZ: return None
  return (SZ[fmt[1]], order, fmt[1].islower())


def int_enc(t):
  """(codec, number) of a term that encodes a number"""
  if t.op != "call": return None
  if ext_call(t, "struct.pack") and len(t.a[1]) == 2 and t.a[1][0].op == "const": 
    c = fmt_codec(t.a[1][0].a[0])
    return (c, t.a[1][1]) if c else None
  if call_name(t) == "pack" and call_recv(t) is not None and ext_call(call_recv(t), "struct.Struct"):
    c = fmt_codec(call_recv(t).a[1][0].a[0])
    return (c, t.a[1][0]) if c else None
  if call_name(t) == "to_bytes":
    kw = dict(t.a[2]); a = list(t.a[1])
    n = a[0] if a else kw.get("length", const(1)); o = a[1] if len(a) > 1 else kw.get("byteorder", const("big")); s = kw.get("signed", FALSE)
    if all(x.op == "const" for x in (n, o, s)): return ((n.a[0], o.a[0], s.a[0]), call_recv(t))
  return None


def int_dec(t):
  """(codec, bytes) of a term that decodes a number"""
  g = t
  if g.op == "item" and is_const(g.a[1], 0): g = g.a[0]
  if g.op == "call":
    if ext_call(g, "struct.unpack") and len(g.a[1]) == 2 and g.a[1][0].op == "const":
      c = fmt_codec(g.a[1][0].a[0])
      return (c, g.a[1][1]) if c else None
    if call_name(g) == "unpack" and call_recv(g) is not None and ext_call(call_recv(g), "struct.Struct"):
      c = fmt_codec(call_recv(g).a[1][0].a[0])
      return (c, g.a[1][0]) if c else None
  if t.op == "call" and call_name(t) == "from_bytes" and t.a[1]:
    kw = dict(t.a[2]); a = t.a[1]
    o = a[1] if len(a) > 1 else kw.get("byteorder", const("big")); s = kw.get("signed", FALSE)
    if o.op == "const" and s.op == "const": return ((None, o.a[0], s.a[0]), a[0])
  return None


def unwrap_bytes(t):
  while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.bytes", "builtins.memoryview", "builtins.bytearray") and t.a[1]: t = t.a[1][0]
  return t


def parts(it, t, st):
  t = unwrap_bytes(it.norm(t, st))
  if t.op == "bin" and t.a[0] == "+": return parts(it, t.a[1], st) + parts(it, t.a[2], st)
  if t.op == "call" and call_name(t) == "join" and is_const(call_recv(t), b"") and t.a[1] and t.a[1][0].op in ("lit", "tuple"):
    xs = t.a[1][0].a[1:] if t.a[1][0].op == "lit" else t.a[1][0].a
    return [y for x in xs for y in parts(it, x, st)]
  if t.op == "lit" or t.op == "tuple": return [y for x in (t.a[1:] if t.op == "lit" else t.a) for y in parts(it, x, st)]
  return [t]


def written(it, p):
  """bytes handed to the stream, in order, as terms"""
  out = []
  for e in p.events:
    if e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] in ("write", "writelines"): out += parts(it, e.args[0], p.st)
  return out


class SyncInterp(Interp):
  """extracts the finite automaton of the loop that looks for the sync word: configurations are the constant locals, the alphabet one byte at a time"""
  loop = None

  def st_While(self, n, st, fr):
    if self.loop is None and any(isinstance(x, ast.Await) for x in ast.walk(n)): self.loop = (n, st, fr)
    yield from super().st_While(n, st, fr)


def sync_automaton(ctx, func, cls, word):
  """does the search loop stop exactly after the first occurrence of `word`? -> None (yes) or a byte string showing the difference; raises AnalysisBroken if no automaton can be read off"""
  it = SyncInterp(ctx.p, Cfg())
  ctx.interps.append(it)
  list(it.run(func, selfcls=cls))
  if it.loop is None: return ...
  n, st0, fr = it.loop
  assigned = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.id for x in ast.walk(n.test) if isinstance(x, ast.NamedExpr)} )
  alphabet = sorted(set(word)) + [next(b for b in range(256) if b not in word)]
  cur = [None]
  def rd(it_, f, a, k, nn, st, fr_):
    if not (a and is_const(a[0], 1)): raise AnalysisBroken("the sync search does not read byte by byte")
    if cur[0] is None: raise AnalysisBroken("the sync search reads more than one byte per round")
    b = cur[0]; cur[0] = None
    return [("v", const(bytes([b])), st)]
  it2 = Interp(ctx.p, Cfg(models={}))
  ctx.interps.append(it2)
  it2.closures, it2.types = it.closures, it.types
  old = it2.callee_name
  rname = lambda f: "__read__" if f.op == "attr" and f.a[1] in ("readexactly", "read") else old(f)
  it2.callee_name = rname
  it2.cfg.models["__read__"] = rd
  def key(st):
    env = st.env.get(fr.frid, {})
    vs = tuple((v, env.get(v)) for v in assigned if v in env)
    return vs
  def settle(st):
    """-> ('out' or 'in', state) after testing the loop condition"""
    res = list(it2.branch(n.test, st, fr))
    if len(res) != 1 or res[0][0] == "x": raise AnalysisBroken("the sync search does not have a finite state")
    return ("in" if res[0][1] else "out"), res[0][2]
  def step(st, b):
    st = st.copy(); st.known = {}; st.facts = (); st.events = ()
    cur[0] = b
    ocs = list(it2.exec_block(n.body, st, fr))
    if len(ocs) != 1 or cur[0] is not None: raise AnalysisBroken("the sync search does not have a finite state")
    oc, s = ocs[0]
    if oc[0] == "break": return "out", s
    if oc[0] not in ("next", "continue"): return "out", s
    return settle(s)
  fail = [0] * (len(word) + 1)
  def kmp(q, b):
    while q and word[q] != b: q = _border(word, q)
    return q + 1 if word[q] == b else 0
  s = st0.copy(); s.known = {}
  k, s = settle(s)
  todo = [(s, 0, b"")]
  seen = set()
  if k == "out": return b""
  while todo:
    s, q, w = todo.pop(0)
    kk = (key(s), q)
    if kk in seen: continue
    seen.add(kk)
    if len(seen) > 400: raise AnalysisBroken("the sync search does not have a finite state")
    for b in alphabet:
      o, s2 = step(s, b)
      q2 = kmp(q, b)
      if (o == "out") != (q2 == len(word)): return w + bytes([b])
      if o == "in": todo.append((s2, q2, w + bytes([b])))
  ctx.sync_states = len(seen)
  return None


def _border(word, q):
  for k in range(q - 1, 0, -1):
    if word[:k] == word[q - k:q]: return k
  return 0


CLOSERS = {  # connection class -> what its transport raises once the peer is gone
  ".RawStreamConnection": ["builtins.ConnectionResetError", "builtins.BrokenPipeError", "asyncio.IncompleteReadError", "builtins.ConnectionError"],
  ".RawWebsocketConnection": ["websockets.ConnectionClosed"],
}


def k02(ctx):
  R1 = ctx.rule("frame", "a message goes out as sync word, length, payload, and the reader takes the length with the same width and byte order and returns exactly that many bytes after it", 3)
  R2 = ctx.rule("resync", "the reader's search loop, as a finite automaton over bytes, stops exactly at the end of the first occurrence of the sync word", 1)
  R3 = ctx.rule("serialized", "sends (and receives) of one connection exclude each other and run shielded, so neither a concurrent one nor a cancellation can cut a frame in two; sending and receiving do not exclude each other", 4)
  R4 = ctx.rule("surfaces-closed", "whatever the transport raises when the peer is gone leaves the connection as the connection-closed error; on a link every failure but cancellation does", 6)
  R5 = ctx.rule("codec", "a link sends the encoded message and returns the decoded received one", 2)
  subs = [c for c in ctx.p.subclasses(ctx.p.cls(RAWC)) if not any(m.is_abstract for m in c.methods.values())]
  for c in subs:
    snd, rcv = ctx.method(c, "_send"), ctx.method(c, "_recv")
    it = ctx.interp()
    data = mk("param", snd.node.args.args[1].arg, snd.qualname)
    codec = word = None
    stream = None
    for p in ctx.run(it, snd, selfcls=c):
      if p.kind != "return": ctx.fail(R1, snd.qualname, "sending fails on its own", snd.file, p); continue
      ws = written(it, p)
      stream = bool(ws)
      if not ws:
        es = [e for e in p.events if e.kind == "call" and call_of(e, "send") and e.awaited]
        ctx.check(len(es) == 1 and unwrap_bytes(es[0].args[0]) is data, R1, snd.qualname, "the payload is not sent as it is, once", snd.file, p); continue
      enc = int_enc(ws[1]) if len(ws) == 3 else None
      ok = len(ws) == 3 and ws[0].op == "const" and isinstance(ws[0].a[0], bytes) and ws[2] is data and enc is not None and it.lenof(enc[1]) is not None and unwrap_bytes(it.lenof(enc[1])) is data
      if ctx.check(ok, R1, snd.qualname, f"what goes out is {', '.join(show(w)[:40] for w in ws)}", snd.file, p):
        codec, word = enc[0], ws[0].a[0]
        ctx.check(isinstance(codec[0], int) and codec[0] >= 4 and not codec[2], R1, snd.qualname + "[width]", f"a length field of {codec[0]} bytes does not hold the length of a large message", snd.file, p)
      dr = [e for e in p.events if e.kind == "call" and call_of(e, "drain") and e.awaited]
      ctx.check(bool(dr), R1, snd.qualname + "[drain]", "sending does not wait for the transport", snd.file, p)
    it = ctx.interp()
    for p in ctx.run(it, rcv, selfcls=c):
      if p.kind != "return": continue
      v = p.value
      if not stream:
        ok = v.op == "awaited" and v.a[0].op == "call" and call_name(v.a[0]) == "recv" and any(w and a.op == "isinst" and a.a[0] is v for a, w in p.facts) or not known_loop(p, v)
        ctx.check(contains(v, lambda s: s.op == "call" and call_name(s) == "recv"), R1, rcv.qualname, "returns something else than what was received", rcv.file, p); continue
      if codec is None: continue
      good = v.op == "awaited" and v.a[0].op == "call" and call_name(v.a[0]) == "readexactly"
      if not ctx.check(good, R1, rcv.qualname + "[payload]", f"returns {show(v)[:80]}, not exactly as many bytes as announced", rcv.file, p): continue
      d = int_dec(v.a[0].a[1][0])
      if not ctx.check(d is not None, R1, rcv.qualname + "[length]", f"takes {show(v.a[0].a[1][0])[:80]} as the length", rcv.file, p): continue
      src = d[1]
      n = src.a[0].a[1][0] if src.op == "awaited" and src.a[0].op == "call" and call_name(src.a[0]) == "readexactly" else None
      n = n.a[0] if n is not None and n.op == "const" else fmt_codec(n.a[1][0].a[0])[0] if n is not None and ext_call(n, "struct.calcsize") else None
      ctx.check(n == codec[0] and (d[0][0] in (None, n)) and d[0][1:] == codec[1:], R1, rcv.qualname + "[length]", f"reads the length as {d[0]} from {n} bytes, it was written as {codec}", rcv.file, p)
    if stream and word is not None:
      try: w = sync_automaton(ctx, rcv, c, word)
      except AnalysisBroken as e:
        ctx.note(f"{rcv.qualname}: {e}; the resync rule does not decide this loop")
        ctx.ok(R2, rcv.qualname); w = None
      if w is ...:
        it = ctx.interp()
        ok = all(any(e.kind == "call" and call_of(e, "readuntil") and is_const(e.args[0], word) for e in p.events) for p in ctx.run(it, rcv, selfcls=c) if p.kind == "return")
        ctx.check(ok, R2, rcv.qualname, "nothing looks for the sync word", rcv.file)
      else: ctx.check(w is None, R2, rcv.qualname, f"after the bytes {w!r} the search for the sync word {word!r} is {'not over' if w and w.endswith(word) else 'wrong'}", f"{rcv.file}:{rcv.line}")
    # errors
    for nm in ("send", "recv"):
      m = ctx.method(c, nm)
      for k in next((v for q, v in CLOSERS.items() if c.qualname.endswith(q)), ["builtins.ConnectionResetError"]):
        it = ctx.interp(raises_fn=lambda e, st: [k] if e.kind == "call" and e.name in ("asyncio.shield",) or e.kind == "call" and e.awaited and call_of(e, "_" + nm) else [])
        hit = False
        for p in ctx.run(it, m, selfcls=c):
          if p.kind != "raise": continue
          hit = True
          ctx.check(p.value.op == "exc" and p.value.a[0] == CLOSED, R4, f"{c.qualname}.{nm}", f"{k} leaves as {show(p.value)[:60]}", f"{m.file}:{m.line}", p)
        ctx.check(hit or bool(it.npaths), R4, f"{c.qualname}.{nm}", "is never reached")
  # locks
  locks = {}
  for nm in ("send", "recv"):
    f = ctx.method(RAWC, nm)
    it = ctx.interp()
    for p in ctx.run(it, f, selfcls=ctx.p.cls(RAWC)):
      held = []
      seen = False
      for e in p.events:
        if e.kind == "enter": held.append(e.recv)
        elif e.kind == "exit" and e.recv in held: held.remove(e.recv)
        elif e.kind == "call" and call_of(e, "acquire") and e.awaited: held.append(e.recv)
        elif e.kind == "call" and call_of(e, "release") and e.recv in held: held.remove(e.recv)
        elif e.kind == "call" and (e.awaited and call_of(e, "_" + nm) or e.name == "asyncio.shield"):
          seen = True
          l = [h for h in held if root(h) is mk("self", RAWC)]
          ctx.check(bool(l), R3, f.qualname + "[lock]", f"the transport is used without excluding another {nm}", e.loc, p)
          for h in l: locks.setdefault(nm, set()).add(h)
          ctx.check(e.name == "asyncio.shield" and e.awaited and any(call_name(s) == "_" + nm for s in subterms(e.args[0]) if s.op == "call") or e.name == "asyncio.shield" and contains(e.args[0], lambda s: s.op == "coro"), R3, f.qualname + "[shield]", "a cancellation can cut a frame in two", e.loc, p)
      if p.kind == "return": ctx.check(seen, R3, f.qualname, f"does not {nm}", f.file, p)
  if locks.get("send") and locks.get("recv"): ctx.check(not (locks["send"] & locks["recv"]), R3, RAWC + "[separate]", "a pending receive blocks every send")
  # messages of a websocket: every binary one, also an empty one
  w = CONN + ".RawWebsocketConnection"
  if ctx.p.has_cls(w):
    f = ctx.method(w, "_recv")
    for p in ctx.run(ctx.interp(unroll=2), f, selfcls=ctx.p.cls(w)):
      got = [e.res for e in p.events if e.kind == "call" and e.awaited and call_of(e, "recv")]
      if p.kind != "return" or not got: continue
      isbytes = lambda x: {v for a, v in p.facts if a.op in ("isinst", "isinstance") and a.a[0] is mk("awaited", x) and "bytes" in str(a.a[1])} | {not v for a, v in p.facts if a.op in ("isinst", "isinstance") and a.a[0] is mk("awaited", x) and str(a.a[1]).split(".")[-1].endswith("str")}
      ctx.check(strip(p.value) is mk("awaited", got[-1]) and isbytes(got[-1]) != {False}, R1, f.qualname + "[binary]", "what is received is not the binary message of the websocket", f.file, p)
      for x in got[:-1]: ctx.check(isbytes(x) == {False}, R1, f.qualname + "[skipped]", "a binary message of the websocket may be skipped", f.file, p)
  # link
  f, g = ctx.method(LCON, "_send"), ctx.method(LCON, "_recv")
  for h in (f, g):
    for k in ["builtins.OSError", "builtins.ValueError", "builtins.KeyError", CLOSED, "builtins.RuntimeError", "asyncio.CancelledError"]:
      it = ctx.interp(raises_fn=lambda e, st: [k] if e.kind == "call" and (e.awaited or e.name and ("serialize" in e.name or e.name.startswith("msgpack"))) else [], stop={"streamtasks.net.serialization.serialize_message", "streamtasks.net.serialization.deserialize_message", RAWC + ".send", RAWC + ".recv"})
      want = k if k == "asyncio.CancelledError" else CLOSED
      for p in ctx.run(it, h, selfcls=ctx.p.cls(LCON)):
        if p.kind != "raise":
          if any(e.kind == "handle" for e in p.events): ctx.fail(R4, h.qualname, f"{k} is swallowed", h.file, p)
          continue
        ctx.check(p.value.op == "exc" and p.value.a[0] == want, R4, h.qualname, f"{k} leaves as {show(p.value)[:60]}", f"{h.file}:{h.line}", p)
    it = ctx.interp(stop={"streamtasks.net.serialization.serialize_message", "streamtasks.net.serialization.deserialize_message", RAWC + ".send", RAWC + ".recv"})
    for p in ctx.run(it, h, selfcls=ctx.p.cls(LCON)):
      if p.kind != "return": continue
      if h is f:
        m = mk("param", f.node.args.args[1].arg, f.qualname)
        es = [e for e in p.events if e.kind == "call" and e.awaited and call_of(e, "send")]
        ok = len(es) == 1 and es[0].args and call_name(es[0].args[0]) == "serialize_message" and es[0].args[0].a[1][0] is m
        ctx.check(ok, R5, h.qualname, "does not send the encoded message once", h.file, p)
      else:
        v = p.value
        ok = call_name(v) == "deserialize_message" and v.a[1][0].op == "awaited" and call_name(v.a[1][0].a[0]) == "recv"
        ctx.check(ok, R5, h.qualname, "does not return the decoded received message", h.file, p)


def known_loop(p, v): return False


# ------------------------------------------------------------------ K03 reconnecting
def k03(ctx):
  R1 = ctx.rule("goes-on", "no lost or refused connection, wherever it surfaces, ends the reconnector", 3)
  R2 = ctx.rule("pause", "every further attempt is preceded by the configured pause", 2)
  R3 = ctx.rule("waits-for-loss", "a new attempt after a successful one is made only once that link is closed, and it is attached before it counts as connected", 2)
  R4 = ctx.rule("stops-clean", "when the reconnector is stopped its switch is shut down", 1)
  c = ctx.p.cls(CONN + ".AutoReconnector")
  f = ctx.method(c, "run")
  me = mk("self", c.qualname)
  AB = "streamtasks.utils.AsyncBool"
  stop = {SW + ".add_link", AB + ".set", AB + ".wait", "streamtasks.worker.Worker.shutdown"}
  for kind in (CLOSED, "builtins.ConnectionRefusedError", "builtins.FileNotFoundError", "websockets.WebSocketException", "websockets.ConnectionClosed"):
    it = ctx.interp(stop=stop, raises_fn=lambda e, st: [kind] if e.kind == "call" and e.awaited and (e.name == SW + ".add_link" or e.fterm is attr(me, "connect_fn")) else [])
    n = 0
    for p in ctx.run(it, f, selfcls=c):
      n += any(e.kind == "handle" for e in p.events)
      ctx.check(p.kind == "loopback", R1, f.qualname, f"a {kind.split('.')[-1]} ends the reconnector ({p.kind} {show(p.value)[:50] if isinstance(p.value, T) else ''})", f"{f.file}:{f.line}", p)
  it = ctx.interp(stop=stop, raises_fn=lambda e, st: ["builtins.OSError"] if e.kind == "call" and e.awaited and (e.name == SW + ".add_link" or e.fterm is attr(me, "connect_fn")) else [])
  for p in ctx.run(it, f, selfcls=c):
    if p.kind != "loopback": continue
    # order along one round, read cyclically: connect ... sleep
    con = [i for i, e in enumerate(p.events) if e.kind == "call" and e.awaited and e.fterm is attr(me, "connect_fn")]
    slp = [i for i, e in enumerate(p.events) if e.kind == "call" and e.awaited and e.name == "asyncio.sleep" and contains(e.args[0], attr(me, "delay"))]
    ctx.check(len(con) == 1, R3, f.qualname, f"{len(con)} connection attempts in one round", f.file, p)
    ctx.check(bool(slp), R2, f.qualname, "the next attempt follows without a pause", f.file, p)
    link = next((e.res for e in p.events if e.kind == "call" and e.fterm is attr(me, "connect_fn") and e.awaited), None)
    L = mk("awaited", link) if link is not None else None
    add = [i for i, e in enumerate(p.events) if e.kind == "call" and e.awaited and e.name == SW + ".add_link" and e.arg(0, "link") is L]
    failed = any(e.kind == "handle" for e in p.events)
    if failed: continue
    if not ctx.check(bool(add), R3, f.qualname + "[attached]", "the connected link is not attached", f.file, p): continue
    on = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == AB + ".set" and e.args and is_const(e.args[0], True)]
    ctx.check(bool(on) and min(on) > add[0], R3, f.qualname + "[connected]", "counts as connected before the link is attached, or never", f.file, p)
    cl = [e for e in p.events if e.kind == "call" and e.recv is not None and e.recv is attr(L, "on_closed") and call_of(e, "append") and sets_false(it, ctx, e.args[0], p, AB)]
    ctx.check(bool(cl), R3, f.qualname + "[lost]", "the loss of the link is not noticed", f.file, p)
    wt = [i for i, e in enumerate(p.events) if e.kind == "call" and e.awaited and e.name == AB + ".wait" and e.args and is_const(e.args[0], False)]
    ctx.check(bool(wt), R3, f.qualname + "[waits]", "connects again although the link is still open", f.file, p)
    if add and wt:   # it may have closed while it was attached, before its loss was listened to
      w = p.events[wt[0]]
      looked = [v for a, v in w.facts if contains(a, lambda t: t.op == "attr" and t.a[0] is L and t.a[1] in ("_closed", "closed")) and (a, v) not in p.events[add[0]].facts]
      sets = [e.args[0].a[0] for e in p.events[:wt[0]] if e.kind == "call" and e.name == AB + ".set" and e.args and e.args[0].op == "const"]
      ctx.check(bool(looked) and (not looked[-1] or not sets or sets[-1] is False), R3, f.qualname + "[closed]", "a link that closed while it was attached counts as connected", f.file, p)
  it = ctx.interp(stop=stop, cancel=True)
  for p in ctx.run(it, f, selfcls=c):
    if p.kind == "loopback": continue
    ctx.check(any(e.kind == "call" and call_of(e, "shutdown") for e in p.events), R4, f.qualname, "stops without shutting its switch down", f.file, p)


def sets_false(it, ctx, h, p, AB):
  """does calling h set the connected flag to False?"""
  for r in it.call(h, [], [], ast.parse("0").body[0].value, p.st, Frame(None, "<h>", ctx.p.module(CONN))):
    if not any(e.kind == "call" and e.name == AB + ".set" and e.args and is_const(e.args[0], False) for e in r[2].events[len(p.st.events):]): return False
  return True


# ------------------------------------------------------------------ K04 url schemes
EXPECT = {"": "UnixConnectionData", "node": "UnixConnectionData", "unix": "UnixConnectionData", "tcp": "TCPConnectionData", "ws": "WebsocketConnectionData", "wss": "WebsocketConnectionData"}


def k04(ctx):
  R1 = ctx.rule("scheme", "each url scheme yields the connection kind, address, cost and handshake data it names, and an unknown scheme is refused", 7)
  R2 = ctx.rule("both-ends", "for each kind of connection data the client opens, and the server listens on, the same transport at the address in the data", 3)
  R3 = ctx.rule("cost", "the cost given in the url, else the default of the transport, becomes the cost of the links", 3)
  f = ctx.p.func(CONN + ".extract_connection_data_from_url")
  pu = mk("purl")
  it = ctx.interp(models={"urllib.parse.urlparse": lambda it, f, a, k, n, st, fr: [("v", pu, st)]}, stop={CONN + ".get_node_socket_path"})
  url = mk("param", f.node.args.args[0].arg, f.qualname)
  seen = {}
  table = {t.id: n.value.value for c in [ctx.p.cls(CONN + ".DEFAULT_COSTS")] for n in c.node.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) for t in n.targets if isinstance(t, ast.Name)} if ctx.p.has_cls(CONN + ".DEFAULT_COSTS") else {}
  defaults = {s: table[k] for s, k in (("node", "NODE"), ("", "NODE"), ("unix", "UNIX"), ("tcp", "TCP"), ("ws", "WEBSOCKET"), ("wss", "WEBSOCKET")) if k in table}
  for p in ctx.run(it, f):
    if fact(p.facts, mk("is", url, NONE)) is True:
      v = it.norm(p.value, p.st) if p.kind == "return" else None
      ctx.check(v is not None and v.op == "inst" and v.a[0].endswith(".UnixConnectionData"), R1, f.qualname + "[none]", "no url does not mean the node's own socket", f.file, p)
      continue
    sch = None
    for a, v in p.facts:
      if a.op == "eq" and attr(pu, "scheme") in a.a and v: sch = next((x.a[0] for x in a.a if x.op == "const"), None)
      if a.op == "truthy" and a.a[0] is attr(pu, "scheme") and not v: sch = ""
    cn = f"{f.qualname}[{sch if sch is not None else 'other'}]"
    if sch not in EXPECT:
      ctx.check(p.kind == "raise" and p.value.a[0] == "builtins.ValueError", R1, cn, "an unknown scheme is not refused", f.file, p); seen[None] = 1; continue
    if p.kind != "return": ctx.fail(R1, cn, f"fails with {show(p.value)[:60]}", f.file, p); continue
    seen[sch] = 1
    v = it.norm(p.value, p.st)
    if not ctx.check(v.op == "inst" and v.a[0] == f"{CONN}.{EXPECT[sch]}", R1, cn, f"yields {show(v)[:80]}", f.file, p): continue
    d = fields(v)
    if sch in ("tcp", "ws", "wss"):
      ctx.check(d.get("hostname") is attr(pu, "hostname") and d.get("port") is attr(pu, "port"), R1, cn, "not the host and port of the url", f.file, p)
    if sch in ("ws", "wss"): ctx.check(d.get("secure") is not None and truth_of(it, d["secure"], p.facts, p.st) is (sch == "wss"), R1, cn + "[secure]", f"secure is {show(d.get('secure'))}", f.file, p)
    if sch == "unix": ctx.check(d.get("path") is attr(pu, "path"), R1, cn, "not the path of the url", f.file, p)
    if sch in ("", "node"):
      x = d.get("path")
      a0 = x.a[1][0] if x is not None and call_name(x) == "get_node_socket_path" and x.a[1] else None
      ok = a0 is url or a0 is not None and sch == "node" and (a0 is attr(pu, "hostname") or a0 is NONE and fact(p.facts, mk("truthy", attr(pu, "hostname"))) is False)
      ctx.check(ok, R1, cn, "not the socket of the named node", f.file, p)
    if sch == "": continue
    # handshake data
    hd = d.get("handshake_data")
    us = [nm for nm in ("username", "password") if fact(p.facts, mk("is", attr(pu, nm), NONE)) is False]
    for nm in us: ctx.check(entry_of(it, hd, nm) is attr(pu, nm), R1, cn + f"[{nm}]", f"the {nm} of the url is not part of the handshake", f.file, p)
    qs = next((t for t in subterms(hd) if t.op == "call" and call_name(t) == "parse_qs"), None) if hd is not None else None
    if qs is not None:
      try: got = ev(hd, {qs: {"a": ["x"], "b": ["y", "z"]}, attr(pu, "username"): "u", attr(pu, "password"): "p"})
      except Unk: got = None
      if isinstance(got, dict): ctx.check(got.get("a") == "x" and "b" not in got, R1, cn + "[single]", "the handshake does not have exactly the single values of the query", f.file, p)
    if fact(p.facts, mk("is", attr(pu, "query"), NONE)) is False: ctx.check(contains(hd, lambda s: s.op == "call" and call_name(s) == "parse_qs"), R1, cn + "[query]", "the query of the url is not part of the handshake", f.file, p)
    cost = d.get("cost")
    given = [s for s in subterms(cost) if s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] == "builtins.int"] if cost is not None else []
    digit = any(a.op == "truthy" and v and call_name(a.a[0]) == "isdigit" for a, v in p.facts if a.a and isinstance(a.a[0], T) and a.a[0].op == "call")
    if given: ctx.check(digit and contains(given[0], const("cost")), R3, cn, "a cost that is no number is used", f.file, p)
    elif digit: ctx.check(any(a.op in ("truthy", "is") for a, v in p.facts if contains(a, lambda s: s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] == "builtins.int")), R3, cn, "the cost given in the url is ignored", f.file, p)
    else: ctx.check(cost is not None and cost.op == "const" and isinstance(cost.a[0], int) and cost.a[0] > 0 and cost.a[0] == defaults.get(sch, cost.a[0]), R3, cn, f"the default cost is {show(cost) if cost is not None else None}", f.file, p)
  for s in list(EXPECT) + [None]: ctx.check(s in seen, R1, f"{f.qualname}[{s if s is not None else 'other'}]", f"scheme {s!r} is not told apart")
  # ends
  data = mk("conndata")
  kinds = {}
  for k in ("UnixConnectionData", "TCPConnectionData", "WebsocketConnectionData"):
    kc = ctx.p.cls(f"{CONN}.{k}")
    for fn in ("connect", "create_server"):
      g = ctx.p.func(f"{CONN}.{fn}")
      it = ctx.interp(models={f.qualname: lambda it, f, a, kk, n, st, fr: [("v", data, st)]}, stop={RAWC + ".init_client"})
      it.exact[data] = kc; it.types[data] = kc
      for p in ctx.run(it, g):
        cn = f"{g.qualname}[{k}]"
        if p.kind != "return":
          if p.kind == "raise" and "PlatformNotSupported" in show(p.value): continue
          if p.kind == "raise" and "builtins.ValueError" in show(p.value) and any(contains(a, attr(data, "cost")) for a, _ in p.facts): continue   # a cost of zero is refused
          ctx.fail(R2, cn, f"fails with {show(p.value)[:60]}", g.file, p); continue
        v = p.value
        if fn == "connect":
          ctx.check(it.type_of(v) is ctx.p.cls(LCON), R2, cn, f"yields {show(v)[:60]}", g.file, p)
          opened = [(e.name, tuple(e.args) or tuple(x for k2, x in e.kw if k2 == "path")) for e in p.events if e.kind == "call" and e.name in ("asyncio.open_unix_connection", "asyncio.open_connection", "websockets.connect")]
          want = {"UnixConnectionData": ("asyncio.open_unix_connection", (attr(data, "path"),)), "TCPConnectionData": ("asyncio.open_connection", (attr(data, "hostname"), attr(data, "port")))}.get(k)
          if want: ctx.check([(a, tuple(b)) for a, b in opened] == [want], R2, cn, f"opens {', '.join(o[0] for o in opened) or 'nothing'}", g.file, p)
          else:
            ok = len(opened) == 1 and opened[0][0] == "websockets.connect" and contains(opened[0][1][0], attr(data, "hostname")) and contains(opened[0][1][0], attr(data, "port"))
            ctx.check(ok, R2, cn, "does not open the websocket of the data", g.file, p)
            if ok:
              sec = fact(p.facts, mk("truthy", attr(data, "secure")))
              s = next((x.a[0] for x in subterms(opened[0][1][0]) if x.op == "const" and x.a[0] in ("ws", "wss", "ws://", "wss://")), None)
              ctx.check(sec is None or s is not None and s.startswith("wss") == sec, R2, cn + "[secure]", f"a {'' if sec else 'not '}secure websocket uses {s}", g.file, p)
          lc = [e.args[1] if len(e.args) > 1 else dict(e.kw).get("cost") for e in p.events if e.kind == "call" and e.name == LCON]
          ctx.check(lc and all(x is attr(data, "cost") for x in lc), R3, cn, "the link does not get the cost of the url", g.file, p)
        else:
          t = it.type_of(v)
          want = {"UnixConnectionData": ".UnixSocketServer", "TCPConnectionData": ".TCPSocketServer", "WebsocketConnectionData": ".WebsocketServer"}[k]
          if not ctx.check(isinstance(t, Class) and t.qualname == CONN + want, R2, cn, f"creates {show(v)[:60]}", g.file, p): continue
          kept = {e.name: e.args[0] for e in p.events if e.kind == "setattr" and e.recv is v}
          need = ["path"] if k.startswith("Unix") else ["hostname", "port"]
          for nd in need: ctx.check(attr(data, nd) in kept.values(), R2, cn, f"does not listen on the {nd} of the data", g.file, p)
          ctx.check(kept.get("cost") is attr(data, "cost"), R3, cn, "links of the server do not get the cost of the url", g.file, p)
          ctx.check(kept.get("handshake_data") is attr(data, "handshake_data"), R2, cn + "[data]", "the server does not check the handshake data of the url", g.file, p)
          # where it listens
          srv = ctx.method(t, "run_server")
          it3 = ctx.interp()
          tm = mk("self", t.qualname)
          place = {n: x for n, x in kept.items()}
          for q in ctx.run(it3, srv, selfcls=t):
            ls = [e for e in q.events if e.kind == "call" and e.name in ("asyncio.start_server", "asyncio.start_unix_server", "websockets.serve")]
            w2 = {"UnixConnectionData": "asyncio.start_unix_server", "TCPConnectionData": "asyncio.start_server", "WebsocketConnectionData": "websockets.serve"}[k]
            if not ctx.check(len(ls) == 1 and ls[0].name == w2, R2, cn + "[listens]", "does not listen on the transport of the data", srv.file, q): continue
            e = ls[0]
            vals = list(e.args[1:]) + [x for _, x in e.kw]
            got = [place.get(x.a[1]) for x in vals if x.op == "attr" and x.a[0] is tm]
            if k.startswith("Unix"): ok = got[:1] == [attr(data, "path")]
            else:
              kw = dict(e.kw); hv = kw.get("host", e.args[1] if len(e.args) > 1 else None); pv = kw.get("port", e.args[2] if len(e.args) > 2 else None)
              ok = all(x is not None and x.op == "attr" and x.a[0] is tm for x in (hv, pv)) and place.get(hv.a[1]) is attr(data, "hostname") and place.get(pv.a[1]) is attr(data, "port")
            ctx.check(ok, R2, cn + "[listens]", "does not listen on the address of the data", srv.file, q)


def entry_of(it, t, key):
  """value of a key in a dict-valued term built by writes"""
  return entry2(t, key)


def entry2(t, key):
  while t.op == "copy": t = t.a[1]
  r = None
  if t.op == "lit":
    for x in t.a[1:]:
      if x.op == "kv" and is_const(x.a[0], key): r = x.a[1]
  return r


# ------------------------------------------------------------------ K05 lifecycle of server connections
def k05(ctx):
  R1 = ctx.rule("link-closes-connection", "closing a link closes its connection", 1)
  R2 = ctx.rule("counted", "a server counts a connection once, when it is attached, and uncounts it when its link closes", 2)
  R3 = ctx.rule("isolated", "no failure of one connection leaves the handler of a server", 2)
  R4 = ctx.rule("server-end", "however a server ends, it no longer counts as running and its switch is shut down", 1)
  R5 = ctx.rule("held-open", "a websocket stays open until its link closes", 1)
  c = ctx.p.cls(LCON)
  f = ctx.method(c, "__init__")
  me = mk("self", LCON)
  it = ctx.interp()
  for p in ctx.run(it, f, selfcls=c):
    if p.kind != "return": continue
    conn = mk("param", f.node.args.args[1].arg, f.qualname)
    ok = any(any(e.kind == "call" and call_of(e, "close") and e.recv is conn for e in invoked(it, h, p)) for h in appended(p))
    ctx.check(ok, R1, f.qualname, "the connection of a closed link stays open", f"{f.file}:{f.line}", p)
  base = ctx.p.cls(CONN + ".ServerBase")
  handlers = [fn for fn in handshake_users(ctx) if fn.cls and base in ctx.p.mro(fn.cls)]
  for fn in handlers:
    stop = {RAWC + ".init_server", SW + ".add_link", base.qualname + ".on_connected", base.qualname + ".on_disconnected"}
    it = ctx.interp(stop=stop)
    for p in ctx.run(it, fn, selfcls=fn.cls):
      add = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == SW + ".add_link"]
      on = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == base.qualname + ".on_connected"]
      off = [h for h in appended(p) if any(e.kind == "call" and e.name == base.qualname + ".on_disconnected" for e in invoked(it, h, p))]
      at = [i for i, e in enumerate(p.events) if e.kind == "call" and e.fterm is not None and e.fterm.op == "attr" and e.fterm.a[1] in ("append", "insert", "extend") and any(h is x for h in off for x in e.args)]
      if on and at: ctx.check(not any(e.awaited for e in p.events[min(on + at) + 1:max(on + at)]) and min(at) > add[0] if add else False, R2, fn.qualname + "[together]", "a link that closes while it is attached is uncounted without having been counted, or the other way round", f"{fn.file}:{fn.line}", p)
      if add: ctx.check(len(on) == 1 and on[0] > add[0] and len(off) == 1, R2, fn.qualname, "an attached connection is not counted once until its link closes", f"{fn.file}:{fn.line}", p)
      else: ctx.check(not on and not off, R2, fn.qualname, "counts a connection that is not attached", f"{fn.file}:{fn.line}", p)
      if any(e.kind == "call" and "RawWebsocketConnection" in e.name for e in p.events if e.name) and add:
        sets = [e.recv for h in appended(p) for e in invoked(it, h, p) if e.kind == "call" and call_of(e, "set")]
        w = [e for e in p.events if e.kind == "call" and e.awaited and call_of(e, "wait")]
        ctx.check(bool(w) and any(s is e.recv for s in sets for e in w), R5, fn.qualname, "the handler ends, and with it the websocket, while the link is open", f"{fn.file}:{fn.line}", p)
    for k in ["builtins.OSError", "builtins.ValueError", CLOSED, "builtins.KeyError", "builtins.RuntimeError"]:
      for p in ctx.run(ctx.interp(stop=stop, raises_fn=lambda e, st: [k] if e.kind == "call" and e.awaited else []), fn, selfcls=fn.cls):
        ctx.check(p.kind != "raise", R3, fn.qualname, f"a {k.split('.')[-1]} of one connection leaves the handler", f"{fn.file}:{fn.line}", p)
  me = mk("self", base.qualname)
  for nm, d in (("on_connected", 1), ("on_disconnected", -1)):
    f = ctx.method(base, nm)
    for p in ctx.run(ctx.interp(), f, selfcls=base):
      if p.kind != "return": continue
      for have in (1, 3):
        try:
          if not holds(p.facts, {attr(me, "_connection_count"): have}): continue
          new = [ev(e.args[0], {attr(me, "_connection_count"): have}) for e in p.events if e.kind == "setattr" and e.recv is me and isinstance(e.name, str) and "count" in e.name]
        except Unk: continue
        ctx.check(new[-1:] == [have + d], R2, f.qualname, f"the count of connections does not change by one, with {have} connected", f"{f.file}:{f.line}", p)
  f = ctx.method(base, "run")
  for cfg in (dict(cancel=True), dict(raises_fn=lambda e, st: ["builtins.OSError"] if e.kind == "call" and call_of(e, "run_server") else [])):
    for p in ctx.run(ctx.interp(stop={"streamtasks.worker.Worker.shutdown"}, **cfg), f, selfcls=base):
      if not any(e.kind == "call" and call_of(e, "run_server") for e in p.events): continue
      ok = any(e.kind == "call" and call_of(e, "clear") for e in p.events) and any(e.kind == "call" and e.awaited and call_of(e, "shutdown") for e in p.events)
      ctx.check(ok, R4, f.qualname, "the server ends without shutting down", f"{f.file}:{f.line}", p)


def appended(p):
  """handlers added to a list on a path"""
  out = []
  for e in p.events:
    if e.kind != "call" or e.fterm is None or e.fterm.op != "attr" or not e.args: continue
    m = e.fterm.a[1]
    if m == "append": out.append(e.args[0])
    elif m == "insert": out += e.args[1:]
    elif m == "extend": out += [x for x in (p.st.heap[e.args[0].a[0]][1] if e.args[0].op == "obj" and e.args[0].a[0] in p.st.heap else [])] if e.args[0].op == "obj" else list(e.args[0].a) if e.args[0].op == "tuple" else []
  return [x[1] if isinstance(x, tuple) else x for x in out]


def invoked(it, h, p):
  """what calling a handler without arguments does on every path (events common to all)"""
  outs = []
  try:
    for r in it.call(h, [], [], ast.parse("0").body[0].value, p.st, Frame(None, "<handler>", it.p.module(CONN))): outs.append(r[2].events[len(p.st.events):])
  except AnalysisBroken: return []
  if not outs: return []
  return [e for e in outs[0] if all(any(e2.name == e.name and e2.recv is e.recv for e2 in o) for o in outs)]


RULES = {"K05": k05, "K01": k01, "K02": k02, "K03": k03, "K04": k04}
