"""Agreement of what is sent with what is expected: requests and handlers, answers and requesters, broadcasts and receivers."""
from __future__ import annotations
import ast
from ..program import Class, dotted
from .svc import *

ANY = ("any",)
UUIDS = {"uuid.UUID", "pydantic.UUID4", "pydantic.UUID1", "pydantic.UUID3", "pydantic.UUID5", "pydantic.types.UUID4"}
PRIMS = {"builtins.str": "str", "builtins.int": "int", "builtins.float": "float", "builtins.bool": "bool", "builtins.bytes": "bytes"}


def is_model(p, c): return any((k if isinstance(k, str) else k.qualname).split(".")[-1] == "BaseModel" for k in p.mro(c))


def is_enum(p, c): return any((k if isinstance(k, str) else k.qualname).split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for k in p.mro(c))


def wire(p, ann, module, depth=0):
  """structure of the values an annotation allows"""
  if ann is None or depth > 8: return ANY
  go = lambda a, m=module: wire(p, a, m, depth + 1)
  if isinstance(ann, ast.Constant):
    if ann.value is None: return ("prim", "none")
    if isinstance(ann.value, str):
      try: return go(ast.parse(ann.value, mode="eval").body)
      except SyntaxError: return ANY
    return ANY
  if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr): return ("union", (go(ann.left), go(ann.right)))
  if isinstance(ann, ast.Subscript):
    h = (dotted(ann.value) or "").split(".")[-1]
    el = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
    if h == "Optional": return ("union", (go(el[0]), ("prim", "none")))
    if h == "Union": return ("union", tuple(go(x) for x in el))
    if h == "Annotated": return go(el[0])
    if h in ("list", "List", "Sequence", "Iterable", "deque"): return ("list", go(el[0]))
    if h in ("set", "Set", "frozenset"): return ("set", go(el[0]))
    if h in ("tuple", "Tuple"):
      if len(el) == 2 and isinstance(el[1], ast.Constant) and el[1].value is Ellipsis: return ("list", go(el[0]))
      return ("tuple", tuple(go(x) for x in el))
    if h in ("dict", "Dict", "Mapping") and len(el) == 2: return ("dict", go(el[0]), go(el[1]))
    if h == "Literal": return ("union", tuple(("prim", type(x.value).__name__) if isinstance(x, ast.Constant) and x.value is not None else ANY for x in el))
    return ANY
  r = p.resolve_expr(ann, module)
  if r is None: return ANY
  if r[0] == "class":
    if is_model(p, r[1]): return ("model", r[1].qualname)
    if is_enum(p, r[1]): return ("enum", r[1].qualname)
    return ANY
  if r[0] == "var":
    vs = r[1].assigns.get(r[2], [])
    return go(vs[0], r[1]) if len(vs) == 1 else ANY
  if r[0] == "ext":
    if r[1] in PRIMS: return ("prim", PRIMS[r[1]])
    if r[1] in UUIDS: return ("uuid",)
    if r[1].startswith("datetime.") or r[1] in ("decimal.Decimal", "pathlib.Path"): return ("time",)
    if r[1] in ("builtins.list", "builtins.tuple"): return ("list", ANY)
    if r[1] == "builtins.set": return ("set", ANY)
    if r[1] == "builtins.dict": return ("dict", ANY, ANY)
  return ANY


def model_fields(ctx, qual):
  """{field: (type, required, owner)}"""
  c = ctx.p.cls(qual)
  out = {}
  for n, ann, default, owner in ctx.p.fields(c):
    if n.startswith("_") or n == "model_config": continue
    w = wire(ctx.p, ann, owner.module)
    req = default is None
    if default is not None and isinstance(default, ast.Call) and (dotted(default.func) or "").split(".")[-1] == "Field":
      req = not (default.args and not (isinstance(default.args[0], ast.Constant) and default.args[0].value is Ellipsis)) and not any(k.arg in ("default", "default_factory") for k in default.keywords)
    out[n] = (w, req, owner)
  return out


def serialized(ctx, qual, name):
  """has the field a serializer of its own?"""
  for k in ctx.p.mro(ctx.p.cls(qual)):
    if not isinstance(k, Class): continue
    for m in k.methods.values():
      for d in m.node.decorator_list:
        if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "field_serializer" and any(isinstance(a, ast.Constant) and a.value in (name, "*") for a in d.args): return True
      if any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "model_serializer" for d in m.node.decorator_list): return True
  return False


def unencodable(ctx, w, path="", seen=()):
  """why a value of this type, dumped, cannot be put on the wire (None: it can)"""
  o = w[0]
  if o == "uuid": return f"{path} is a UUID"
  if o == "enum": return f"{path} is an enum member"
  if o == "set": return f"{path} is a set"
  if o == "time": return f"{path} is a time"
  if o in ("union", "tuple"): return next((r for x in w[1] for r in [unencodable(ctx, x, path, seen)] if r), None)
  if o == "list": return unencodable(ctx, w[1], path + "[]", seen)
  if o == "dict":
    if w[1][0] == "prim" and w[1][1] in ("int", "float", "bool"): return f"{path} has keys that are no strings, which are refused when decoded"
    return unencodable(ctx, w[1], path + " key", seen) or unencodable(ctx, w[2], path + "{}", seen)
  if o == "fields": return next((r for n, t in w[1] for r in [unencodable(ctx, t, f"{path}.{n}" if path else n, seen)] if r), None)
  if o == "model" and w[1] not in seen:
    for n, (t, _, _) in model_fields(ctx, w[1]).items():
      if serialized(ctx, w[1], n): continue
      r = unencodable(ctx, t, f"{path}.{n}" if path else n, seen + (w[1],))
      if r: return r
  return None


def misfit(ctx, src, dst, path="", seen=()):
  """why a sent value is refused by (or means something else to) the expected type; None when it fits"""
  if src[0] == "any" or dst[0] == "any": return None
  if src[0] == "union": return next((r for x in src[1] for r in [misfit(ctx, x, dst, path, seen)] if r), None)
  if dst[0] == "union":
    rs = [misfit(ctx, src, x, path, seen) for x in dst[1]]
    return None if any(r is None for r in rs) else rs[0]
  what = path or "the body"
  s, d = src[0], dst[0]
  if d == "model":
    if (src, dst) in seen: return None
    if s == "model": have = {n: t for n, (t, _, _) in model_fields(ctx, src[1]).items()}
    elif s == "fields": have = dict(src[1])
    elif s == "dict": return None
    else: return f"{what} is {_nm(src)} where a {dst[1].split('.')[-1]} is expected" if any(r for _, r, _ in model_fields(ctx, dst[1]).values()) or s != "model" else None
    for n, (t, req, _) in model_fields(ctx, dst[1]).items():
      q = f"{path}.{n}" if path else n
      if n not in have:
        if req: return f"{q} is missing"
        continue
      r = misfit(ctx, have[n], t, q, seen + ((src, dst),))
      if r: return r
    return None
  if d == "uuid": return None if s in ("uuid", "uuidstr") else f"{what} is {_nm(src)} where a UUID is expected"
  if d == "enum": return None if s in ("enum",) and src[1] == dst[1] else (f"{what} is {_nm(src)} where a {dst[1].split('.')[-1]} is expected" if s != "prim" or src[1] != "str" else None)
  if d == "prim":
    if s == "prim":
      a, b = src[1], dst[1]
      ok = a == b or (a, b) in (("int", "float"), ("bool", "int"), ("bool", "float"))
      return None if ok else f"{what} is {_nm(src)} where {_nm(dst)} is expected"
    if s in ("uuid", "uuidstr", "enum"): return None if dst[1] == "str" else f"{what} is {_nm(src)} where {_nm(dst)} is expected"
    return f"{what} is {_nm(src)} where {_nm(dst)} is expected"
  if d in ("list", "set"):
    if s in ("list", "set"): return misfit(ctx, src[1], dst[1], path + "[]", seen)
    if s == "tuple": return next((r for x in src[1] for r in [misfit(ctx, x, dst[1], path + "[]", seen)] if r), None)
    return f"{what} is {_nm(src)} where {_nm(dst)} is expected"
  if d == "tuple":
    if s == "tuple":
      if len(src[1]) != len(dst[1]): return f"{what} has {len(src[1])} parts where {len(dst[1])} are expected"
      return next((r for x, y in zip(src[1], dst[1]) for r in [misfit(ctx, x, y, path + "[]", seen)] if r), None)
    return None if s == "list" else f"{what} is {_nm(src)} where {_nm(dst)} is expected"
  if d == "dict":
    if s == "dict": return misfit(ctx, src[1], dst[1], path + " key", seen) or misfit(ctx, src[2], dst[2], path + "{}", seen)
    return None if s in ("model", "fields") else f"{what} is {_nm(src)} where {_nm(dst)} is expected"
  return None


def _nm(w): return {"prim": lambda: "nothing" if w[1] == "none" else f"a {w[1]}", "uuid": lambda: "a UUID", "model": lambda: f"a {w[1].split('.')[-1]}", "enum": lambda: f"a {w[1].split('.')[-1]}"}.get(w[0], lambda: f"a {w[0]}")()


def adapter(ctx, t):
  """type of a module-level type adapter"""
  nm = t.a[0] if t.op in ("ext", "global", "modattr", "var") and t.a and isinstance(t.a[0], str) else show(t)
  if "." not in nm: return ANY
  mod, name = nm.rsplit(".", 1)
  m = ctx.p.modules.get(mod)
  vs = m.assigns.get(name, []) if m else []
  if len(vs) == 1 and isinstance(vs[0], ast.Call) and (dotted(vs[0].func) or "").split(".")[-1] == "TypeAdapter" and vs[0].args: return wire(ctx.p, vs[0].args[0], m)
  return ANY


def term_type(ctx, it, st, t):
  """(type, dumped?) of a term as it is handed to the network"""
  t = it.norm(t, st) if st is not None else t
  if t.op == "copy" and t.a[0] in ("list", "dict", "tuple"):
    w, d = term_type(ctx, it, st, t.a[1])
    return (("list", w[1] if w[0] in ("list", "set") else ANY) if t.a[0] != "dict" else w if w[0] in ("dict", "fields") else ANY), True
  if t.op == "raw": return term_type(ctx, it, None, t.a[0])
  if t.op == "const":
    v = t.a[0]
    return ("prim", "none" if v is None else type(v).__name__), True
  if t.op == "call" and call_name(t) in ("model_dump", "dict") and call_recv(t) is not None:
    r = call_recv(t)
    w, _ = term_type(ctx, it, st, r)
    return (dumped_type(ctx, w, dict(t.a[2] or ())) if w[0] == "model" else ANY), True
  if t.op == "call" and call_name(t) == "dump_python" and call_recv(t) is not None: return adapter(ctx, call_recv(t)), True
  q = validated_q(t)
  if q is not None: return q, False
  ty = it.type_of(t, st)
  if isinstance(ty, Class) and is_model(ctx.p, ty): return ("model", ty.qualname), False
  if t.op == "inst" and ctx.p.has_cls(t.a[0]) and is_model(ctx.p, ctx.p.cls(t.a[0])): return ("model", t.a[0]), False
  if t.op == "param":
    f = next((g for g in ctx.p.all_funcs() if g.qualname == t.a[1]), None)
    a = next((x for x in f.node.args.args + f.node.args.kwonlyargs if x.arg == t.a[0]), None) if f is not None else None
    w = wire(ctx.p, a.annotation, f.module) if a is not None else ANY
    return w, w[0] != "model"
  if t.op == "attr":
    w = known_type(ctx, it, st, t)
    if w == ANY: w = own_attr(ctx, it, st, t)
    return w, w[0] not in ("model", "fields")
  if t.op == "copy" and t.a[0] == "set" or t.op == "comp" and t.a[0] == "set" or t.op == "lit" and t.a[0] == "set": return ("set", ANY), True
  if t.op == "lit" and t.a[0] == "dict" and all(x.op == "kv" and is_const(x.a[0]) for x in t.a[1:]): return ("fields", tuple((x.a[0].a[0], term_type(ctx, it, st, x.a[1])[0]) for x in t.a[1:])), True
  return ANY, True


def dumped_type(ctx, w, kw):
  """type of a dumped model instance, given the arguments of the dump"""
  if not kw: return w
  names = lambda x: {y.a[0] for y in x.a[1:] if isinstance(y, T) and y.op == "const"} | {y.a[0].a[0] for y in x.a[1:] if isinstance(y, T) and y.op == "kv" and is_const(y.a[0])} if isinstance(x, T) and x.op == "lit" else set()
  fs = model_fields(ctx, w[1])
  keep = {n: t for n, (t, _, _) in fs.items()}
  if "include" in kw: keep = {n: t for n, t in keep.items() if n in names(kw["include"])}
  if "exclude" in kw: keep = {n: t for n, t in keep.items() if n not in names(kw["exclude"])}
  flag = lambda k: k in kw and kw[k] is not FALSE
  if flag("exclude_none"): keep = {n: t for n, t in keep.items() if ("prim", "none") not in (t[1] if t[0] == "union" else (t,))}
  if flag("exclude_unset") or flag("exclude_defaults"): keep = {n: t for n, t in keep.items() if fs[n][1]}
  if "mode" in kw and is_const(kw["mode"]) and kw["mode"].a[0] == "json": keep = {n: plain(t) for n, t in keep.items()}
  return ("fields", tuple(sorted((n, plain(t) if serialized(ctx, w[1], n) and t[0] in ("uuid", "enum") else t) for n, t in keep.items())))


def plain(t):
  """as JSON would have it"""
  if t[0] == "uuid": return ("uuidstr",)
  if t[0] == "enum": return ANY
  if t[0] == "time": return ("prim", "str")
  if t[0] in ("union", "tuple"): return (t[0], tuple(plain(x) for x in t[1]))
  if t[0] in ("set", "list"): return ("list", plain(t[1]))
  if t[0] == "dict": return ("dict", ("prim", "str"), plain(t[2]))
  return t


def own_attr(ctx, it, st, t):
  """type of an attribute from everything its class assigns to it"""
  c = it.type_of(t.a[0], st)
  if not isinstance(c, Class): return ANY
  vals = []
  for k in ctx.p.mro(c):
    if not isinstance(k, Class): continue
    for f in k.methods.values():
      for n in ast.walk(f.node):
        tgt = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
        for x in tgt:
          if isinstance(x, ast.Attribute) and x.attr == t.a[1] and isinstance(x.value, ast.Name): vals.append((getattr(n, "value", None), k.module))
  ws = {expr_type(ctx, v, m) for v, m in vals}
  return next(iter(ws)) if len(ws) == 1 else ANY


def expr_type(ctx, v, m, depth=0):
  if isinstance(v, ast.Constant): return ("prim", "none" if v.value is None else type(v.value).__name__)
  if isinstance(v, ast.JoinedStr): return ("prim", "str")
  if isinstance(v, (ast.Set, ast.SetComp)): return ("set", ANY)
  if isinstance(v, (ast.List, ast.ListComp)): return ("list", ANY)
  if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice): return expr_type(ctx, v.value, m, depth + 1)
  if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("hexdigest", "join", "lower", "upper", "strip", "format", "decode"): return ("prim", "str")
  if isinstance(v, ast.Call) and depth < 4:
    r = ctx.p.resolve_expr(v.func, m)
    if r is None: return ANY
    if r[0] == "ext": return {"builtins.set": ("set", ANY), "builtins.list": ("list", ANY), "builtins.sorted": ("list", ANY), "builtins.str": ("prim", "str"), "uuid.uuid4": ("uuid",)}.get(r[1], ANY)
    if r[0] == "func":
      f = r[1]
      if f.node.returns is not None: return wire(ctx.p, f.node.returns, f.module)
      rs = {expr_type(ctx, n.value, f.module, depth + 1) for n in ast.walk(f.node) if isinstance(n, ast.Return)}
      return next(iter(rs)) if len(rs) == 1 else ANY
    if r[0] == "class" and is_model(ctx.p, r[1]): return ("model", r[1].qualname)
  return ANY


def validated_q(t):
  if t.op == "call" and call_name(t) in ("model_validate", "model_validate_json", "model_construct") and isinstance(t.a[0].a[0], T) and t.a[0].a[0].op == "class": return ("model", t.a[0].a[0].a[0])
  return None


def expected(ctx, events, src):
  """types the events require of `src` (as a whole)"""
  out = []
  for e in events:
    if e.kind != "call" or e.res is None: continue
    q = validated_as(e.res, src)
    if q is None: continue
    f = e.res.a[0]
    b = f.a[0] if isinstance(f.a[0], T) else f
    out.append((("model", b.a[0]) if b.op == "class" else adapter(ctx, b), e))
  return out


def mentions(node, names): return any(isinstance(n, ast.Attribute) and n.attr in names or isinstance(n, ast.Name) and n.id in names for n in ast.walk(node))


def asks(node, recnames):
  """does the code send requests, signals or broadcasts, or make a receiver?"""
  for n in ast.walk(node):
    if not isinstance(n, ast.Call): continue
    nm, k = (dotted(n.func) or "").split(".")[-1] if not isinstance(n.func, ast.Attribute) else n.func.attr, len(n.args) + len(n.keywords)
    if nm == "fetch" and k >= 3 or nm == "send_signal" or nm == "send_stream_data" or nm == "broadcast" and k == 2 or nm in recnames: return True
  return False


def sites(ctx):
  """(requests, handlers, broadcasts, receivers) of the whole package"""
  reqs, hand, bcs, recs = [], {}, [], []
  p = ctx.p
  subs_ = {c.qualname: c for c in p.subclasses(p.cls(BC + ".BroadcastReceiver"))}
  recnames = {c.name for c in subs_.values()}
  CONST = {RESP, RERR, SENDTO, CL + ".fetch", SEND_SIGNAL, BCAST}
  byq = {}
  for g in p.all_funcs(): byq.setdefault(g.module.name, set()).add(g.qualname)
  def note(it, st, events, where):
    for e in events:
      if e.kind != "call": continue
      if (e.name == CL + ".fetch" or call_of(e, "fetch")) and len(e.args) + len(e.kw) >= 3:
        d, b = e.arg(1, "descriptor"), e.arg(2, "body")
        if d is not None and is_const(d): reqs.append(("fetch", d.a[0], it, st, b, e, events))
      elif e.name == SEND_SIGNAL:
        d, b = e.arg(2, "descriptor"), e.arg(3, "body")
        if d is not None and is_const(d): reqs.append(("signal", d.a[0], it, st, b, e, events))
      elif e.name == BCAST or call_of(e, "broadcast") and len(e.args) == 2: bcs.append((ns_of(it.norm(e.args[0], st)), it, st, e.args[1], e))
      elif call_of(e, "send_stream_data") and len(e.args) == 2: bcs.append((None, it, st, e.args[1], e))
      elif e.name in subs_ and len(e.args) >= 2:
        n = it.norm(e.args[1], st)
        for x in ns_list(n): recs.append((x, e.name, e))
  for m in p.modules.values():
    funcs = [f for f in p.all_funcs() if f.module is m and f.parent is None]
    if not funcs: continue
    outside = {q for k, v in byq.items() if k != m.name for q in v}
    serving = [f for f in funcs if mentions(f.node, {"FetchServer", "SignalServer"}) and f.module.name not in (FETCH, SIGNAL)]
    for f in serving:
      cfg = {"models": RAW}
      f_, hs = handlers(ctx, f.name if f.cls else f.qualname, f.cls, extra_stop=outside | CONST, **cfg)
      for key, v in hs.items():
        hand.setdefault(key, []).extend((it, s, f) for it, q, h, subs in v for s in subs)
        for it, q, h, subs in v:
          for s in subs: note(it, s.st, s.events, f)
    if m.name.startswith("streamtasks.net"): continue
    askers = [f for f in funcs if asks(f.node, recnames)]
    if not askers: continue
    for f in funcs:
      if f in serving or f.module.name in (FETCH, SIGNAL) or f.qualname in (CL + ".fetch", BCAST): continue
      if f not in askers and not mentions(f.node, {g.name for g in askers if g is not f}): continue
      it = ctx.interp(stop=outside | CONST, models=RAW)
      for q in ctx.run(it, f, **({"selfcls": f.cls} if f.cls else {})): note(it, q.st, q.events, f)
  return reqs, hand, bcs, recs


def ns_of(t):
  """a namespace with its variable parts left open"""
  if is_const(t): return t.a[0]
  if t.op == "fstr": return "".join(x if isinstance(x, str) else x.a[0] if isinstance(x, T) and x.op == "const" and isinstance(x.a[0], str) else "{}" for x in t.a)
  if t.op == "bin" and t.a[0] in ("Add", "+"): return "".join(str(ns_of(x) or "{}") for x in t.a[1:])
  return None


def ns_list(t):
  while t.op == "copy": t = t.a[1]
  if t.op == "tuple": return [ns_of(x) for x in t.a]
  if t.op == "lit": return [ns_of(x) for x in t.a[1:] if isinstance(x, T)]
  if t.op == "comp": return [ns_of(e) for ok, _, e in t.a[2] if ok]
  return []


def c07(ctx):
  R1 = ctx.rule("handled", "every request and signal has a handler of its kind", 25)
  R2 = ctx.rule("requests", "every request body has what its handler requires, in the types it requires", 20)
  R3 = ctx.rule("answers", "every answer has what the one who asked requires", 12)
  R4 = ctx.rule("broadcasts", "every broadcast has what its receivers require", 4)
  R5 = ctx.rule("compared", "handlers compare only values that can be equal", 10)
  R6 = ctx.rule("encodable", "everything sent can be encoded for a connection and decoded again", 30)
  reqs, hand, bcs, recs = sites(ctx)
  models = set()
  def enc(it, st, t, e, tag, must_dump=False):
    w, d = term_type(ctx, it, st, t)
    if w[0] == "model": models.add(w[1])
    if must_dump and w[0] == "model": ctx.check(d, R6, tag + "[dumped]", "a model instance is put on the wire without being dumped", e.loc)
    r = unencodable(ctx, w)
    ctx.check(r is None, R6, tag, f"{r}, which cannot be encoded", e.loc)
    return w
  wanted = {}
  for key, v in hand.items():
    k, d = key
    src = attr(REQ, "body") if k == "fetch" else DATA
    for it, s, f in v:
      for w, e in expected(ctx, s.events, src): wanted.setdefault(key, []).append((w, e))
      for e, t in answers(it, s): enc(it, s.st, e.args[0], e, f"{k}:{d}[answer]")
      seen = set()
      for t in [a for a, _ in s.facts] + [it.norm(x, s.st) for e in s.events for x in e.args or () if isinstance(x, T)]:
        for x in subterms(t):
          if x.op != "eq" or x in seen: continue
          seen.add(x)
          a, b = [known_type(ctx, it, s.st, y) for y in x.a]
          if ANY in (a, b): continue
          ctx.check(not disjoint(a, b), R5, f"{k}:{d}", f"{show(x.a[0])[:60]} ({_nm(a)}) is compared with {show(x.a[1])[:60]} ({_nm(b)})", f"{f.file}:{f.line}", s)
      ctx.ok(R5, f"{k}:{d}")
  seen = set()
  for k, d, it, st, b, e, events in reqs:
    tag = f"{k}:{d}"
    if not ctx.check((k, d) in hand, R1, tag, f"nobody handles the {'request' if k == 'fetch' else 'signal'}", e.loc): continue
    w = enc(it, st, b, e, f"{tag}[request {e.loc.split(':')[0]}]") if b is not None else ("prim", "none")
    for x, _ in wanted.get((k, d), []):
      r = misfit(ctx, w, x)
      ctx.check(r is None, R2, tag, r or "", e.loc)
    if not wanted.get((k, d)): ctx.ok(R2, tag)
    if k == "fetch":
      res = mk("awaited", e.res)
      for x, y in expected(ctx, events, res):
        for it2, s, f in hand[(k, d)]:
          an = answers(it2, s)
          ww = [term_type(ctx, it2, s.st, z.args[0])[0] for z, _ in an]
          if s.kind == "return" and not an and not any(z.kind == "call" and z.name == RERR for z in s.events): ww = [("prim", "none")]
          for z in ww:
            r = misfit(ctx, z, x)
            ctx.check(r is None, R3, tag, f"in the answer {r}", y.loc)
      eqs = [t for z in events for t in z.facts if t[0].op == "eq" and res in t[0].a]
      for a, v in eqs[:4]:
        other = [y for y in a.a if y is not res][0] if any(y is not res for y in a.a) else None
        if other is None or not is_const(other): continue
        vals = [t for it2, s, f in hand[(k, d)] for _, t in answers(it2, s)]
        ctx.check(any(not is_const(t) or t.a[0] == other.a[0] for t in vals), R3, tag + "[value]", f"no answer is ever {show(other)}", e.loc)
  for ns, rq, e in recs:
    if ns is None: continue
    c = ctx.p.cls(rq)
    f = ctx.method(c, "transform_data")
    data = mk("param", f.node.args.args[2].arg, f.qualname)
    it = ctx.interp(stop={"streamtasks.net.serialization.RawData.data"})
    exp = []
    for q in ctx.run(it, f, selfcls=c):
      for x in q.events:
        if x.kind == "call" and x.res is not None and call_name(x.res) == "model_validate" and any(contains(y, data) for y in x.args) and x.res.a[0].a[0].op == "class": exp.append(("model", x.res.a[0].a[0].a[0]))
    out = [b for b in bcs if b[0] == ns]
    ctx.check(bool(out), R4, f"{rq.split('.')[-1]}[{ns}]", f"nobody broadcasts in {ns}", e.loc)
    for _, it2, st2, t, e2 in out:
      w = term_type(ctx, it2, st2, t)[0]
      for x in exp:
        r = misfit(ctx, w, x)
        ctx.check(r is None, R4, f"{rq.split('.')[-1]}[{ns}]", f"in a broadcast {r}", e2.loc)
  for ns, it, st, t, e in bcs: enc(it, st, t, e, f"broadcast:{ns}", True)


def known_type(ctx, it, st, t):
  if t.op == "const": return ("prim", "none") if t.a[0] is None else ("prim", type(t.a[0]).__name__)
  if t.op == "attr":
    b = t.a[0]
    w = validated_q(b)
    if w is None:
      ty = it.type_of(b, st)
      w = ("model", ty.qualname) if isinstance(ty, Class) and is_model(ctx.p, ty) else None
    if w is not None: return model_fields(ctx, w[1]).get(t.a[1], (ANY,))[0]
  return ANY


def disjoint(a, b):
  if "any" in (a[0], b[0]): return False
  if a[0] == "union": return all(disjoint(x, b) for x in a[1])
  if b[0] == "union": return all(disjoint(a, x) for x in b[1])
  num = ("int", "float", "bool")
  if a[0] == b[0] == "prim": return a[1] != b[1] and not (a[1] in num and b[1] in num)
  return a[0] != b[0] and "dict" not in (a[0], b[0])


RULES = {"C07": c07}
