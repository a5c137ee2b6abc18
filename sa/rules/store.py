"""Stored data: deployments, tasks, dashboards, named topics, secrets and connections, and the runs of deployments."""
from __future__ import annotations
import ast
from .sysr import *

ASV = "streamtasks.asgiserver"
HC = ASV + ".HTTPContext"
PDB = "streamtasks.pydanticdb.PydanticDB"
TW = "streamtasks.system.task_web"
TWB, STORE = TW + ".TaskWebBackend", TW + ".TaskWebBackendStore"
NTM = "streamtasks.system.named_topic_manager.NamedTopicManager"
SEC = "streamtasks.system.secret_manager.SecretManager"
CONM = "streamtasks.system.connection_manager"
SAVE, ANSWER, BODY = PDB + ".save", HC + ".respond_buffer", HC + ".receive_text"
HTTP_ROUTE = ASV + ".ASGIRouter.add_http_route"
WEBSTOP = {ASV + ".PathPattern.__init__", HTTP_ROUTE, ASV + ".ASGIRouter.add_websocket_route", ASV + ".ASGIRouter.add_transport_route", ASV + ".ASGIHandlerStack.add_handler",
           "streamtasks.asgi.ASGIAppRunner.run", ASV + ".static_files_handler", ANSWER, HC + ".respond_file", BODY, SAVE, CL + ".fetch", SEND_SIGNAL}
SCOPE, RECEIVE, SEND = mk("scope"), mk("receive"), mk("send")


class Web:
  """the http routes a function sets up: handlers are analysed in the state the application is run in"""
  def __init__(self, ctx, cls, fname, extra_stop=(), **cfg):
    self.ctx, self.cls = ctx, ctx.p.cls(cls)
    self.f = ctx.method(self.cls, fname)
    self.it = ctx.interp(**{"decorate": True, **cfg, "stop": WEBSTOP | set(extra_stop)})
    self.routes, self.memo = {}, {}
    for p in ctx.run(self.it, self.f, selfcls=self.cls):
      for e in p.events:
        if e.kind != "call" or e.name != HTTP_ROUTE: continue
        path, ms, h = self.it.norm(e.arg(1, "path"), p.st), self.it.norm(e.arg(2, "methods"), p.st), e.arg(0, "handler")
        if not is_const(path): continue
        for m in elems(ms) or ([ms] if is_const(ms) else []):
          if is_const(m): self.routes.setdefault((str(m.a[0]).upper(), path.a[0]), (p, h))

  def subs(self, method, path):
    """paths of the handler of a request, or None when there is no such route"""
    k = (method, path)
    if k not in self.memo:
      r = self.routes.get(k)
      if r is None: return None
      out = invoke(self.ctx, self.it, r[0], r[1], [SCOPE, RECEIVE, SEND])
      self.memo[k] = [s for s in out if not any(a.op == "eq" and const("http") in a.a and v is False and any(contains(x, SCOPE) for x in a.a if isinstance(x, T)) for a, v in s.facts)]
    return self.memo[k]


def canon(t):
  """a value without copying (deep copies, re-validated dumps, wrapped lists), with the body and the path parameters of the request named"""
  def f(x):
    if x.op == "copy": return x.a[1]
    if x.op == "call":
      fn = ext_name(x)
      if fn in ("copy.deepcopy", "copy.copy") and x.a[1]: return x.a[1][0]
      n = call_name(x)
      if n in ("model_validate", "model_construct") and x.a[1] and call_name(x.a[1][0]) == "model_dump" and not x.a[1][0].a[1]: return call_recv(x.a[1][0])
      if n == "model_copy" and not x.a[1] and not x.a[2]: return call_recv(x)
      if fn in ("builtins.list", "builtins.tuple", "builtins.iter") and len(x.a[1]) == 1: return x.a[1][0]
      if n in ("model_validate_json", "model_validate", "validate_json", "validate_python") and x.a[1] and call_recv(x) is not None:
        y = x.a[1][0]
        if contains(y, lambda z: z.op == "call" and call_name(z) == "receive_text") or contains(y, REQ) or contains(y, DATA): return mk("body", call_recv(x).a[0] if call_recv(x).op == "class" else show(call_recv(x)))
      if len(x.a[1]) == 1 and x.a[1][0].op == "wparam":
        if x.a[0].op in ("ext", "class") and x.a[0].a[0].split(".")[-1] in ("UUID", "UUID4"): return mk("wparam", x.a[1][0].a[0], "uuid")
        if fn in ("urllib.parse.unquote", "builtins.str"): return x.a[1][0]
    g = get_of(x)
    if g is not None and is_const(g[1]):
      g1 = get_of(g[0])
      g2 = get_of(g1[0]) if g1 is not None else None
      if g2 is not None and g2[0] is SCOPE: return mk("wparam", g[1].a[0])
    return x
  return rewrite(t, f)


def C(it, s, t): return canon(it.norm(canon(t), s.st))


def the_param(t, name): return t is mk("wparam", name, "uuid") if name.endswith("id") else t is mk("wparam", name)


def body_model(t): return t.op == "body"


def body_field(t, name): return t.op == "attr" and t.a[1] == name and body_model(t.a[0])


def writes(it, s):
  """[(event, database term, new entries in canonical form)]"""
  return [(e, C(it, s, e.recv), C(it, s, e.args[0])) for e in s.events if e.kind == "setattr" and e.name == "_entries" and e.recv is not None]


def saves(it, s): return [(e, C(it, s, e.recv)) for e in s.events if e.kind == "call" and e.name == SAVE and e.recv is not None]


def cfacts(it, s, facts=None): return [(C(it, s, a), v) for a, v in (s.facts if facts is None else facts)]


def of(x, base): return x.op == "elem" and x.a[0] is base


def key_eq(a, base, key, X):
  """is the atom `entry.key == X` for some stored entry?"""
  if a.op not in ("eq", "is") or len(a.a) != 2 or X not in a.a: return False
  y = a.a[0] if a.a[1] is X else a.a[1]
  return y.op == "attr" and y.a[1] == key and of(y.a[0], base)


def veq(facts, base, key, X, E=None):
  """last known truth of `entry.key == X` (for the entry E, or any)"""
  r = None
  for a, v in facts:
    if key_eq(a, base, key, X) and (E is None or contains(a, E)): r = v
  return r


def empty(facts, base): return any(a.op == "truthy" and a.a[0] is base and not v for a, v in facts)


def misses(t, base, key=None, X=None):
  """may a search over the entries pass over one (with this key)?"""
  for y in subterms(t):
    if y.op != "comp" or not contains(y, base): continue
    for ok, fs, e in y.a[2]:
      fs = list(fs or ())
      if ok or any(a.op == "truthy" and a.a[0] is base and not v for a, v in fs): continue
      if X is not None and any(key_eq(a, base, key, X) and not v for a, v in fs): continue
      return True
  return False


def mistakes(t, base, key, X):
  """may a search over the entries find one without this key?"""
  return any(ok and not any(key_eq(a, base, key, X) and v for a, v in fs or ()) for y in subterms(t) if y.op == "comp" and contains(y, base) for ok, fs, e in y.a[2])


def none_such(facts, base, key, X):
  """is it known that no entry has this key (a search found none)?"""
  for a, v in facts:
    if a.op == "anyof" and v is False and contains(a, lambda y: key_eq(y, base, key, X)): return not misses(a, base, key, X)
    if a.op == "in" and v is False and a.a[0] is X and contains(a.a[1], lambda y: y.op == "attr" and y.a[1] == key and of(y.a[0], base)): return not misses(a.a[1], base)
  return empty(facts, base)


def some_such(facts, base, key, X):
  """is it known that an entry has this key (one was found)?"""
  for a, v in facts:
    if v is not True: continue
    if key_eq(a, base, key, X) or a.op == "anyof" and contains(a, lambda y: key_eq(y, base, key, X)) and (len(a.a) < 2 or not mistakes(a, base, key, X)): return True
    if a.op == "in" and a.a[0] is X and contains(a.a[1], lambda y: y.op == "attr" and y.a[1] == key and of(y.a[0], base)): return True
  return False


def alts_of(t): return [(ok, list(fs or ()), e) for ok, fs, e in t.a[2]] if t.op == "comp" else None


def parts_of(t, base):
  """members of a new list of entries: ('old', alternatives) | ('all',) | ('elem', term) | ('new', term) | ('dict', term) | ('?', term)"""
  if t is base: return [("all",)]
  if t.op == "bin" and t.a[0] == "+": return parts_of(t.a[1], base) + parts_of(t.a[2], base)
  if t.op == "lit":
    out = []
    for x in t.a[1:]:
      if x.op == "spread": out += parts_of(x.a[0], base)
      elif of(x, base): out.append(("elem", x))
      else: out.append(("new", x))
    return out
  if t.op == "comp":
    al = alts_of(t)
    if all(of(e, base) for ok, _, e in al if ok): return [("old", al)]
  if ext_name(t) in ("itertools.chain",): return [y for x in t.a[1] for y in parts_of(x, base)]
  if t.op == "call" and call_name(t) == "values" and call_recv(t) is not None: return [("dict", call_recv(t))]
  return [("?", t)]


def drops_only(al, base, key, X):
  """does a filter keep exactly the entries whose key is not X?"""
  seen = False
  for ok, fs, e in al:
    v = veq(fs, base, key, X)
    if v is None:
      if not ok and empty(fs, base): continue
      return False
    if ok is v: return False
    seen = True
  return seen


def new_entries(it, s, e, base, t, key, X):
  """(are exactly the entries with another key kept?, the members added) for entries `t` written at event e"""
  facts = cfacts(it, s, e.facts)
  added, kept = [], None
  ps = parts_of(t, base)
  for p in ps:
    if p[0] == "all": kept = none_such(facts, base, key, X) if kept is None else False
    elif p[0] == "old":
      kept = drops_only(p[1], base, key, X) if kept is None else False
      for op in s.events[:s.events.index(e)]:      # members put into the list afterwards
        if op.kind != "call" or op.recv is None or not op.args or C(it, s, op.recv) is not t: continue
        if call_of(op, "append"): added.append(C(it, s, op.args[0]))
        elif call_of(op, "insert"): added.append(C(it, s, op.args[1]))
        elif any(call_of(op, x) for x in ("extend", "remove", "pop", "clear", "reverse", "sort")): return False, added
    elif p[0] == "new": added.append(p[1])
    elif p[0] == "dict":
      al = alts_of(p[1])
      if al is None or not all(x.op in ("tuple", "kv") and of(x.a[1], base) and x.a[0] is attr(x.a[1], key) for ok, _, x in al if ok) or not all(empty(fs, base) for ok, fs, _ in al if not ok): return False, added
      kept = False
      for op in s.events:
        if op.recv is not None and C(it, s, op.recv) is p[1]:
          k = C(it, s, op.args[0]) if op.args else None
          if op.kind == "setitem" and k is X: added.append(C(it, s, op.args[1])); kept = True
          elif (op.kind == "delitem" or op.kind == "call" and call_of(op, "pop")) and k is X: kept = True
          elif op.kind == "call" and call_of(op, "values"): pass
          else: return False, added
    elif p[0] == "?": return False, added
  if kept is None:      # built by a loop: judged on the iteration this path took
    elem_in = [p[1] for p in ps if p[0] == "elem"]
    if elem_in: kept = len(elem_in) == 1 and veq(facts, base, key, X, elem_in[0]) is False
    else: kept = veq(facts, base, key, X) is True or empty(facts, base)
  return kept, added


def db_fields(ctx, cls):
  """{model class: attribute holding the database of its instances}"""
  c = ctx.p.cls(cls)
  f = ctx.method(c, "__init__", False)
  it = ctx.interp(stop={PDB + ".__init__", "streamtasks.system.task_web.TaskWebPathHandler.__init__", "streamtasks.env.get_data_sub_dir"})
  out = {}
  for p in ctx.run(it, f, selfcls=c):
    args = {}
    for e in p.events:
      if e.kind == "call" and e.name == PDB + ".__init__" and e.recv is not None: args[e.recv] = e
      if e.kind == "call" and e.name == PDB and e.res is not None: args[e.res] = e
      if e.kind == "setattr" and e.recv is mk("self", c.qualname) and isinstance(e.args[0], T) and e.args[0] in args:
        m = args[e.args[0]].arg(0, "model")
        if m is not None and m.op == "class": out[m.a[0]] = e.name
  return out


def status_of(e):
  s = e.arg(0, "status")
  return s.a[0] if s is not None and is_const(s) else None


def web_answers(it, s): return [(e, status_of(e), C(it, s, e.arg(1, "content"))) for e in s.events if e.kind == "call" and e.name == ANSWER]


def fetch_answers(it, s): return [(e, 200 if e.name == RESP else 400, C(it, s, e.args[0]) if e.args else NONE) for e in s.events if e.kind == "call" and e.name in (RESP, RERR)]


class Requests:
  """the requests of the stored data: (what, [(interp, Sub, answers)])"""
  def __init__(self, ctx):
    self.ctx = ctx
    self.web = {c: Web(ctx, c, f) for c, f in ((TWB, "run_asgi_server"), (NTM, "run_web_server"), (SEC, "run_web_server"))}
    self.fetch = {}
    for c in (NTM, SEC): self.fetch[c] = handlers(ctx, "run_fetch_server", ctx.p.cls(c), extra_stop={SAVE})[1]

  def get(self, c, how, what):
    """[(interp, Sub, answers)] or None"""
    if how == "fetch":
      l = self.fetch[c].get(("fetch", what))
      return None if l is None else [(it, s, fetch_answers(it, s)) for it, p, h, subs in l for s in subs]
    w = self.web[c]
    subs = w.subs(how, what)
    return None if subs is None else [(w.it, s, web_answers(w.it, s)) for s in subs]


DEP, TSKM, DASH = TW + ".DeploymentBase", TW + ".StoredTask", TW + ".DeploymentDashboard"
NT, SM = "streamtasks.system.named_topic_manager.NamedTopicModel", "streamtasks.system.secret_manager.SecretModel"
PUTS = [  # (class, how, what, model, operation, key, path parameter)
  (TWB, "POST", "/api/deployment", DEP, "create", "id", None), (TWB, "PUT", "/api/deployment", DEP, "replace", "id", None), (TWB, "DELETE", "/api/deployment/{id}", DEP, "remove", "id", "id"),
  (TWB, "PUT", "/api/dashboard", DASH, "put", "id", None), (TWB, "DELETE", "/api/dashboard/{id}", DASH, "remove", "id", "id"),
  (TWB, "PUT", "/api/task", TSKM, "put", "id", None), (TWB, "DELETE", "/api/task/{id}", TSKM, "remove", "id", "id"),
  (NTM, "PUT", "/api/named-topic", NT, "put", "name", None), (NTM, "DELETE", "/api/named-topic/{name}", NT, "remove", "name", "name"),
  (NTM, "fetch", "put_named_topic", NT, "put", "name", None), (NTM, "fetch", "delete_named_topic", NT, "remove", "name", "body"),
  (SEC, "PUT", "/api/secret", SM, "put", "id", None), (SEC, "DELETE", "/api/secret/{id}", SM, "remove", "id", "id"),
  (SEC, "fetch", "put_secret", SM, "put", "id", None), (SEC, "fetch", "delete_secret", SM, "remove", "id", "body"),
]
READS = [  # (class, how, what, model, key of the entries answered, path parameter, one or many)
  (TWB, "GET", "/api/deployments", DEP, None, None, "all"), (TWB, "GET", "/api/deployment/{id}", DEP, "id", "id", "one"),
  (TWB, "GET", "/api/deployment/{id}/tasks", TSKM, "deployment_id", "id", "some"), (TWB, "GET", "/api/deployment/{id}/dashboards", DASH, "deployment_id", "id", "some"),
  (TWB, "GET", "/api/dashboard/{id}", DASH, "id", "id", "one"),
  (NTM, "GET", "/api/named-topics", NT, None, None, "all"), (NTM, "GET", "/api/named-topic/{name}", NT, "name", "name", "one"),
  (NTM, "fetch", "list_named_topics", NT, None, None, "all"), (NTM, "fetch", "get_named_topic", NT, "name", "body", "one"), (SEC, "fetch", "get_secret", SM, "id", "body", "one"),
]


def bases(ctx):
  """{model: term of the stored entries as the request handlers see them}"""
  out = {}
  me = mk("self", TWB)
  store = None
  f = ctx.method(TWB, "__init__", False)
  for n in ast.walk(f.node):
    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and dotted_name(n.value.func) == STORE.split(".")[-1] and isinstance(n.targets[0], ast.Attribute): store = attr(me, n.targets[0].attr)
  for m, a in db_fields(ctx, STORE).items():
    if store is not None: out[m] = attr(attr(store, a), "_entries")
  for c in (NTM, SEC):
    for m, a in db_fields(ctx, c).items(): out[m] = attr(attr(mk("self", c), a), "_entries")
  return out, store


def dotted_name(n): return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None


def key_of(t, how, key, param):
  """is t the key of the entry the request is about?"""
  if how == "fetch" or param is None: return body_field(t, key)
  return the_param(t, param)


def request_key(s, it, how, key, param, base):
  """the term of the requested key: what the handler compares the keys of entries with"""
  c = list(dict.fromkeys(x for x in _terms(s, it) if key_of(x, how, key, param)))
  for x in c:
    if any(key_eq(y, base, key, x) for y in _terms(s, it)): return x
  return c[0] if c else None


def _terms(s, it):
  seen = set()
  for a, v in s.facts:
    for x in subterms(C(it, s, a)):
      if x not in seen: seen.add(x); yield x
  for e in s.events:
    for a in e.args or ():
      if isinstance(a, T):
        for x in subterms(C(it, s, a)):
          if x not in seen: seen.add(x); yield x


def s06(ctx):
  R1 = ctx.rule("stored", "a request that stores an entry leaves exactly one entry with its key, the one of the request, and keeps every other entry as it was", 8)
  R2 = ctx.rule("removed", "a request that deletes removes exactly the entry with the requested key", 6)
  R3 = ctx.rule("saved", "a change is saved before it is answered as done, and nothing is answered as done that was not changed", 12)
  R4 = ctx.rule("exists", "creating an existing deployment, or updating one that does not exist, is refused", 2)
  R5 = ctx.rule("read", "a request for one entry answers the entry with that key, one for a deployment's entries those of that deployment, a list all entries", 8)
  B, store = bases(ctx)
  rq = Requests(ctx)
  for c, how, what, m, op, key, param in PUTS:
    tag = f"{c.split('.')[-1]}[{how} {what}]"
    subs = rq.get(c, how, what)
    if not ctx.check(subs is not None and bool(subs) and m in B, R3, tag, "the request is not served", ctx.p.cls(c).file): continue
    base = B[m]
    R = R2 if op == "remove" else R1
    done = False
    for it, s, ans in subs:
      ws = [w for w in writes(it, s) if w[1] is base.a[0]]
      ok = [a for a in ans if a[1] is not None and a[1] < 300 or a[1] is None]
      sv = [e for e, d in saves(it, s) if d is base.a[0]]
      idx = {id(e): i for i, e in enumerate(s.events)}
      X = request_key(s, it, how, key, param, base)
      other = [w for w in writes(it, s) if w[1] is not base.a[0]]
      ctx.check(not other, R, tag + "[other]", "entries of another kind are changed", other[0][0].loc if other else "", s)
      for e, d, t in ws:
        if X is None and empty(cfacts(it, s, e.facts), base): X = mk("nokey")    # nothing is stored yet: no key was compared
        if not ctx.check(X is not None, R, tag, "the entry is not chosen by the key of the request", e.loc, s): continue
        kept, added = new_entries(it, s, e, base, t, key, X)
        ctx.check(kept, R, tag + "[others]", "another entry is lost, or the old one is kept", e.loc, s)
        if op == "remove": ctx.check(not added, R, tag + "[added]", "an entry is added", e.loc, s)
        else: ctx.check(len(added) == 1 and (body_model(added[0])), R, tag + "[entry]", "what is stored is not the entry of the request" if added else "the entry is not stored", e.loc, s)
        if op in ("create", "replace"):
          facts = cfacts(it, s, e.facts)
          gone = none_such(facts, base, key, X)
          if op == "create": ctx.check(gone, R4, tag, "an existing entry is replaced", e.loc, s)
          elif not empty(facts, base): ctx.check(some_such(facts, base, key, X), R4, tag, "an entry that does not exist is created", e.loc, s)
      if ok:
        a = ok[0][0]
        before = [w for w in ws if idx[id(w[0])] < idx[id(a)]]
        absent = op == "remove" and X is not None and not ws and none_such(cfacts(it, s), base, key, X)
        if absent: continue
        if not ctx.check(bool(before), R3, tag + "[done]", "the request is answered as done without a change", a.loc, s): continue
        ctx.check(any(idx[id(before[-1][0])] < idx[id(x)] < idx[id(a)] for x in sv), R3, tag, "the change is answered before it is saved", a.loc, s)
        done = True
      elif ws: ctx.check(s.kind == "raise", R3, tag + "[refused]", "a request is refused after its change", ws[0][0].loc, s)
    ctx.check(done, R3, tag + "[served]", "the request never succeeds", ctx.p.cls(c).file)
  for c, how, what, m, key, param, kind in READS:
    tag = f"{c.split('.')[-1]}[{how} {what}]"
    subs = rq.get(c, how, what)
    if not ctx.check(subs is not None and bool(subs) and m in B, R5, tag, "the request is not served", ctx.p.cls(c).file): continue
    base = B[m]
    done = False
    for it, s, ans in subs:
      for e, st, t in ans:
        if st is None or st >= 300: continue
        done = True
        facts = cfacts(it, s)
        if kind == "one":
          X = request_key(s, it, how, key, param, base)
          got = [x for x in subterms(t) if of(x, base)]
          ctx.check(X is not None and bool(got) and all(veq(facts, base, key, X, x) is True for x in got), R5, tag, "another entry is answered", e.loc, s)
        elif kind == "all":
          good = contains(t, base)
          for x in subterms(t):
            if x.op == "comp" and contains(x, base) and any(not ok and not empty(fs, base) for ok, fs, el in alts_of(x)): good = False
          ctx.check(good or empty(facts, base), R5, tag, "entries are missing from the list", e.loc, s)
        else:
          X = request_key(s, it, how, key, param, base)
          al = [(ok, fs) for x in subterms(t) if x.op == "comp" and contains(x, base) for ok, fs, el in alts_of(x)]
          sel = [(ok, veq(fs, base, key, X)) for ok, fs in al] if X is not None else []
          if any(v is not None for _, v in sel): good = all(v is ok for ok, v in sel if v is not None)
          else: good = X is not None and (empty(facts, base) or veq(facts, base, key, X) is not None and contains(t, lambda x: of(x, base)) is veq(facts, base, key, X))
          ctx.check(good, R5, tag, "entries of another deployment are answered, or some are missing", e.loc, s)
    ctx.check(done, R5, tag + "[served]", "the request never succeeds", ctx.p.cls(c).file)



def in_run(facts, RD, t):
  """is it known whether the deployment with id t is scheduled or running?"""
  r = None
  for a, v in facts:
    if a.op == "in" and a.a[0] is t and a.a[1] is RD: r = v
    elif a.op == "truthy":
      g = get_of(a.a[0])
      if g is not None and g[0] is RD and g[1] is t: r = v
    elif a.op == "is" and NONE in a.a:
      g = get_of(a.a[0] if a.a[1] is NONE else a.a[1])
      if g is not None and g[0] is RD and g[1] is t and a.a[0].op == "call": r = not v
    elif a.op == "anyof" and v is False and contains(a, lambda y: y.op == "eq" and t in y.a and contains(y, RD)): r = False
  return r


def running_field(ctx, store):
  """the mapping of the scheduled and running deployments: what the store keeps besides its files"""
  f = ctx.method(STORE, "__init__", False)
  c = ctx.p.cls(STORE)
  it = ctx.interp(stop={PDB + ".__init__", "streamtasks.env.get_data_sub_dir"})
  for p in ctx.run(it, f, selfcls=c):
    for e in p.events:
      if e.kind == "setattr" and e.recv is mk("self", STORE):
        t = it.norm(e.args[0], p.st)
        if t is mk("lit", "dict"): return attr(store, e.name)
  return None


def asked(RD):
  """model of a request to another node: deployments may be started and stopped meanwhile"""
  def m(it, f, a, k, n, st, fr):
    res = mk("fetched", n.lineno, n.col_offset)
    s = st.event(it._mkev("call", st, fr, n, name=CL + ".fetch", recv=f.a[0] if f.a and isinstance(f.a[0], T) else None, args=tuple(a), fterm=f, res=res, awaited=True, kw=tuple(k))).copy()
    s.known = {x: v for x, v in s.known.items() if not contains(it.norm(x, s), RD)}
    return [("v", res, s)]
  return m


def s05(ctx):
  R1 = ctx.rule("frozen", "stored deployments and tasks are only changed where neither the deployment, nor the one a stored task belongs to, nor the one it is moved to is scheduled or running", 10)
  R2 = ctx.rule("once", "a deployment is only scheduled when it is not scheduled or running already", 1)
  R3 = ctx.rule("refused", "a request to change a running deployment is refused, not answered as done", 4)
  R4 = ctx.rule("current", "nothing is waited for between the check that a deployment is not running and the change", 4)
  B, store = bases(ctx)
  RD = running_field(ctx, store)
  if not ctx.check(RD is not None, R1, STORE, "running deployments are not kept", ctx.p.cls(STORE).file): return
  rq = Web(ctx, TWB, "run_asgi_server", models={CL + ".fetch": asked(RD)})
  D, TK = B.get(DEP), B.get(TSKM)
  for how, what in rq.routes:
    tag = f"{how} {what}"
    for s in rq.subs(how, what):
      it = rq.it
      if impossible(cfacts(it, s), (D, TK)): continue
      ans = web_answers(it, s)
      done = [a for a in ans if a[1] is not None and a[1] < 300]
      for e, d, t in writes(it, s):
        if D is None or TK is None or d is not D.a[0] and d is not TK.a[0]: continue
        base = D if d is D.a[0] else TK
        facts = cfacts(it, s, e.facts)
        ps = parts_of(t, base)
        new = [p[1] for p in ps if p[0] == "new"]
        key = affected(it, s, base)
        guards = []
        if base is D:
          for k in key:
            if none_such(facts, base, "id", k): continue     # a new deployment
            guards.append(k)
        else:
          guards += [attr(n, "deployment_id") for n in new]
          for k in key:
            if none_such(facts, base, "id", k): continue
            for a, v in facts:
              if key_eq(a, base, "id", k) and v is True:
                E = next(y.a[0] for y in a.a if y.op == "attr" and of(y.a[0], base))
                guards.append(("old", E))
        for g in guards:
          if isinstance(g, tuple):
            # another look-up of the same entry will do: any stored task with that id
            okg = any(in_run(facts, RD, attr(x, "deployment_id")) is False for x in {y.a[0] for a, v in facts for y in subterms(a) if y.op == "attr" and y.a[1] == "deployment_id" and of(y.a[0], base)} if x is g[1] or any(key_eq(a, base, "id", k) and v is True and contains(a, x) for a, v in facts for k in key))
            ctx.check(okg, R1, f"{tag}[stored]", "a task of a running deployment is changed", e.loc, s)
          else:
            okg = in_run(facts, RD, g) is False
            ctx.check(okg, R1, f"{tag}[{'deployment' if base is D else 'new'}]", "a running deployment is changed", e.loc, s)
        i = s.events.index(e)
        seen = [j for j, x in enumerate(s.events[:i]) if (x.kind == "await" or x.kind == "call" and x.awaited and not x.inlined)]
        if guards and seen:
          x = s.events[seen[-1]]
          old = cfacts(it, s, x.facts)
          stale = [g for g in guards if not isinstance(g, tuple) and in_run(old, RD, g) is False]
          ctx.check(not stale, R4, tag, "the deployment may have been scheduled since it was checked", e.loc, s)
        elif guards: ctx.ok(R4, tag)
      facts = cfacts(it, s)
      hit = [a for a, v in facts if a.op == "in" and a.a[1] is RD and v]
      if how in ("PUT", "DELETE", "POST") and changes(rq, how, what, (D, TK)):
        if hit and not writes(it, s): ctx.check(not done, R3, tag, "the request is answered as done although nothing was changed", done[0][0].loc if done else "", s)
      for e in s.events:
        puts = e.kind == "setitem" or e.kind == "call" and (call_of(e, "setdefault") or call_of(e, "update")) and e.args and not e.inlined
        if puts and e.recv is not None and C(it, s, e.recv) is RD:
          if not ctx.check(e.kind == "setitem", R2, tag, "what is scheduled may not be what is kept", e.loc, s): continue
          k = C(it, s, e.args[0])
          i = s.events.index(e)
          w = next((x for x in reversed(s.events[:i]) if x.kind == "await" or x.kind == "call" and x.awaited and not x.inlined), None)
          new = e.facts[len(w.facts):] if w is not None and e.facts[:len(w.facts)] == w.facts else e.facts
          ctx.check(in_run(cfacts(it, s, new), RD, k) is False, R2, tag, "a deployment that is already scheduled, or may have been since it was checked, is scheduled again", e.loc, s)


def impossible(facts, Bs):
  """stored entries are model instances: never None or empty"""
  return any(a.op == "is" and v and NONE in a.a and any(of(x, b) for x in a.a for b in Bs) or a.op == "truthy" and not v and any(of(a.a[0], b) for b in Bs) for a, v in facts)


def changes(rq, how, what, Bs):
  return any(d is b.a[0] for s in rq.subs(how, what) for _, d, _ in writes(rq.it, s) for b in Bs)


def affected(it, s, base):
  """keys of the entries a request is about: what its handler compares the ids of entries with"""
  out = []
  for x in _terms(s, it):
    if x.op in ("eq", "is") and len(x.a) == 2:
      for a, b in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
        if isinstance(a, T) and isinstance(b, T) and a.op == "attr" and a.a[1] == "id" and of(a.a[0], base) and b not in out and not (b.op == "attr" and of(b.a[0], base)): out.append(b)
  return out


RULES = {"S05": s05, "S06": s06}
