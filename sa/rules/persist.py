"""What is kept across restarts: saved files are whole and read back as they were; connections and servers are stored under their kind and started again."""
from __future__ import annotations
import ast
from .store import *

CMC = CONM + ".ConnectionManager"
URLD = CONM + ".UrlData"
REPLACE = ("os.replace", "os.rename")


def file_of(t):
  """(file name, mode) of an open(...) value"""
  if t is not None and t.op == "call" and (ext_name(t) in ("builtins.open", "io.open") or call_name(t) == "open"):
    kw = dict(t.a[2]) if len(t.a) > 2 and t.a[2] else {}
    args = t.a[1]
    r = call_recv(t)
    if ext_name(t) not in ("builtins.open", "io.open") and r is not None:       # Path(x).open(mode)
      return (r.a[1][0] if ext_name(r) in ("pathlib.Path",) and r.a[1] else r), (args[0] if args else kw.get("mode", const("r")))
    return (args[0] if args else kw.get("file")), (args[1] if len(args) > 1 else kw.get("mode", const("r")))
  return None


def opened(e):
  """(file name, mode) a call opens"""
  if e.kind != "call" or e.res is None: return None
  return file_of(e.res)


def unpath(t):
  if ext_name(t) in ("pathlib.Path", "builtins.str", "os.fspath", "os.path.abspath") and t.a[1]: return t.a[1][0]
  return t


def p01(ctx):
  R1 = ctx.rule("whole", "the stored file is never opened for writing: a new file is written completely, closed, and only then put in its place; nothing is put there when writing failed", 2)
  R2 = ctx.rule("all", "what is written are all entries, and reading is the inverse of writing", 2)
  R3 = ctx.rule("start", "the entries of an existing file are read at the start; one that cannot be read is an error, never an empty start", 2)
  R4 = ctx.rule("copies", "what is handed out are copies, and an update keeps a list of its own", 2)
  c = ctx.p.cls(PDB)
  me = mk("self", PDB)
  init = ctx.method(c, "__init__", False)
  pm = mk("param", init.node.args.args[1].arg, init.qualname)
  pf = mk("param", init.node.args.args[2].arg, init.qualname)
  def fails(e, st): return ["builtins.OSError"] if e.kind == "call" and not any(x.kind == "call" and x.name in REPLACE for x in st.events[:-1]) and (opened(e) or any(call_of(e, n) for n in ("write", "writelines", "flush", "close", "dump_json", "dump_python", "write_bytes", "write_text")) or e.name in ("json.dump",)) else []
  # the fields
  F = A = E = None
  it = ctx.interp()
  for p in ctx.run(it, init):
    for e in p.events:
      if e.kind != "setattr" or e.recv is not me: continue
      v = it.norm(e.args[0], p.st)
      if v is pf or unpath(v) is pf: F = attr(me, e.name)
      if ext_name(v) == "pydantic.TypeAdapter": A = attr(me, e.name)
  up = ctx.method(c, "update", False)
  pe = mk("param", up.node.args.args[1].arg, up.qualname)
  it = ctx.interp()
  for p in ctx.run(it, up):
    for e in p.events:
      if e.kind == "setattr" and e.recv is me and contains(it.norm(e.args[0], p.st), pe):
        E = attr(me, e.name)
        v = it.norm(e.args[0], p.st)
        own = v.op == "copy" and v.a[0] == "list" or v.op == "comp" and v.a[0] == "list" or ext_name(v) in ("copy.deepcopy", "builtins.list") or v.op == "lit"
        if v.op == "comp": own = own and all(ok or any(a.op == "truthy" and not b for a, b in fs) for ok, fs, _ in v.a[2])
        ctx.check(own, R4, up.qualname, "an update keeps the caller's list, or not all of it", e.loc, p)
  if not ctx.check(F is not None and A is not None and E is not None, R2, PDB, "the file, its entries or how they are written are not kept", c.file): return
  # adapter: list of the model
  ok = any(isinstance(n, ast.Call) and (dotted(n.func) or "").endswith("TypeAdapter") and n.args and isinstance(n.args[0], ast.Subscript) and (dotted(n.args[0].value) or "").split(".")[-1] in ("list", "List", "Sequence") and isinstance(n.args[0].slice, ast.Name) and n.args[0].slice.id == pm.a[0] for n in ast.walk(init.node))
  ctx.check(ok, R2, init.qualname, "entries are not written and read as instances of the model", c.file)
  # writers
  save = ctx.method(c, "save", False)
  for name, f in c.methods.items():
    if name == "load" or name.startswith("_") and any(isinstance(n, ast.Attribute) and n.attr == name for g in c.methods.values() if g is not f for n in ast.walk(g.node)) or name == "__init__": continue     # a helper is judged where it is used
    it = ctx.interp(raises_fn=fails, inline_fn=None)
    for p in ctx.run(it, f):
      files = {}
      for i, e in enumerate(p.events):
        o = opened(e)
        if o:
          fn, mode = unpath(it.norm(o[0], p.st)), it.norm(o[1], p.st)
          writing = not is_const(mode) or any(m in str(mode.a[0]) for m in "wax+")
          if writing:
            ctx.check(fn is not F, R1, f"{f.qualname}[open]", "the stored file itself is opened for writing", e.loc, p)
            files[fn] = i
        if e.kind == "call" and (call_of(e, "write_text") or call_of(e, "write_bytes")) and e.recv is not None:
          fn = unpath(it.norm(e.recv, p.st))
          ctx.check(fn is not F, R1, f"{f.qualname}[open]", "the stored file itself is written", e.loc, p)
          files[fn] = i
      reps = []
      for i, e in enumerate(p.events):
        if e.kind == "call" and e.name in REPLACE and len(e.args or ()) >= 2: reps.append((i, e, unpath(it.norm(e.args[0], p.st)), unpath(it.norm(e.args[1], p.st))))
        elif e.kind == "call" and (call_of(e, "replace") or call_of(e, "rename")) and e.recv is not None and len(e.args or ()) == 1 and e.name not in REPLACE: reps.append((i, e, unpath(it.norm(e.recv, p.st)), unpath(it.norm(e.args[0], p.st))))
        elif e.kind == "call" and e.name in ("shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.move"): ctx.check(unpath(it.norm(e.args[1], p.st)) is not F, R1, f"{f.qualname}[open]", "the stored file is overwritten in place", e.loc, p)
        elif e.kind == "call" and (e.name in ("os.remove", "os.unlink", "os.truncate") and e.args and unpath(it.norm(e.args[0], p.st)) is F or call_of(e, "unlink") and e.recv is not None and unpath(it.norm(e.recv, p.st)) is F): ctx.fail(R1, f"{f.qualname}[gone]", "the stored file is removed or cut before the new one is there", e.loc, p)
      for i, e, src, dst in reps:
        if dst is not F: continue
        if not ctx.check(src in files and files[src] < i, R1, f"{f.qualname}[new]", "what is put in place of the file was not written here", e.loc, p): continue
        handled = any(x.kind == "handle" for x in p.events[:i])
        ctx.check(p.kind == "return" and not handled, R1, f"{f.qualname}[failed]", "the file is replaced although writing the new one failed", e.loc, p)
        closed = [j for j in range(files[src], i) if (p.events[j].kind == "exit" or call_of(p.events[j], "close")) and p.events[j].recv is not None and (file_of(p.events[j].recv) or (None,))[0] is not None and unpath(it.norm(file_of(p.events[j].recv)[0], p.st)) is src or p.events[j].kind == "exit" and contains_file(it, p, p.events[j], src)]
        ctx.check(any(e2.kind == "call" and e2.name in ("os.fsync", "os.fdatasync") for e2 in p.events[files[src]:i]), R1, f"{f.qualname}[durable]", "the file is replaced before the new one is on the disk: after a crash it may be empty", e.loc, p)
        direct = p.events[files[src]].name is None or not opened(p.events[files[src]])
        ctx.check(direct or bool(closed), R1, f"{f.qualname}[closed]", "the file is replaced before the new one is written completely", e.loc, p)
        wr = [j for j in range(files[src], i) if any(call_of(p.events[j], n) for n in ("write", "write_bytes", "write_text")) or p.events[j].name == "json.dump"]
        ctx.check(len(wr) == 1, R2, f"{f.qualname}[once]", "the entries are not written, or more than once", e.loc, p)
        for j in wr: ctx.check(dumps(it.norm(p.events[j].args[0], p.st), A, E), R2, f.qualname, "what is written are not all entries as they are", p.events[j].loc, p)
        if closed and wr: ctx.check(wr[-1] < closed[-1], R1, f"{f.qualname}[order]", "the file is closed before it is written", e.loc, p)
      if f is save and p.kind == "return": ctx.check(any(dst is F for _, _, _, dst in reps), R1, f"{f.qualname}[done]", "saving returns without saving", f.file, p)
  # reading
  load = ctx.method(c, "load", False)
  for f in (load, init):
    for kind in ("", "builtins.PermissionError", "pydantic.ValidationError"):
      it = ctx.interp(raises_fn=lambda e, st: [kind] if kind and e.kind == "call" and (opened(e) if kind == "builtins.PermissionError" else any(call_of(e, n) for n in ("validate_json", "validate_python"))) else [])
      for p in ctx.run(it, f):
        facts = [(it.norm(a, p.st), v) for a, v in p.facts]
        sets = [e for e in p.events if e.kind == "setattr" and e.recv is me and e.name == E.a[1]]
        src = pf if f is init else F
        absent = any(a.op == "truthy" and v is False and (ext_name(a.a[0]) in ("os.path.exists", "os.path.isfile") or call_name(a.a[0]) in ("exists", "is_file")) and contains(a.a[0], lambda y: y is pf or y is F) for a, v in facts)
        missing_file = any(e.kind == "handle" and "FileNotFoundError" in str(e.name) for e in p.events)
        if kind:
          bad = [e for e in p.events if e.kind == "handle"]
          if p.kind == "return" and bad: ctx.fail(R3, f"{f.qualname}[unreadable]", "a file that cannot be read is taken for an empty one", bad[0].loc, p)
          else: ctx.ok(R3, f.qualname)
          continue
        if p.kind != "return" or absent or missing_file: continue
        last = it.norm(sets[-1].args[0], p.st) if sets else None
        good = last is not None and loads(last, p, it, src)
        for e in p.events:
          o = opened(e)
          if o: ctx.check(unpath(it.norm(o[0], p.st)) in (pf, F), R3, f"{f.qualname}[file]", "something else than the stored file is read", e.loc, p)
        ctx.check(good, R3, f.qualname, "the entries of the file are not read", f.file, p)
  # copies
  prop = ctx.p.method(c, "entries", False)
  for n, f in c.methods.items():
    it = ctx.interp()
    if n in ("__init__", "save", "load", "update"): continue
    for p in ctx.run(it, f):
      if p.kind != "return" or not isinstance(p.value, T): continue
      v = it.norm(p.value, p.st)
      ctx.check(not leaks(v, E), R4, f.qualname, "the stored entries themselves are handed out", f.file, p)
  if prop is None: ctx.fail(R4, PDB, "the entries cannot be read", c.file)
  # users of the entries go through the class
  for m in ctx.p.modules.values():
    if m is c.module: continue
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute) and n.attr == E.a[1] and not (isinstance(n.value, ast.Name) and n.value.id == "self"): ctx.fail(R4, f"{m.relpath}", "stored entries are reached without the database", f"{m.relpath}:{n.lineno}")


def dotted(n):
  try: return ast.unparse(n)
  except Exception: return None


def contains_file(it, p, e, src):
  return any(isinstance(a, T) and contains(it.norm(a, p.st), src) for a in list(e.args or ()) + [e.recv, e.res] if isinstance(a, T))


def dumps(t, A, E):
  """is t the serialised form of all entries?"""
  for _ in range(3):
    if t.op == "call" and call_name(t) in ("encode", "decode"): t = call_recv(t)
  if ext_name(t) == "json.dumps" and t.a[1]: t = t.a[1][0]
  if t.op != "call" or call_name(t) not in ("dump_json", "dump_python") or not t.a[1]: return False
  kw = {k for k, _ in (t.a[2] or ())} if len(t.a) > 2 else set()
  x = t.a[1][0]
  while x.op == "copy" or ext_name(x) in ("copy.deepcopy", "builtins.list"): x = x.a[1] if x.op == "copy" else x.a[1][0]
  return call_recv(t) is A and x is E and kw <= {"indent", "warnings", "round_trip", "mode", "fallback"}


def loads(t, p, it, src):
  if t.op == "copy": t = t.a[1]
  if t.op != "call" or call_name(t) not in ("validate_json", "validate_python") or not t.a[1]: return False
  if not (call_recv(t).op == "attr" or ext_name(call_recv(t)) == "pydantic.TypeAdapter"): return False
  return contains(t.a[1][0], src)


def leaks(v, E):
  """does the value hold stored entries uncopied?"""
  if ext_name(v) in ("copy.deepcopy", "builtins.len", "builtins.bool"): return False
  if v.op == "call" and call_name(v) in ("model_copy", "model_dump", "model_dump_json", "dump_json", "dump_python", "model_validate", "validate_json"):
    return call_name(v) == "model_copy" and not any(k == "deep" and x is TRUE for k, x in (v.a[2] or ())) and contains(v, E)
  if v.op == "comp": return any(ok and e is not None and isinstance(e, T) and leaks(e, E) for ok, fs, e in v.a[2])
  if v is E or v.op == "elem" and contains(v, E): return True
  if v.op == "copy": return leaks(v.a[1], E)
  if v.op in ("lit", "tuple", "kv", "spread"): return any(isinstance(x, T) and leaks(x, E) for x in v.a)
  if v.op == "call": return any(leaks(x, E) for x in v.a[1] if isinstance(x, T))
  return False


P02STOP = {URLD + ".stop", URLD + ".start", "streamtasks.connection.AutoReconnector.__init__", "streamtasks.connection.create_server", "streamtasks.net.Switch.add_link",
           "streamtasks.worker.Worker.create_link", "streamtasks.worker.Worker.__init__", "streamtasks.worker.Worker.shutdown", URLD + ".sanitized_url", URLD + ".id"}


def url_of(t):
  """url given to a url data instance"""
  if t.op != "inst": return None
  d = dict((x[0], x[1]) if isinstance(x, tuple) else (x.a[0], x.a[1]) for x in t.a[1])
  return d.get("url")


def only_member(x):
  """a member of a list written with one member"""
  if x.op == "elem" and x.a[0].op == "lit" and len(x.a[0].a) == 2 and x.a[0].a[1].op != "spread": return x.a[0].a[1]
  return x


def first_found(x):
  """the first of the members a filter keeps"""
  if x.op == "item" and x.a[0].op == "comp" and is_const(x.a[1]) and x.a[1].a[0] in (0, -1):
    es = {e for ok, _, e in x.a[0].a[2] if ok}
    if len(es) == 1: return es.pop()
  return x


def url_lists(it, s, t, L):
  """is t the serialised list of the urls of all members of L (a term: the stored list, or the new one)?"""
  for _ in range(4):
    if t.op == "call" and call_name(t) in ("encode", "dump_json") and (call_name(t) == "encode"): t = call_recv(t)
    elif t.op == "call" and (ext_name(t) == "json.dumps" or call_name(t) in ("dump_json", "dump_python")) and t.a[1]: t = t.a[1][0]
  if t.op != "comp": return None
  out = []
  for ok, fs, e in t.a[2]:
    if any(a.op == "truthy" and not v and a.a[0].op == "lit" and len(a.a[0].a) > 1 and not all(x.op == "spread" for x in a.a[0].a[1:] if isinstance(x, T)) for a, v in fs): continue     # a written list is not empty
    if e is not None: e = rewrite(e, only_member)
    if not ok:
      out.append(("drop", [(canon(a), v) for a, v in fs], None)); continue
    out.append(("keep", [(canon(a), v) for a, v in fs], e))
  return out


def p02(ctx):
  R1 = ctx.rule("added", "a new connection or server is started, put among those of its kind, and stored, before it is answered; one that exists already is refused and leaves nothing behind", 4)
  R2 = ctx.rule("removed", "removing stops exactly the one with the requested id, takes it from those of its kind and stores that, before it is answered", 4)
  R3 = ctx.rule("started", "at the start every stored connection and server is created as what it was stored as, put among those of its kind, and started", 4)
  R4 = ctx.rule("listed", "the list of a kind holds all connections or servers of that kind", 2)
  R5 = ctx.rule("id", "the id of a connection or server depends on its whole url and nothing else", 1)
  c = ctx.p.cls(CMC)
  me = mk("self", CMC)
  w = Web(ctx, CMC, "run_web_server", P02STOP)
  kinds = {}
  for k in ("connection", "server"):
    L = None
    for s in w.subs("GET", f"/api/{k}s") or []:
      for e, st, t in web_answers(w.it, s):
        els = [x for x in subterms(t) if x.op == "elem" and x.a[0].op == "attr" and x.a[0].a[0] is me]
        for x in els: L = x.a[0]
        full = all(not (not ok and not any(a.op == "truthy" and not v for a, v in fs)) for y in subterms(t) if y.op == "comp" and L is not None and contains(y, L) for ok, fs, _ in y.a[2])
        if els: ctx.check(full, R4, f"GET {k}s", "some are missing from the list", e.loc, s)
    if not ctx.check(L is not None, R4, f"GET {k}s[list]", "the list is not answered", c.file): continue
    kinds[k] = {"list": L, "key": set(), "cls": set()}
    others = lambda x: x.op == "attr" and x.a[0] is me and x is not L
    added = False
    for s in w.subs("POST", f"/api/{k}") or []:
      it = w.it
      ev = s.events
      facts = cfacts(it, s)
      ans = web_answers(it, s)
      done = [a for a in ans if a[1] is None or a[1] < 300]
      puts = [(i, C(it, s, e.args[0])) for i, e in enumerate(ev) if e.kind == "call" and call_of(e, "append") and e.recv is not None and C(it, s, e.recv) is L]
      for i, e in enumerate(ev):      # a new list
        if e.kind == "setattr" and e.recv is me and attr(me, e.name) is L:
          ps = parts_of(C(it, s, e.args[0]), L)
          new = [p[1] for p in ps if p[0] == "new"]
          ctx.check(("all",) in ps and len(new) == 1 and len(ps) == 2, R1, f"POST {k}[others]", "others are lost", e.loc, s)
          puts += [(i, n) for n in new]
      stores = [(i, e) for i, e in enumerate(ev) if e.kind == "setitem" and e.recv is not None and C(it, s, e.recv).op == "attr" and C(it, s, e.recv).a[0] is me and not (C(it, s, e.recv) is L)]
      wrong = [e for e in ev if e.kind == "call" and call_of(e, "append") and e.recv is not None and others(C(it, s, e.recv)) or e.kind == "setattr" and e.recv is me and attr(me, e.name) is not L]
      ctx.check(not wrong, R1, f"POST {k}[kind]", "it is put among those of another kind", wrong[0].loc if wrong else "", s)
      linked = [e for e in ev if e.kind == "call" and e.name == "streamtasks.net.Switch.add_link"]
      if not puts:
        if s.kind == "raise": continue
        ctx.check(not done, R1, f"POST {k}[done]", "answered as done although nothing was added", done[0][0].loc if done else "", s)
        ctx.check(not stores, R1, f"POST {k}[refused]", "a refused one is stored", stores[0][1].loc if stores else "", s)
        if linked: ctx.check(any(e.kind == "call" and (call_of(e, "shutdown") or call_of(e, "close") or call_of(e, "remove_link") or call_of(e, "stop")) for e in ev), R1, f"POST {k}[linked]", "a refused one stays linked", linked[0].loc, s)
        continue
      i, D = puts[0]
      u = url_of(D)
      ctx.check(len(puts) == 1 and D.op == "inst" and u is not None and body_field(u, "url"), R1, f"POST {k}[new]", "what is added is not what was asked for", ev[i].loc, s)
      if D.op == "inst": kinds[k]["cls"].add(D.a[0])
      pf = cfacts(it, s, ev[i].facts)
      fresh = none_such(pf, L, "id", attr(D, "id")) or u is not None and none_such(pf, L, "url", u)
      ctx.check(fresh, R1, f"POST {k}[once]", "one that exists already is added again", ev[i].loc, s)
      waits = [j for j, x in enumerate(ev[:i]) if (x.kind == "await" or x.kind == "call" and x.awaited and not x.inlined)]
      if waits and fresh:
        old = cfacts(it, s, ev[waits[-1]].facts)
        ctx.check(not (none_such(old, L, "id", attr(D, "id")) or u is not None and none_such(old, L, "url", u)), R1, f"POST {k}[current]", "another one with this url may have been added since it was checked", ev[i].loc, s)
      ctx.check(bool(linked), R1, f"POST {k}[linked]", "it is not linked to the switch", ev[i].loc, s)
      a = next((j for j, x in enumerate(ev) if done and x is done[0][0]), len(ev))
      ctx.check(any(e.kind == "call" and e.name == URLD + ".start" and C(it, s, e.recv) is D for e in ev[:a]), R1, f"POST {k}[started]", "it is not started", ev[i].loc, s)
      good = False
      for j, e in stores:
        ul = url_lists(it, s, C(it, s, e.args[1]), L)
        if ul is None or j < i: continue
        every = all(e2 is not None and (e2 is u or e2.op == "attr" and e2.a[1] == "url" and (of(e2.a[0], L) or e2.a[0] is D)) for kp, fs, e2 in ul if kp == "keep") and all(empty(fs, L) for kp, fs, _ in ul if kp == "drop")
        if every and j < a: good = True; kinds[k]["key"].add(C(it, s, e.args[0]))
      if done or s.kind == "return": ctx.check(good, R1, f"POST {k}[stored]", "it is not stored, or not before it is answered", ev[i].loc, s)
      if done: added = True
    ctx.check(added, R1, f"POST {k}[served]", "none can be added", c.file)
    removed = False
    for s in w.subs("DELETE", f"/api/{k}" + "/{id}") or []:
      it = w.it
      ev = s.events
      if impossible(cfacts(it, s), (L,)): continue
      ans = web_answers(it, s)
      done = [a for a in ans if a[1] is None or a[1] < 300]
      X = mk("wparam", "id")
      stores = [(i, e) for i, e in enumerate(ev) if e.kind == "setitem" and e.recv is not None and C(it, s, e.recv).op == "attr" and C(it, s, e.recv).a[0] is me]
      stops = [(i, rewrite(C(it, s, e.recv), first_found)) for i, e in enumerate(ev) if e.kind == "call" and (e.name == URLD + ".stop" or call_of(e, "stop")) and e.recv is not None]
      cut = []
      for i, e in enumerate(ev):
        if e.kind == "setattr" and e.recv is me:
          if attr(me, e.name) is not L: ctx.fail(R2, f"DELETE {k}[kind]", "those of another kind are changed", e.loc, s); continue
          ps = parts_of(C(it, s, e.args[0]), L)
          ok = len(ps) == 1 and (ps[0][0] == "old" and drops_only(ps[0][1], L, "id", X)) or not any(p[0] in ("all", "new", "?", "old") for p in ps) and all(veq(cfacts(it, s, e.facts), L, "id", X, p[1]) is False for p in ps if p[0] == "elem")
          if not ok and len(ps) == 1 and ps[0][0] == "old":      # compared with the entry found
            ok = any(drops_only2(ps[0][1], L, x, cfacts(it, s, e.facts), X) for x in {y for _, y in stops})
          ctx.check(ok, R2, f"DELETE {k}[others]", "another one is removed, or the requested one stays", e.loc, s)
          cut.append(i)
        elif e.kind == "call" and call_of(e, "remove") and e.recv is not None and C(it, s, e.recv) is L:
          x = C(it, s, e.args[0])
          ctx.check(veq(cfacts(it, s, e.facts), L, "id", X, x) is True, R2, f"DELETE {k}[others]", "another one is removed", e.loc, s)
          cut.append(i)
      for i, x in stops: ctx.check(of(x, L) and veq(cfacts(it, s, ev[i].facts), L, "id", X, x) is True, R2, f"DELETE {k}[stopped]", "another one is stopped", ev[i].loc, s)
      if not done:
        if s.kind == "return": ctx.check(not cut and not stores and not stops, R2, f"DELETE {k}[refused]", "a refused removal changes something", c.file, s)
        continue
      if not cut and none_such(cfacts(it, s), L, "id", X): continue
      a = ev.index(done[0][0])
      ctx.check(bool(cut) and cut[0] < a, R2, f"DELETE {k}[done]", "answered as done although nothing was removed", done[0][0].loc, s)
      ctx.check(bool(stops), R2, f"DELETE {k}[running]", "what is removed goes on running", done[0][0].loc, s)
      good = False
      for j, e in stores:
        ul = url_lists(it, s, C(it, s, e.args[1]), L)
        if ul is None or not cut or j < cut[-1] or j > a: continue
        if all(e2 is not None and e2.op == "attr" and e2.a[1] == "url" and of(e2.a[0], L) for kp, fs, e2 in ul if kp == "keep"): good = True; kinds[k]["key"].add(C(it, s, e.args[0]))
      ctx.check(good, R2, f"DELETE {k}[stored]", "the removal is not stored, or not before it is answered", done[0][0].loc, s)
      removed = True
    ctx.check(removed, R2, f"DELETE {k}[served]", "none can be removed", c.file)
  # -- the start
  f = ctx.method(c, "run_inner")
  it = ctx.interp(stop=P02STOP | {CMC + ".run_web_server"})
  keys = {k: next(iter(v["key"])) for k, v in kinds.items() if len(v["key"]) == 1}
  for k, v in kinds.items(): ctx.check(len(v["key"]) == 1, R3, f"{k}[key]", "connections and servers of a kind are stored in different places", c.file)
  if len(keys) == 2: ctx.check(keys["connection"] is not keys["server"], R3, "keys", "connections and servers are stored in one place", c.file)
  got = {k: False for k in kinds}
  began = {k: False for k in kinds}
  for p in ctx.run(it, f, selfcls=c):
    s = p
    served = next((i for i, e in enumerate(p.events) if e.kind == "call" and e.name == CMC + ".run_web_server"), len(p.events))
    for k, v in kinds.items():
      L, key = v["list"], keys.get(k)
      if key is None: continue
      def stored(t): return t.op == "elem" and contains(t.a[0], key) and contains(t.a[0], lambda y: y.op == "call" and call_name(y) in ("validate_json", "loads", "validate_python") or ext_name(y) == "json.loads")
      puts = [(i, C(it, s, e.args[0])) for i, e in enumerate(p.events) if e.kind == "call" and call_of(e, "append") and e.recv is not None and C(it, s, e.recv) is L]
      for i, e in enumerate(p.events):
        if e.kind == "setattr" and e.recv is me and attr(me, e.name) is L:
          t = C(it, s, e.args[0])
          if t.op == "comp":
            full = all(ok or any(a.op == "truthy" and not b for a, b in fs) for ok, fs, _ in t.a[2])
            ctx.check(full, R3, f"{k}[all]", "a stored one is not taken up", e.loc, s)
            puts += [(i, C(it, s, el)) for ok, fs, el in t.a[2] if ok]
      for i, D in puts:
        u = url_of(D)
        good = D.op == "inst" and u is not None and stored(u) and D.a[0] in v["cls"]
        ctx.check(good, R3, f"{k}[as]", "what is started is not what was stored", p.events[i].loc, s)
        if good: got[k] = True
      rounds = [a for a, b in cfacts(it, s) if a.op == "truthy" and b and contains(a, key) and contains(a, lambda y: y.op == "call" and call_name(y) in ("validate_json", "loads"))]
      if rounds and p.kind == "return": ctx.check(bool(puts), R3, f"{k}[all]", "a stored one is not taken up", f.file if hasattr(f, "file") else "", s)
      for i, e in enumerate(p.events[:served]):
        if e.kind == "call" and e.name == URLD + ".start" and e.recv is not None:
          r = C(it, s, e.recv)
          if of(r, L) or any(r is D for _, D in puts): began[k] = True
  for k in kinds:
    ctx.check(got[k], R3, f"{k}[taken up]", "what is stored is not taken up at the start", c.file)
    ctx.check(began[k], R3, f"{k}[started]", "what is stored is not started at the start", c.file)
  # -- ids
  f = ctx.p.method(ctx.p.cls(URLD), "id", False)
  if ctx.check(f is not None, R5, URLD, "there is no id", c.file):
    it = ctx.interp()
    u = attr(mk("self", URLD), "url")
    for p in ctx.run(it, f, selfcls=ctx.p.cls(URLD)):
      def hashing(n): return n is not None and (n.startswith("hashlib.") or n.startswith("uuid.uuid") or n.startswith("base64."))
      fed = [it.norm(a, p.st) for e in p.events if e.kind == "call" and (call_of(e, "update") or hashing(e.name)) for a in (e.args or ()) if isinstance(a, T)]
      v = it.norm(p.value, p.st) if isinstance(p.value, T) else NONE
      for t in subterms(v):
        if hashing(ext_name(t)): fed += [a for a in t.a[1] if isinstance(a, T)]
      whole = one_to_one(v, u) or any(one_to_one(t, u) for t in fed)
      stray = [y for t in fed + [v] for y in subterms(t) if y.op == "attr" and y.a[0] is mk("self", URLD) and y.a[1] != u.a[1] or ext_name(y) in ("builtins.id", "builtins.hash", "uuid.uuid4", "time.time", "random.random")]
      ctx.check(whole and not stray, R5, f.qualname, "two urls may have one id, or a url another id after a restart", f.file if hasattr(f, "file") else c.file, p)


def one_to_one(t, u):
  """does a text tell apart any two values of u?"""
  if t is u: return True
  if t.op == "call" and call_name(t) == "encode" and call_recv(t) is not None: return one_to_one(call_recv(t), u)
  if ext_name(t) in ("builtins.str", "builtins.bytes", "builtins.repr", "json.dumps") and t.a[1]: return one_to_one(t.a[1][0], u)
  if t.op == "bin" and t.a[0] == "+": return one_to_one(t.a[1], u) and is_const(t.a[2]) or one_to_one(t.a[2], u) and is_const(t.a[1])
  if t.op in ("fstr", "join", "format"):
    xs = [x for x in t.a if isinstance(x, T)]
    return sum(one_to_one(x, u) for x in xs) == 1 and all(is_const(x) or one_to_one(x, u) for x in xs)
  return False


def drops_only2(al, L, x, facts, X):
  """does a filter drop exactly the member x (found by its id)?"""
  if veq(facts, L, "id", X, x) is not True: return False
  for ok, fs, e in al:
    v = None
    for a, b in fs:
      if a.op in ("eq", "is") and len(a.a) == 2 and (x in a.a or attr(x, "id") in a.a): v = b
    if v is None:
      if not ok and empty(fs, L): continue
      return False
    if ok is v: return False
  return True


RULES = {"P01": p01, "P02": p02}
