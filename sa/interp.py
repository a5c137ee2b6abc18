"""Path-sensitive abstract interpreter over the Python syntax tree.

Values are provenance terms (terms.py); no input value is ever chosen and nothing of the analysed code is executed.
Loops are abstracted by one representative arbitrary iteration (plus the empty iteration), calls into the package are
followed up to an inlining bound, branch conditions become facts on the path, calls/stores become events on the path.
"""
from __future__ import annotations
import ast, builtins, sys
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, attr, show, subterms, contains
from .program import Program, Class, Func, Module, AnalysisBroken, dotted, _all_args

sys.setrecursionlimit(50000)

PURE_METHODS = {"get", "union", "difference", "intersection", "items", "keys", "values", "startswith", "endswith", "lower", "upper", "strip",
                "lstrip", "rstrip", "split", "is_set", "done", "empty", "qsize", "as_dict", "to_data", "encode", "decode", "hex", "serialize", "copy"}
PURE_EXT = {"builtins." + n for n in ("len", "isinstance", "set", "list", "dict", "tuple", "frozenset", "str", "int", "float", "bool", "min", "max", "sum", "abs",
                                       "sorted", "reversed", "enumerate", "zip", "range", "any", "all", "type", "getattr", "hasattr", "callable", "bytes",
                                       "bytearray", "memoryview", "repr", "iter", "issubclass", "super", "round", "hash", "id", "map", "filter")} | {
            "itertools.chain", "itertools.chain.from_iterable", "os.path.join", "os.path.exists", "functools.partial", "math.isnan", "struct.calcsize"}


NEVER_NONE = {"builtins." + n for n in ("memoryview", "bytes", "bytearray", "str", "int", "float", "bool", "list", "dict", "set", "tuple", "frozenset", "len", "sorted", "repr", "type", "range", "enumerate", "zip", "iter", "map", "filter", "isinstance", "hasattr", "id", "hash")}


TYPE_CALLS = {"builtins." + n for n in ("memoryview", "bytes", "bytearray", "str", "int", "float", "bool", "list", "dict", "set", "tuple", "frozenset")}


class Truncated(AnalysisBroken): pass


class Ev:
  __slots__ = ("kind", "name", "fterm", "recv", "args", "kw", "res", "node", "func", "facts", "loops", "target", "inlined", "awaited", "uid", "stack", "tries", "frid")

  def __init__(self, kind, **k):
    self.kind = kind
    for s in self.__slots__[1:]: setattr(self, s, k.get(s))

  @property
  def line(self): return getattr(self.node, "lineno", 0)
  @property
  def file(self): return self.func.file if self.func else "?"
  @property
  def loc(self): return f"{self.file}:{self.line}"
  def arg(self, i, kwname=None, default=None):
    if self.args is not None and i is not None and i < len(self.args): return self.args[i]
    if kwname is not None:
      for k, v in self.kw or ():
        if k == kwname: return v
    return default
  def __repr__(self):
    if self.kind == "call": return f"<call {show(self.fterm)}({', '.join(show(a) for a in self.args)}{''.join(f', {k}={show(v)}' for k, v in self.kw)}){' awaited' if self.awaited else ''} @{self.line}>"
    return f"<{self.kind} {self.name or ''} {show(self.recv) if self.recv is not None else ''} {show(self.args) if self.args else ''} @{self.line}>"


class State:
  __slots__ = ("env", "heap", "store", "known", "facts", "events", "loops", "handling", "parked", "counter")

  def __init__(self):
    self.env, self.heap, self.store, self.known = {}, {}, {}, {}
    self.facts, self.events, self.loops, self.handling, self.parked = (), (), (), (), ()
    self.counter = 0

  def copy(self):
    s = State.__new__(State)
    s.env, s.heap, s.store, s.known = dict(self.env), dict(self.heap), dict(self.store), dict(self.known)
    s.facts, s.events, s.loops, s.handling, s.parked, s.counter = self.facts, self.events, self.loops, self.handling, self.parked, self.counter
    return s

  def setvar(self, frid, name, v):
    s = self.copy()
    d = dict(s.env.get(frid, {})); d[name] = v
    s.env[frid] = d
    return s

  def event(self, ev):
    s = self.copy()
    s.events = s.events + (ev,)
    return s

  def fresh(self):
    s = self.copy(); s.counter += 1
    return s, s.counter


class Frame:
  __slots__ = ("func", "frid", "module", "parent_frids", "selfterm", "stack", "yield_hook", "nonlocals", "cls")

  def __init__(self, func, frid, module, parent_frids=(), selfterm=None, stack=(), yield_hook=None, cls=None):
    self.func, self.frid, self.module, self.parent_frids, self.selfterm, self.stack, self.yield_hook = func, frid, module, parent_frids, selfterm, stack, yield_hook
    self.nonlocals = {}
    self.cls = cls


class Path:
  __slots__ = ("kind", "value", "st")

  def __init__(self, kind, value, st): self.kind, self.value, self.st = kind, value, st
  @property
  def events(self): return self.st.events
  @property
  def facts(self): return self.st.facts
  def calls(self, *names): return [e for e in self.st.events if e.kind == "call" and (not names or e.name in names)]
  def __repr__(self): return f"<Path {self.kind} {show(self.value) if isinstance(self.value, T) else self.value}>"


class Cfg:
  """Per-rule configuration of the interpreter."""
  max_depth = 7
  unroll = 1
  unroll_for = 1
  max_paths = 40000
  cancel = False          # every suspension point may raise CancelledError
  want_getitem = False
  want_tests = False      # comparisons are events
  closed_loops = False    # loops end only through a guard seen false (for rules whose models forget facts at awaits)
  exact_comps = False     # comprehensions over known members are evaluated member by member
  exc_values = False      # a caught exception that was built on the path is that object
  recursion = 1           # how often a function may be on the call stack
  decorate = False        # decorators of nested functions of the package are applied
  inline_tasks = False    # create_task(coro) followed as if it ran there
  def __init__(self, **k):
    self.stop = set(); self.models = {}; self.await_map = {}; self.only = None; self.raises_fn = None; self.inline_fn = None; self.keep = None
    for a, b in k.items(): setattr(self, a, b)
  def inline(self, func: Func, fr: Frame) -> bool:
    if func.is_abstract: return False
    if self.inline_fn is not None:
      r = self.inline_fn(func, fr)
      if r is not None: return r
    if func.qualname in self.stop or func.name in self.stop: return False
    return True
  def raises(self, ev: Ev, st: State):
    return self.raises_fn(ev, st) if self.raises_fn else []


def exc(name, value=None): return mk("exc", name, value if value is not None else NONE)


class Interp:
  def __init__(self, prog: Program, cfg: Cfg | None = None):
    self.p = prog
    self.cfg = cfg or Cfg()
    self.types: dict[T, object] = {}
    self.exact: dict[T, Class] = {}
    self.closures: dict = {}
    self._nested: dict = {}
    self._awaiting: set = set()
    self.npaths = 0
    self.steps = 0
    self.truncations = 0
    self.inlined_funcs: set = set()

  # ------------------------------------------------------------------ entry
  def run(self, func: Func, bind=None, selfterm=None, selfcls=None, st=None, parent_frids=(), exact_self=True):
    st = st or State()
    if func.cls is not None and not func.is_staticmethod and selfterm is None:
      c = selfcls or func.cls
      if func.is_classmethod: selfterm = mk("class", c.qualname)
      else:
        selfterm = mk("self", c.qualname)
        self.types[selfterm] = c
    st, n = st.fresh()
    fr = Frame(func, f"{func.qualname}#{n}", func.module, parent_frids, selfterm, (func.qualname,), cls=func.cls)
    d = {}
    args = _all_args(func.node)
    a = func.node.args
    i0 = 0
    if func.cls is not None and not func.is_staticmethod and args:
      d[args[0].arg] = selfterm; i0 = 1
    for x in args[i0:]:
      if bind and x.arg in bind: v = bind[x.arg]
      else:
        v = mk("param", x.arg, func.qualname)
        ty = self.p.ann_type(x.annotation, func.module)
        if ty is not None: self.types[v] = ty
      d[x.arg] = v
    st.env[fr.frid] = d
    out = []
    for oc, s in self.exec_body(func, st, fr):
      out.append(self._path(oc, s))
      if len(out) > self.cfg.max_paths: raise Truncated(f"more than {self.cfg.max_paths} paths in {func.qualname}")
    self.npaths += len(out)
    return out

  def _path(self, oc, s):
    k = oc[0]
    if k == "next": return Path("return", NONE, s)
    return Path(k, oc[1] if len(oc) > 1 else None, s)

  def exec_body(self, func, st, fr):
    node = func.node
    if isinstance(node, ast.Lambda):
      for r in self.ev(node.body, st, fr):
        yield (("return", r[1]), r[2]) if r[0] == "v" else (("raise", r[1]), r[2])
      return
    for oc, s in self.exec_block(node.body, st, fr):
      if oc[0] in ("next", "break", "continue"): oc = ("return", NONE)
      if oc[0] == "raise" and oc[1].a[0] == "__loopback__": oc = ("loopback",)
      yield oc, s

  # ------------------------------------------------------------ statements
  def exec_block(self, stmts, st, fr):
    if not stmts:
      yield ("next",), st
      return
    head, rest = stmts[0], stmts[1:]
    outs = self.exec_stmt(head, st, fr)
    if not rest:
      yield from outs
      return
    nxt = []
    for oc, s in outs:
      if oc[0] == "next": nxt.append(s)
      else: yield oc, s
    for s in self.merge(nxt):
      yield from self.exec_block(rest, s, fr)

  def merge(self, states):
    if len(states) < 2: return states
    if len(states) > self.cfg.max_paths: raise Truncated("too many states")
    keep = self.cfg.keep
    seen, out = set(), []
    for s in states:
      try:
        k = (tuple((f, tuple(d.items())) for f, d in s.env.items()), tuple(s.store.items()), tuple((o, _hk(h)) for o, h in s.heap.items()),
             frozenset(s.known.items()), s.facts, tuple((e.kind, e.fterm, e.recv, e.args, e.kw, id(e.node)) for e in s.events), s.parked, s.handling)
        if k in seen: continue
        seen.add(k)
      except TypeError: pass
      out.append(s)
    return out

  def exec_stmt(self, n, st, fr):
    self.steps += 1
    if self.steps > 3_000_000: raise Truncated("step budget exhausted")
    m = getattr(self, "st_" + type(n).__name__, None)
    if m is None:
      yield ("next",), st
      return
    yield from m(n, st, fr)

  def _as_stmt(self, results):
    for r in results:
      if r[0] == "v": yield ("next",), r[2]
      else: yield ("raise", r[1]), r[2]

  def st_Expr(self, n, st, fr): yield from self._as_stmt(self.ev(n.value, st, fr))
  def st_Pass(self, n, st, fr): yield ("next",), st
  def st_Global(self, n, st, fr): yield ("next",), st
  def st_Import(self, n, st, fr): yield ("next",), st
  def st_ImportFrom(self, n, st, fr): yield ("next",), st
  def st_Break(self, n, st, fr): yield ("break",), st
  def st_Continue(self, n, st, fr): yield ("continue",), st
  def st_ClassDef(self, n, st, fr): yield ("next",), st.setvar(fr.frid, n.name, mk("opaque", "class " + n.name))
  def st_Nonlocal(self, n, st, fr):
    for nm in n.names:
      for f in fr.parent_frids:
        if nm in st.env.get(f, {}): fr.nonlocals[nm] = f; break
    yield ("next",), st

  def st_Return(self, n, st, fr):
    if n.value is None:
      yield ("return", NONE), st
      return
    for r in self.ev(n.value, st, fr):
      if r[0] == "v": yield ("return", r[1]), r[2]
      else: yield ("raise", r[1]), r[2]

  def st_Raise(self, n, st, fr):
    if n.exc is None:
      e = st.handling[-1] if st.handling else exc("any")
      yield ("raise", e), st.event(self._mkev("raise", st, fr, n, res=e, name="reraise"))
      return
    for r in self.ev(n.exc, st, fr):
      if r[0] == "x": yield ("raise", r[1]), r[2]; continue
      e = self.to_exc(r[1])
      yield ("raise", e), r[2].event(self._mkev("raise", r[2], fr, n, res=e, name=e.a[0]))

  def to_exc(self, v):
    if v.op == "excval": return v.a[0]
    if v.op in ("new", "inst"): return exc(v.a[0], v)
    if v.op == "class": return exc(v.a[0], v)
    if v.op == "ext": return exc(v.a[0], v)
    if v.op == "call" and v.a[0].op in ("ext", "class"): return exc(v.a[0].a[0], v)
    return exc("any", v)

  def st_Assert(self, n, st, fr):
    for b in self.branch(n.test, st, fr):
      if b[0] == "x": yield ("raise", b[1]), b[2]
      elif b[1]: yield ("next",), b[2]
      else: yield ("raise", exc("builtins.AssertionError")), b[2]

  def st_Assign(self, n, st, fr):
    for r in self.ev(n.value, st, fr):
      if r[0] == "x": yield ("raise", r[1]), r[2]; continue
      sts = [r[2]]
      err = []
      for t in n.targets:
        nx = []
        for s in sts:
          for oc in self.assign(t, r[1], s, fr):
            if oc[0] == "v": nx.append(oc[2])
            else: err.append((("raise", oc[1]), oc[2]))
        sts = nx
      for s in sts: yield ("next",), s
      yield from err

  def st_AnnAssign(self, n, st, fr):
    if n.value is None:
      if isinstance(n.target, ast.Attribute):
        for r in self.ev(n.target.value, st, fr):
          if r[0] == "v":
            ty = self.p.ann_type(n.annotation, fr.module)
            if ty is not None: self.types.setdefault(attr(r[1], n.target.attr), ty)
          yield (("next",) if r[0] == "v" else ("raise", r[1])), r[2]
      else: yield ("next",), st
      return
    for r in self.ev(n.value, st, fr):
      if r[0] == "x": yield ("raise", r[1]), r[2]; continue
      ty = self.p.ann_type(n.annotation, fr.module)
      if ty is not None and r[1] not in self.types and r[1].op in ("call", "attr", "item", "elem", "param", "awaited"): self.types[r[1]] = ty
      for oc in self.assign(n.target, r[1], r[2], fr):
        yield (("next",) if oc[0] == "v" else ("raise", oc[1])), oc[2]

  def st_AugAssign(self, n, st, fr):
    load = _as_load(n.target)
    for r in self.ev(load, st, fr):
      if r[0] == "x": yield ("raise", r[1]), r[2]; continue
      for q in self.ev(n.value, r[2], fr):
        if q[0] == "x": yield ("raise", q[1]), q[2]; continue
        s = q[2]
        if r[1].op == "obj" and isinstance(n.op, (ast.BitOr, ast.Add)):
          s = self.obj_extend(r[1], q[1], s)
          yield ("next",), s
          continue
        v = self.binop(n.op, r[1], q[1], s)
        for oc in self.assign(n.target, v, s, fr, aug=True):
          yield (("next",) if oc[0] == "v" else ("raise", oc[1])), oc[2]

  def assign(self, t, v, st, fr, aug=False):
    """yields ('v', _, st) / ('x', exc, st)"""
    if isinstance(t, ast.Name):
      frid = fr.nonlocals.get(t.id, fr.frid)
      yield ("v", NONE, st.setvar(frid, t.id, v))
    elif isinstance(t, (ast.Tuple, ast.List)):
      els = self.unpack(v, len(t.elts), st, any(isinstance(e, ast.Starred) for e in t.elts))
      stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if len(stars) == 1:
        ex, i, after = self.exact_items(v, st), stars[0], len(t.elts) - stars[0] - 1
        if ex is not None and len(ex) >= len(t.elts) - 1:
          o, st = self.new_obj("list", [("e", x) for x in ex[i:len(ex) - after]], st)
          els = ex[:i] + [o] + (ex[len(ex) - after:] if after else [])
      sts = [st]
      for e, x in zip(t.elts, els):
        if isinstance(e, ast.Starred): e = e.value
        nx = []
        for s in sts:
          for oc in self.assign(e, x, s, fr):
            if oc[0] == "v": nx.append(oc[2])
            else: yield oc
        sts = nx
      for s in sts: yield ("v", NONE, s)
    elif isinstance(t, ast.Attribute):
      for r in self.ev(t.value, st, fr):
        if r[0] == "x": yield r; continue
        base, s = r[1], r[2]
        e = self._mkev("setattr", s, fr, t, recv=base, name=t.attr, args=(v,), res=const(aug))
        s = s.event(e)
        prop = None
        ty = self.type_of(base, s)
        if isinstance(ty, Class):
          for k in self.p.mro(ty):
            if isinstance(k, Class) and "__setattr__" in k.methods: break
        s.store[(base, t.attr)] = v
        if base.op == "new":
          d = dict(s.heap.get(base.a[1], {})); d[t.attr] = v
          s.heap[base.a[1]] = d
        yield ("v", NONE, s)
    elif isinstance(t, ast.Subscript):
      for r in self.ev(t.value, st, fr):
        if r[0] == "x": yield r; continue
        for q in self.ev(t.slice, r[2], fr):
          if q[0] == "x": yield q; continue
          s = q[2].event(self._mkev("setitem", q[2], fr, t, recv=r[1], args=(q[1], v), res=const(aug)))
          if r[1].op == "obj": s = self.obj_setitem(r[1], q[1], v, s)
          else:
            s.store[("item", r[1], q[1])] = v
            self._forget(s, r[1])
            s.known[mk("in", q[1], r[1])] = True
          yield ("v", NONE, s)
    elif isinstance(t, ast.Starred):
      yield from self.assign(t.value, v, st, fr)
    else: yield ("v", NONE, st)

  def _forget(self, s, base):
    """known facts about the contents of a container become stale once it is mutated"""
    for a in [a for a in s.known if a.op in ("in", "truthy", "eq", "lt") and any(x is base for x in a.a)]: s.known.pop(a, None)
    for k in [k for k in s.store if k[0] == "item" and len(k) == 3 and k[1] is base]: s.store.pop(k, None)

  def unpack(self, v, n, st, starred=False):
    if not starred:
      if v.op == "tuple" and len(v.a) == n: return list(v.a)
      if v.op == "obj":
        h = st.heap.get(v.a[0])
        if h and h[0] in ("list", "set") and len(h[1]) == n and all(e[0] == "e" for e in h[1]): return [e[1] for e in h[1]]
    out = []
    for i in range(n):
      x = mk("item", v, const(i))
      ty = self.type_of(v, st)
      if isinstance(ty, tuple) and ty[0] == "tuple" and i < len(ty[1]) and ty[1][i] is not None: self.types.setdefault(x, ty[1][i])
      out.append(x)
    return out

  def st_Delete(self, n, st, fr):
    sts = [st]
    for t in n.targets:
      nx = []
      for s in sts:
        if isinstance(t, ast.Subscript):
          for r in self.ev(t.value, s, fr):
            if r[0] == "x": yield ("raise", r[1]), r[2]; continue
            for q in self.ev(t.slice, r[2], fr):
              if q[0] == "x": yield ("raise", q[1]), q[2]; continue
              s2 = q[2].event(self._mkev("delitem", q[2], fr, t, recv=r[1], args=(q[1],)))
              for x in self.cfg.raises(s2.events[-1], s2) or (): yield ("raise", exc(x)), s2.copy()
              self._forget(s2, r[1])
              s2.known[mk("in", q[1], r[1])] = False
              nx.append(s2)
        elif isinstance(t, ast.Attribute):
          for r in self.ev(t.value, s, fr):
            if r[0] == "x": yield ("raise", r[1]), r[2]; continue
            s2 = r[2].event(self._mkev("delattr", r[2], fr, t, recv=r[1], name=t.attr))
            nx.append(s2)
        else: nx.append(s)
      sts = nx
    for s in sts: yield ("next",), s

  def st_If(self, n, st, fr):
    ts, fs = [], []
    for b in self.branch(n.test, st, fr):
      if b[0] == "x": yield ("raise", b[1]), b[2]
      elif b[1]: ts.append(b[2])
      else: fs.append(b[2])
    for s in self.merge(ts): yield from self.exec_block(n.body, s, fr)
    for s in self.merge(fs): yield from self.exec_block(n.orelse, s, fr)

  def st_Match(self, n, st, fr):
    for r in self.ev(n.subject, st, fr):
      if r[0] == "x": yield ("raise", r[1]), r[2]; continue
      pend = [r[2]]
      for case in n.cases:
        nxt = []
        for s in pend:
          for ok, s2 in self.match_pat(case.pattern, r[1], s, fr):
            if not ok: nxt.append(s2); continue
            if case.guard is not None:
              for b in self.branch(case.guard, s2, fr):
                if b[0] == "x": yield ("raise", b[1]), b[2]
                elif b[1]: yield from self.exec_block(case.body, b[2], fr)
                else: nxt.append(b[2])
            else: yield from self.exec_block(case.body, s2, fr)
        pend = nxt
      for s in pend: yield ("next",), s

  def match_pat(self, p, v, st, fr):
    if isinstance(p, ast.MatchValue):
      for r in self.ev(p.value, st, fr):
        if r[0] == "v": yield from self.truth(self.compare("==", v, r[1], r[2]), r[2])
    elif isinstance(p, ast.MatchSingleton): yield from self.truth(self.compare("is", v, const(p.value), st), st)
    elif isinstance(p, ast.MatchOr):
      pend = [st]
      for q in p.patterns:
        nx = []
        for s in pend:
          for ok, s2 in self.match_pat(q, v, s, fr):
            if ok: yield True, s2
            else: nx.append(s2)
        pend = nx
      for s in pend: yield False, s
    elif isinstance(p, ast.MatchAs):
      if p.pattern is None:
        yield True, (st.setvar(fr.frid, p.name, v) if p.name else st)
      else:
        for ok, s in self.match_pat(p.pattern, v, st, fr):
          yield ok, (s.setvar(fr.frid, p.name, v) if ok and p.name else s)
    elif isinstance(p, ast.MatchClass):
      for r in self.ev(p.cls, st, fr):
        if r[0] != "v": continue
        for ok, s in self.truth(self.isinstance_(v, r[1], r[2]), r[2]):
          if not ok or not (p.patterns or p.kwd_patterns): yield ok, s; continue
          pend = [s]
          for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
            nx = []
            for s1 in pend:
              for g in self.getattr_(v, nm, s1, fr, p):
                if g[0] != "v": continue
                for ok2, s3 in self.match_pat(q, g[1], g[2], fr):
                  if ok2: nx.append(s3)
                  else: yield False, s3
            pend = nx
          for s1 in pend: yield True, s1
    else:
      a = mk("truthy", mk("match", ast.dump(p), v))
      yield from self.truth(a, st)

  def st_FunctionDef(self, n, st, fr):
    clo = self.closure(n, st, fr)
    v, s = clo, st
    pend = [(v, s)]
    for d in reversed(n.decorator_list):
      nx = []
      for v, s in pend:
        for r in self.ev(d, s, fr):
          if r[0] == "x": yield ("raise", r[1]), r[2]; continue
          if self.cfg.decorate and self.target(r[1]) is not None:
            for q in self.call(r[1], [v], [], d, r[2], fr):
              if q[0] == "x": yield ("raise", q[1]), q[2]
              else: nx.append((q[1], q[2]))
            continue
          e = self._mkev("call", r[2], fr, d, name=self.callee_name(r[1]), fterm=r[1], args=(v,), kw=(), recv=None, inlined=False)
          nx.append((v if self.cfg.decorate else clo, r[2].event(e)))
      pend = nx
    for v, s in pend: yield ("next",), s.setvar(fr.frid, n.name, v)
  st_AsyncFunctionDef = st_FunctionDef

  def closure(self, n, st, fr):
    key = (id(n), fr.frid)
    f = self._nested.get(id(n))
    if f is None: f = self._nested[id(n)] = Func(n, fr.module, None, fr.func)
    t = mk("closure", f.qualname, f"{n.lineno}:{n.col_offset}", fr.frid)
    self.closures[t] = (f, (fr.frid,) + tuple(fr.parent_frids), fr.selfterm, fr.cls)
    return t

  # loops ----------------------------------------------------------------
  def st_While(self, n, st, fr):
    infinite = isinstance(n.test, ast.Constant) and bool(n.test.value)
    pend = [st]
    for it in range(self.cfg.unroll):
      nx = []
      for s in pend:
        for b in self.branch(n.test, s, fr):
          if b[0] == "x": yield ("raise", b[1]), b[2]; continue
          if not b[1]:
            if n.orelse: yield from self.exec_block(n.orelse, b[2], fr)
            else: yield ("next",), b[2]
            continue
          s1 = b[2].copy(); outer = s1.loops
          s1.loops = outer + (("while", n),)
          for oc, s2 in self.exec_block(n.body, s1, fr):
            s2 = s2.copy(); s2.loops = outer
            if oc[0] in ("break", "return"): s2 = s2.event(self._mkev("wleave", s2, fr, n, name=oc[0]))
            if oc[0] in ("next", "continue"): nx.append(s2)
            elif oc[0] == "break": yield ("next",), s2
            else: yield oc, s2
      pend = self.merge(nx)
    for s in pend:
      if self.cfg.closed_loops: continue   # every round was enumerated with fresh knowledge of the state; more rounds add nothing
      if infinite:
        s = s.copy()
        yield ("loopback",), s
      else:
        # leave the loop: the guard is false in some later, unknown state
        s = s.copy(); s.known = {a: b for a, b in s.known.items() if a.op == "isinst"}
        if n.orelse: yield from self.exec_block(n.orelse, s, fr)
        else: yield ("next",), s

  def st_For(self, n, st, fr, is_async=False):
    for r in self.ev(n.iter, st, fr):
      if r[0] == "x": yield ("raise", r[1]), r[2]; continue
      v, s0 = r[1], r[2]
      g = self.gen_of(v, s0)
      if g is not None:
        yield from self.for_gen(n, g, s0, fr)
        continue
      s0 = s0.event(self._mkev("loop", s0, fr, n, recv=v, res=const(is_async)))
      if is_async:
        for x in self.cfg.raises(s0.events[-1], s0) or (): yield ("raise", exc(x)), s0
        if self.cfg.cancel: yield ("raise", exc("asyncio.CancelledError")), s0
      ex = self.exact_items(v, s0)
      if ex is not None:
        pend = [s0]
        outer = s0.loops
        for item in ex:
          nx = []
          for s in pend:
            s = s.copy(); s.loops = outer + (("for", n, v),)
            for a in self.assign(n.target, item, s, fr):
              if a[0] == "x": yield ("raise", a[1]), a[2]; continue
              for oc, s2 in self.exec_block(n.body, a[2], fr):
                s2 = s2.copy(); s2.loops = outer
                if oc[0] in ("next", "continue"): nx.append(s2)
                elif oc[0] == "break": yield ("next",), self._leave(oc, s2, fr, n, v)
                else: yield oc, self._leave(oc, s2, fr, n, v)
          pend = self.merge(nx)
        for s in pend: yield from self.exec_block(n.orelse, s, fr)
        continue
      pend = [s0]
      exits, calm, base = [], True, len(s0.facts)   # a round that ends the loop early is one that some element leads to; after all rounds no element does
      for rnd in range(self.cfg.unroll_for):
        nxt = []
        for sp in pend:
          for kind, item, s in self.iter_alts(v, f"{n.lineno}:{n.col_offset}@{fr.frid}" + "'" * rnd, sp):
            if kind == "none":
              yield from self.exec_block(n.orelse, s, fr)
              continue
            outer = s.loops
            s = s.copy(); s.loops = outer + (("for", n, v),)
            for a in self.assign(n.target, item, s, fr):
              if a[0] == "x": yield ("raise", a[1]), a[2]; continue
              for oc, s2 in self.exec_block(n.body, a[2], fr):
                s2 = s2.copy(); s2.loops = outer
                if oc[0] in ("next", "continue"):
                  nxt.append(s2)
                  calm = calm and not any(e.kind in ("call", "setattr", "setitem", "await", "delitem") and not _quiet(e) for e in s2.events[len(s0.events):])
                  continue
                if oc[0] != "raise" or s2.events and s2.events[-1].kind == "raise" and s2.events[-1].name != "reraise" and s2.events[-1].res is oc[1]: exits.append((True, s2.facts[base:], NONE))
                if oc[0] == "break": yield ("next",), self._leave(oc, s2, fr, n, v)
                else: yield oc, self._leave(oc, s2, fr, n, v)
        pend = self.merge(nxt)
        if rnd + 1 < self.cfg.unroll_for:
          for s2 in pend: yield from self.exec_block(n.orelse, s2, fr)
      if exits and calm and self.cfg.unroll_for == 1:
        none = mk("anyof", mk("comp", "gen", f"{n.lineno}:{n.col_offset}@{fr.frid}", tuple(exits)), "exists")
        for i, s2 in enumerate(pend):
          s2 = s2.copy(); s2.facts = s2.facts + ((none, False),)
          pend[i] = s2
      for s2 in pend: yield from self.exec_block(n.orelse, s2, fr)

  def _leave(self, oc, s, fr, n, v):
    """mark that a loop was left before its iterable was exhausted"""
    if oc[0] not in ("break", "return"): return s
    return s.event(self._mkev("leave", s, fr, n, recv=v, name=oc[0]))

  def st_AsyncFor(self, n, st, fr): yield from self.st_For(n, st, fr, True)

  def for_gen(self, n, g, st, fr):
    func, d, selfterm, pf, cls = g
    st, k = st.fresh()
    nf = Frame(func, f"{func.qualname}#{k}", func.module, pf, selfterm, fr.stack + (func.qualname,), cls=cls)
    st.env[nf.frid] = d
    def hook(val, s):
      outer = s.loops
      s = s.copy(); s.loops = outer + (("for", n, mk("generator", func.qualname)),)
      for a in self.assign(n.target, val, s, fr):
        if a[0] == "x": yield ("x", a[1], a[2]); continue
        for oc, s2 in self.exec_block(n.body, a[2], fr):
          s2 = s2.copy(); s2.loops = outer
          if oc[0] in ("next", "continue"): yield ("v", NONE, s2)
          elif oc[0] == "loopback": yield ("x", exc("__loopback__"), s2)
          else:
            s2.parked = s2.parked + ((nf.frid, ("next",) if oc[0] == "break" else oc),)
            yield ("x", exc("builtins.GeneratorExit"), s2)
    nf.yield_hook = hook
    self.inlined_funcs.add(func.qualname)
    for oc, s in self.exec_body(func, st, nf):
      if s.parked and s.parked[-1][0] == nf.frid:
        s = s.copy(); po = s.parked[-1][1]; s.parked = s.parked[:-1]
        if oc[0] in ("next", "return") or (oc[0] == "raise" and oc[1].a[0] == "builtins.GeneratorExit"): oc = po
        yield oc, s
      elif oc[0] in ("next", "return"): yield from self.exec_block(n.orelse, s, fr)
      else: yield oc, s

  def gen_of(self, v, st):
    if v.op == "genobj":
      h = st.heap.get(v.a[0])
      if h: return h[1]
    return None

  def exact_items(self, v, st):
    lim = 16 if self.cfg.exact_comps else 8
    if v.op == "tuple" and len(v.a) <= lim: return list(v.a)
    if v.op == "copy": return self.exact_items(v.a[1], st)
    if v.op == "obj":
      h = st.heap.get(v.a[0])
      if h and h[0] in ("list", "set", "tuple") and all(e[0] == "e" for e in h[1]) and len(h[1]) <= lim: return [e[1] for e in h[1]]
      if h and h[0] == "dict" and all(e[0] == "kv" for e in h[1]) and len(h[1]) <= lim: return [e[1] for e in h[1]]
    if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "builtins.range" and v.a[1] and all(x.op == "const" and isinstance(x.a[0], int) for x in v.a[1]):
      try: r = range(*[x.a[0] for x in v.a[1]])
      except (TypeError, ValueError): return None
      return [const(i) for i in r] if len(r) <= lim else None
    if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] in ("items", "keys", "values"):
      b = v.a[0].a[0]
      if b.op == "obj":
        h = st.heap.get(b.a[0])
        if h and h[0] == "dict" and all(e[0] == "kv" for e in h[1]) and len(h[1]) <= lim:
          w = v.a[0].a[1]
          return [mk("tuple", e[1], e[2]) if w == "items" else e[1] if w == "keys" else e[2] for e in h[1]]
    return None

  def iter_alts(self, v, site, st):
    """-> ('some', elem, st) / ('none', None, st): representative element of an iterable, or nothing"""
    ex = self.exact_items(v, st)
    if ex is not None:
      if not ex: yield "none", None, st
      for x in ex: yield "some", x, st
      return
    op = v.op
    if op == "copy": yield from self.iter_alts(v.a[1], site, st); return
    if op == "comp":
      for passed, facts, elt in v.a[2]:
        s = self.assume_all(facts, st)
        if s is None: continue
        if passed: yield "some", elt, s
        else: yield "none", None, s
      return
    if op == "obj":
      h = st.heap.get(v.a[0])
      for e in h[1]:
        if e[0] == "e": yield "some", e[1], st
        elif e[0] == "kv": yield "some", e[1], st
        else: yield from self.iter_alts(e[1], site, st)
      if not h[1]: yield "none", None, st
      return
    if op == "bin" and v.a[0] in ("|", "+"):
      yield from self.iter_alts(v.a[1], site + "l", st)
      yield from self.iter_alts(v.a[2], site + "r", st)
      return
    if op == "bin" and v.a[0] == "-":
      at = mk("truthy", v)
      for k, x, s in self.iter_alts(v.a[1], site, st):
        if k == "some":
          for ok, s2 in self.truth(self.compare("in", x, v.a[2], s), s):
            if ok is False:
              s2 = self.assume(at, True, s2)
              if s2 is not None: yield k, x, s2
        else:
          s2 = self.assume(at, False, s)
          if s2 is not None: yield k, x, s2
      s2 = self.assume(at, False, st)
      if s2 is not None: yield "none", None, s2
      return
    if op == "bin" and v.a[0] == "&":
      at = mk("truthy", v)
      for k, x, s in self.iter_alts(v.a[1], site, st):
        if k == "some":
          for ok, s2 in self.truth(self.compare("in", x, v.a[2], s), s):
            if ok is True:
              s2 = self.assume(at, True, s2)
              if s2 is not None: yield k, x, s2
        else:
          s2 = self.assume(at, False, s)
          if s2 is not None: yield k, x, s2
      s2 = self.assume(at, False, st)
      if s2 is not None: yield "none", None, s2
      return
    if op == "call":
      f, a = v.a[0], v.a[1]
      if f.op == "ext":
        nm = f.a[0]
        if nm in ("builtins.sorted", "builtins.reversed", "builtins.iter", "collections.deque") and a:
          yield from self.iter_alts(a[0], site, st); return
        if nm == "builtins.enumerate" and a:
          for k, x, s in self.iter_alts(a[0], site, st): yield k, (mk("tuple", mk("index", a[0], site), x) if k == "some" else None), s
          return
        if nm == "builtins.zip" and a:
          yield "some", mk("tuple", *[mk("elem", self.strip_copy(x), site) for x in a]), st
          yield "none", None, st
          return
        if nm in ("itertools.chain",):
          for i, x in enumerate(a): yield from self.iter_alts(x, f"{site}.{i}", st)
          return
        if nm == "builtins.range": pass
        if nm == "builtins.filter" and len(a) == 2: pass
      if f.op == "attr" and f.a[1] in ("items", "values", "keys") and not a:
        b = f.a[0]
        ty = self.type_of(b, st)
        if isinstance(ty, Class): pass
        else:
          at = mk("truthy", b)
          s0 = self.assume(at, False, st)
          if s0 is not None: yield "none", None, s0
          s1 = self.assume(at, True, st)
          if s1 is not None:
            k = mk("elem", b, site)
            val = mk("item", b, k)
            if isinstance(ty, tuple) and ty[0] == "dict":
              if ty[1] is not None: self.types.setdefault(k, ty[1])
              if ty[2] is not None: self.types.setdefault(val, ty[2])
            yield "some", (mk("tuple", k, val) if f.a[1] == "items" else k if f.a[1] == "keys" else val), s1
          return
    at = mk("truthy", v)
    s0 = self.assume(at, False, st)
    if s0 is not None: yield "none", None, s0
    s1 = self.assume(at, True, st)
    if s1 is not None:
      e = mk("elem", v, site)
      ty = self.type_of(v, st)
      if isinstance(ty, tuple) and ty[0] in ("coll", "dict") and ty[1] is not None: self.types.setdefault(e, ty[1])
      yield "some", e, s1

  def strip_copy(self, v):
    while v.op == "copy": v = v.a[1]
    return v

  # try / with -------------------------------------------------------------
  def st_Try(self, n, st, fr):
    def body():
      for oc, s in self.exec_block(n.body, st, fr):
        if oc[0] == "next" and n.orelse: yield from self.exec_block(n.orelse, s, fr)
        elif oc[0] == "raise" and oc[1].a[0] != "__loopback__": yield from self.handle(n.handlers, oc[1], s, fr)
        else: yield oc, s
    if not n.finalbody:
      yield from body()
      return
    for oc, s in body():
      if oc[0] == "loopback" or (oc[0] == "raise" and oc[1].a[0] == "__loopback__"): yield oc, s; continue
      for fo, s2 in self.exec_block(n.finalbody, s, fr):
        yield (oc if fo[0] == "next" else fo), s2
  st_TryStar = st_Try

  def handle(self, handlers, e, st, fr):
    pend = [(e, st)]
    for h in handlers:
      nx = []
      for e1, s in pend:
        m = self.exc_match(e1, h.type, fr, s)
        if m in ("yes", "maybe"):
          caught = e1
          if m == "maybe":
            nm = self.handler_names(h.type, fr, s)
            caught = exc(nm[0], e1.a[1]) if len(nm) == 1 else e1
          s2 = s.copy()
          s2.handling = s2.handling + (caught,)
          if h.name: s2 = s2.setvar(fr.frid, h.name, caught.a[1] if self.cfg.exc_values and caught.a[1].op in ("new", "inst") else mk("excval", caught))
          s2 = s2.event(self._mkev("handle", s2, fr, h, name=caught.a[0], res=caught))
          for oc, s3 in self.exec_block(h.body, s2, fr):
            s3 = s3.copy(); s3.handling = s3.handling[:-1] if s3.handling else ()
            yield oc, s3
        if m in ("no", "maybe"): nx.append((e1, s))
      pend = nx
    for e1, s in pend: yield ("raise", e1), s

  def handler_names(self, tnode, fr, st):
    if tnode is None: return ["builtins.BaseException"]
    els = tnode.elts if isinstance(tnode, ast.Tuple) else [tnode]
    out = []
    for x in els:
      r = self.p.resolve_expr(x, fr.module)
      if r and r[0] == "class": out.append(r[1].qualname)
      elif r and r[0] == "ext": out.append(r[1])
      elif r and r[0] == "var":
        vs = r[1].assigns.get(r[2], [None])[0]
        out.extend(self.handler_names(vs, Frame(fr.func, fr.frid, r[1]), st) if vs is not None else ["?"])
      else: out.append("?" + (dotted(x) or "expr"))
    return out

  def exc_match(self, e, tnode, fr, st):
    name = e.a[0]
    best = "no"
    for h in self.handler_names(tnode, fr, st):
      m = exc_is(self.p, name, h)
      if m is True: return "yes"
      if m is None: best = "maybe"
    return best

  def st_With(self, n, st, fr, is_async=False):
    yield from self._with(n, list(n.items), st, fr, is_async)
  def st_AsyncWith(self, n, st, fr): yield from self.st_With(n, st, fr, True)

  def _with(self, n, items, st, fr, is_async):
    if not items:
      yield from self.exec_block(n.body, st, fr)
      return
    it, rest = items[0], items[1:]
    for r in self.ev(it.context_expr, st, fr):
      if r[0] == "x": yield ("raise", r[1]), r[2]; continue
      v, s = r[1], r[2]
      def inner(val, s1):
        if it.optional_vars is not None:
          for a in self.assign(it.optional_vars, val, s1, fr):
            if a[0] == "x": yield ("raise", a[1]), a[2]
            else: yield from self._with(n, rest, a[2], fr, is_async)
        else: yield from self._with(n, rest, s1, fr, is_async)
      yield from self.with_value(v, s, fr, n, inner, is_async)

  def with_value(self, v, s, fr, n, inner, is_async):
    g = self.gen_of(v, s)
    if g is not None:
      func, d, selfterm, pf, cls = g
      s, k = s.fresh()
      nf = Frame(func, f"{func.qualname}#{k}", func.module, pf, selfterm, fr.stack + (func.qualname,), cls=cls)
      s.env[nf.frid] = d
      s = s.event(self._mkev("enter", s, fr, n, recv=v, name=func.qualname, inlined=True))
      def hook(val, s1):
        for oc, s2 in inner(val, s1):
          if oc[0] == "next": yield ("v", NONE, s2)
          elif oc[0] == "raise": yield ("x", oc[1], s2)
          elif oc[0] == "loopback": yield ("x", exc("__loopback__"), s2)
          else:
            s2 = s2.copy(); s2.parked = s2.parked + ((nf.frid, oc),)
            yield ("v", NONE, s2)
      nf.yield_hook = hook
      self.inlined_funcs.add(func.qualname)
      for oc, s3 in self.exec_body(func, s, nf):
        if s3.parked and s3.parked[-1][0] == nf.frid:
          s3 = s3.copy(); po = s3.parked[-1][1]; s3.parked = s3.parked[:-1]
          yield (po if oc[0] in ("next", "return") else oc), s3
        else: yield (("next",) if oc[0] == "return" else oc), s3
      return
    ty = self.type_of(v, s)
    names = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
    if isinstance(ty, Class):
      en, ex = self.p.method(ty, names[0], False), self.p.method(ty, names[1], False)
      if en is not None and ex is not None and self.can_inline(en, fr):
        for r in self.inline(en, v, [], [], s, fr, n):
          if r[0] == "x": yield ("raise", r[1]), r[2]; continue
          for oc, s2 in inner(r[1], r[2]):
            if oc[0] == "loopback" or (oc[0] == "raise" and oc[1].a[0] == "__loopback__"): yield oc, s2; continue
            for q in self.inline(ex, v, [mk("exit_arg", i) for i in range(3)], [], s2, fr, n):
              if q[0] == "x": yield ("raise", q[1]), q[2]
              else: yield oc, q[2]
        return
    ev = self._mkev("enter", s, fr, n, recv=v, name=self.callee_name(v), awaited=is_async)
    s = s.event(ev)
    if is_async:
      for x in self.cfg.raises(ev, s) or (): yield ("raise", exc(x)), s
      if self.cfg.cancel: yield ("raise", exc("asyncio.CancelledError")), s
    supp = v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "contextlib.suppress"
    for oc, s2 in inner(v, s):
      if oc[0] == "loopback" or (oc[0] == "raise" and oc[1].a[0] == "__loopback__"): yield oc, s2; continue
      s2 = s2.event(self._mkev("exit", s2, fr, n, recv=v, name=self.callee_name(v), res=const(oc[0])))
      if supp and oc[0] == "raise":
        ms = [exc_is(self.p, oc[1].a[0], a.a[0]) for a in v.a[1] if a.op in ("ext", "class")]
        if True in ms: yield ("next",), s2; continue
        if None in ms: yield ("next",), s2
      yield oc, s2

  # ------------------------------------------------------------- conditions
  def branch(self, n, st, fr):
    """yields ('b', bool, st) / ('x', exc, st)"""
    if isinstance(n, ast.BoolOp):
      isand = isinstance(n.op, ast.And)
      pend = [st]
      for i, v in enumerate(n.values):
        nx = []
        for s in pend:
          for b in self.branch(v, s, fr):
            if b[0] == "x": yield b
            elif b[1] is isand: nx.append(b[2])
            else: yield ("b", not isand, b[2])
        pend = nx
      for s in pend: yield ("b", isand, s)
      return
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      for b in self.branch(n.operand, st, fr):
        yield b if b[0] == "x" else ("b", not b[1], b[2])
      return
    if isinstance(n, ast.Compare) and len(n.ops) > 1:
      parts = []
      left = n.left
      for op, r in zip(n.ops, n.comparators):
        parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), n))
        left = r
      yield from self.branch(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), n), st, fr)
      return
    for r in self.ev(n, st, fr):
      if r[0] == "x": yield r; continue
      for ok, s in self.truth(r[1], r[2]): yield ("b", ok, s)

  def truth(self, v, st):
    op = v.op
    if op == "const":
      yield bool(v.a[0]), st
      return
    if op == "not":
      for ok, s in self.truth(v.a[0], st): yield not ok, s
      return
    if op == "obj":
      h = st.heap.get(v.a[0])
      if h is None: at = mk("truthy", v)
      elif any(e[0] in ("e", "kv") for e in h[1]): yield True, st; return
      elif not h[1]: yield False, st; return
      else:
        yield from self.truth(h[1][0][1], st)
        return
    elif op in ("inst", "new", "func", "rawfunc", "closure", "class", "bound", "enum", "genobj", "coro", "partial", "data"):
      yield True, st
      return
    elif op == "tuple" or op == "whole" and all(x.op == "data" for x in v.a):
      yield len(v.a) > 0, st
      return
    elif op in ("eq", "lt", "in", "is", "isinst", "truthy", "anyof", "allof"): at = v
    elif op == "copy" or op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "builtins.len" and len(v.a[1]) == 1:
      yield from self.truth(v.a[1] if op == "copy" else v.a[1][0], st)
      return
    elif op == "oneof":
      # disjunction of atoms
      pend = [st]
      for a in v.a:
        nx = []
        for s in pend:
          for ok, s2 in self.truth(a, s):
            if ok: yield True, s2
            else: nx.append(s2)
        pend = nx
      for s in pend: yield False, s
      return
    elif op == "comp":
      for passed, facts, elt in v.a[2]:
        s = self.assume_all(facts, st)
        if s is not None: yield passed, s
      return
    else: at = mk("truthy", v)
    d = self.decide(at, st)
    if d is not None:
      yield d, st
      return
    for b in (True, False):
      s = self.assume(at, b, st)
      if s is not None: yield b, s

  def assume(self, at, val, st):
    d = self.decide(at, st)
    if d is not None: return st if d is val else None
    s = st.copy()
    s.known[at] = val
    s.facts = s.facts + ((at, val),)
    return s

  def assume_all(self, facts, st):
    for a, v in facts:
      st = self.assume(a, v, st)
      if st is None: return None
    return st

  def decide(self, at, st):
    if at.op == "const": return bool(at.a[0])
    if at in st.known: return st.known[at]
    k = st.known
    op = at.op
    if op == "is":
      x = at.a[0]
      if is_const(x): return x is at.a[1]
      if x.op in ("inst", "new", "obj", "tuple", "func", "rawfunc", "closure", "class", "bound", "enum", "self", "coro", "genobj", "comp", "bin", "fstr", "data"): return False
      if x.op in ("copy", "packed", "index") or x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in NEVER_NONE: return False
      if k.get(mk("truthy", x)) is True: return False
      for a, v in k.items():
        if v and a.op == "isinst" and a.a[0] is x: return False
        if v and a.op == "eq" and x in a.a and any(is_const(o) and o is not NONE for o in a.a): return False
    elif op == "truthy":
      x = at.a[0]
      if x.op == "const": return bool(x.a[0])
      if k.get(mk("is", x, NONE)) is True: return False
      for a, v in k.items():
        if v and a.op == "eq" and x in a.a:
          o = a.a[0] if a.a[1] is x else a.a[1]
          if o.op == "const": return bool(o.a[0])
        if v and a.op == "in" and a.a[1] is x: return True
      ty = self.exact.get(x)
      if ty is not None: return True
    elif op == "eq":
      l, r = at.a
      for x, o in ((l, r), (r, l)):
        if o.op in ("const", "enum"):
          for a, v in k.items():
            if a.op == "eq" and v and x in a.a:
              p = a.a[0] if a.a[1] is x else a.a[1]
              if p.op in ("const", "enum") and p is not o: return False
          if o.op == "const" and k.get(mk("is", x, NONE)) is True: return False
    elif op == "isinst":
      x, cq = at.a
      return self.decide_isinst(x, cq, st)
    elif op == "lt":
      pass
    return None

  def decide_isinst(self, x, cq, st):
    target = self.p._class_by_qual.get(cq, cq)
    ty = self.exact.get(x)
    if ty is None and x.op in ("inst", "new"): ty = self.p._class_by_qual.get(x.a[0])
    if ty is not None:
      r = self.p.is_sub(ty, target)
      return r
    if x.op == "const":
      nm = type(x.a[0]).__name__
      if isinstance(target, str): return cq in ("builtins." + nm,) or (cq == "builtins.int" and isinstance(x.a[0], bool))
      return False
    if x.op == "typed":
      if not cq.startswith("builtins."): return False
      a, b = getattr(builtins, x.a[0], None), getattr(builtins, cq[9:], None)
      return issubclass(a, b) if isinstance(b, type) else None
    if x.op == "tuple": return cq == "builtins.tuple"
    bt = "builtins." + x.a[0] if x.op in ("copy", "comp") and x.a[0] != "gen" else x.a[0].a[0] if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in TYPE_CALLS else None
    if bt is not None:
      if not isinstance(target, str) or not cq.startswith("builtins."): return False if not isinstance(target, str) else None
      return bt == cq or (bt == "builtins.bool" and cq == "builtins.int")
    if x.op == "obj":
      h = st.heap.get(x.a[0])
      if h: return cq == "builtins." + h[0]
    if st.known.get(mk("is", x, NONE)) is True: return False
    for a, v in st.known.items():
      if a.op != "isinst" or a.a[0] is not x: continue
      o = self.p._class_by_qual.get(a.a[1], a.a[1])
      if v:
        if isinstance(o, Class):
          s = self.p.is_sub(o, target)
          if s: return True
          if isinstance(target, Class):
            if not any(self.p.is_sub(c, o) for c in [target] + self.p.subclasses(target)): return False
        elif isinstance(target, str) and o != target and o.startswith("builtins.") and target.startswith("builtins."):
          bo, bt = getattr(builtins, o[9:], None), getattr(builtins, target[9:], None)
          if isinstance(bo, type) and isinstance(bt, type):
            if issubclass(bo, bt): return True
            if not issubclass(bt, bo): return False
      else:
        if isinstance(target, Class) and isinstance(o, Class) and self.p.is_sub(target, o): return False
    return None

  def isinstance_(self, x, c, st):
    if c.op == "tuple":
      r = [self.isinstance_(x, k, st) for k in c.a]
      return mk("oneof", *r)
    if c.op == "bin" and c.a[0] == "|":
      return mk("oneof", self.isinstance_(x, c.a[1], st), self.isinstance_(x, c.a[2], st))
    if c.op == "obj":
      ex = self.exact_items(c, st)
      if ex is not None: return mk("oneof", *[self.isinstance_(x, k, st) for k in ex])
    if c.op in ("class", "ext"): return mk("isinst", x, c.a[0])
    if c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] == "builtins.type" and c.a[1] and c.a[1][0] is NONE: return mk("is", x, NONE)
    return mk("truthy", mk("call", mk("ext", "builtins.isinstance"), (x, c), (), None))

  def compare(self, op, l, r, st):
    """value of a comparison: const or atom or not(atom)"""
    if op in ("!=", "is not", "not in"):
      c = self.compare({"!=": "==", "is not": "is", "not in": "in"}[op], l, r, st)
      if c.op == "const": return const(not c.a[0])
      return c.a[0] if c.op == "not" else mk("not", c)
    if op in (">", "<=", ">="):
      if op == ">": return self.compare("<", r, l, st)
      c = self.compare("<", r, l, st) if op == "<=" else self.compare("<", l, r, st)
      if c.op == "const": return const(not c.a[0])
      return c.a[0] if c.op == "not" else mk("not", c)
    l1, r1 = self.lenof(l), self.lenof(r)
    if l1 is not None and is_const(r) and isinstance(r.a[0], int):
      if op == "==" and r.a[0] == 0: return self._neg(self._truthy(l1, st))
      if op == "<" and r.a[0] == 1: return self._neg(self._truthy(l1, st))
    if r1 is not None and is_const(l) and isinstance(l.a[0], int):
      if op == "==" and l.a[0] == 0: return self._neg(self._truthy(r1, st))
      if op == "<" and l.a[0] == 0: return self._truthy(r1, st)
    if op in ("is", "=="):
      if l is r: return TRUE
      if r is NONE or l is NONE:
        x = l if r is NONE else r
        at = mk("is", x, NONE)
        d = self.decide(at, st) if x.op in ("const", "inst", "new", "obj", "tuple", "enum", "self", "closure", "coro", "data") else None
        return const(d) if d is not None else at
      if l.op == "const" and r.op == "const": return const(l.a[0] == r.a[0])
      if l.op == "data" and is_const(r) and not r.a[0] or r.op == "data" and is_const(l) and not l.a[0]: return FALSE     # data that is not empty
      if l.op == "enum" and r.op == "enum": return FALSE
      if l.op == "ext" and r.op == "ext" and self.cfg.exact_comps and l.a[0].startswith("builtins.") and r.a[0].startswith("builtins."): return FALSE
      if op == "is" or True:
        for x, c in ((l, r), (r, l)):
          if c is TRUE and x.op in ("eq", "lt", "in", "is", "isinst", "truthy", "not"): return x
          if c is FALSE and x.op in ("eq", "lt", "in", "is", "isinst", "truthy", "not"): return self._neg(x)
      a, b = sorted((l, r), key=show)
      return mk("eq", a, b)
    if op == "<":
      if l.op == "const" and r.op == "const":
        try: return const(l.a[0] < r.a[0])
        except TypeError: pass
      return mk("lt", l, r)
    if op == "in":
      if r.op == "call" and r.a[0].op == "attr" and r.a[0].a[1] == "keys": r = r.a[0].a[0]
      r = self.strip_copy(r)
      ex = self.exact_items(r, st) if r.op in ("tuple", "obj") else None
      if ex is not None:
        cs = [self.compare("==", l, x, st) for x in ex]
        if any(c is TRUE for c in cs): return TRUE
        cs = [c for c in cs if c is not FALSE]
        if not cs: return FALSE
        return cs[0] if len(cs) == 1 else mk("oneof", *cs)
      if r.op == "obj" and r.a[0] in st.heap and st.heap[r.a[0]][0] == "dict":
        lk = self.dict_lookup(st.heap[r.a[0]][1], l, st)
        if lk is not None: return TRUE if lk[0] == "hit" else FALSE
        base = self.dict_base(st.heap[r.a[0]][1], l, st)
        if base is not None: return self.compare("in", l, base, st)
      if r.op == "bin" and r.a[0] == "|": return mk("oneof", self.compare("in", l, r.a[1], st), self.compare("in", l, r.a[2], st))
      if is_const(r) and is_const(l):
        try: return const(l.a[0] in r.a[0])
        except TypeError: pass
      return mk("in", l, r)
    return mk("truthy", mk("cmpop", op, l, r))

  def _neg(self, c):
    if c.op == "const": return const(not c.a[0])
    return c.a[0] if c.op == "not" else mk("not", c)
  def _truthy(self, x, st):
    rs = list(self.truth(x, st))
    if len(rs) == 1: return const(rs[0][0])
    return mk("truthy", self.strip_copy(x)) if x.op not in ("comp",) else mk("truthy", x)
  def lenof(self, t):
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.len" and t.a[1]: return t.a[1][0]
    return None

  # ------------------------------------------------------------ expressions
  def ev(self, n, st, fr):
    m = getattr(self, "ev_" + type(n).__name__, None)
    if m is None:
      yield ("v", mk("opaque", type(n).__name__, f"{getattr(n, 'lineno', 0)}:{getattr(n, 'col_offset', 0)}"), st)
      return
    yield from m(n, st, fr)

  def evs(self, nodes, st, fr):
    """evaluate a list of expressions -> ('v', [terms], st)"""
    if not nodes:
      yield ("v", [], st)
      return
    for r in self.ev(nodes[0], st, fr):
      if r[0] == "x": yield r; continue
      for q in self.evs(nodes[1:], r[2], fr):
        if q[0] == "x": yield q
        else: yield ("v", [r[1]] + q[1], q[2])

  def ev_Constant(self, n, st, fr): yield ("v", const(n.value), st)

  def ev_Name(self, n, st, fr): yield ("v", self.name(n.id, st, fr), st)

  def name(self, nm, st, fr):
    for f in (fr.frid,) + tuple(fr.parent_frids):
      d = st.env.get(f)
      if d is not None and nm in d: return d[nm]
    r = self.p.resolve_in(fr.module.name, nm)
    if r is not None: return self.binding(r)
    if hasattr(builtins, nm): return mk("ext", "builtins." + nm)
    return mk("unbound", nm)

  def binding(self, r):
    if r[0] == "class": return mk("class", r[1].qualname)
    if r[0] == "func": return mk("func", r[1].qualname) if not self._regf(r[1]) else None
    if r[0] == "module": return mk("module", r[1].name)
    if r[0] == "ext": return mk("ext", r[1])
    if r[0] == "var":
      vs = r[1].assigns.get(r[2], [])
      if len(vs) == 1:
        v = vs[0]
        if isinstance(v, ast.Constant): return const(v.value)
        rr = self.p.resolve_expr(v, r[1]) if isinstance(v, (ast.Name, ast.Attribute)) else None
        if rr is not None and rr[0] in ("class", "func"): return self.binding(rr)
        try:
          lit = ast.literal_eval(v)
          if isinstance(lit, (str, bytes, int, float)): return const(lit)
        except (ValueError, SyntaxError): pass
      t = mk("global", f"{r[1].name}.{r[2]}")
      if t not in self.types:
        ty = self.p.ann_type(r[1].assign_ann.get(r[2]), r[1])
        if ty is not None: self.types[t] = ty
      return t
    return mk("opaque", repr(r))

  def _regf(self, f):
    if not hasattr(self, "funcs"): self.funcs = {}
    self.funcs[f.qualname] = f
    return False

  def ev_Attribute(self, n, st, fr):
    for r in self.ev(n.value, st, fr):
      if r[0] == "x": yield r; continue
      yield from self.getattr_(r[1], n.attr, r[2], fr, n)

  def getattr_(self, b, nm, st, fr, node):
    if b.op == "ext":
      yield ("v", mk("ext", b.a[0] + "." + nm), st)
      return
    if b.op == "module":
      r = self.p.resolve_in(b.a[0], nm)
      yield ("v", self.binding(r) if r is not None else mk("ext", b.a[0] + "." + nm), st)
      return
    if (b, nm) in st.store:
      yield ("v", st.store[(b, nm)], st)
      return
    if b.op == "new":
      h = st.heap.get(b.a[1], {})
      if nm in h:
        yield ("v", h[nm], st)
        return
    if b.op == "inst":
      for k, v in b.a[1]:
        if k == nm:
          yield ("v", v, st)
          return
    if b.op == "class":
      c = self.p._class_by_qual.get(b.a[0])
      if c is not None:
        yield from self.class_attr(c, nm, b, st, fr)
        return
    if b.op == "enum" and nm == "value":
      c = self.p._class_by_qual.get(b.a[0])
      v = c.attrs.get(b.a[1]) if c else None
      yield ("v", const(v.value) if isinstance(v, ast.Constant) else attr(b, nm), st)
      return
    if b.op == "super":
      c, start = b.a[1], b.a[0]
      mro = self.p.mro(self.p._class_by_qual[c])
      idx = next((i for i, k in enumerate(mro) if isinstance(k, Class) and k.qualname == start), -1)
      for k in mro[idx + 1:]:
        if isinstance(k, Class) and nm in k.methods:
          f = k.methods[nm]; self._regf(f)
          yield ("v", mk("bound", b.a[2], f.qualname), st)
          return
      yield ("v", attr(b, nm), st)
      return
    ty = self.type_of(b, st)
    if isinstance(ty, Class):
      f = self.p.method(ty, nm, False)
      if f is not None:
        self._regf(f)
        if f.is_property:
          if self.can_inline(f, fr) and not f.is_abstract:
            for r in self.inline(f, b, [], [], st, fr, node):
              if r[0] == "v" and b.op == "new" and f.has_deco("cached_property"):
                s = r[2].copy(); s.heap[b.a[1]] = {**s.heap.get(b.a[1], {}), nm: r[1]}
                r = (r[0], r[1], s)
              yield r
            return
        else:
          if f.is_staticmethod: yield ("v", mk("func", f.qualname), st)
          elif f.is_classmethod: yield ("v", mk("bound", mk("class", ty.qualname), f.qualname), st)
          else: yield ("v", mk("bound", b, f.qualname), st)
          return
      else:
        for k in self.p.mro(ty):
          if isinstance(k, Class) and nm in k.attrs and not self._instance_assigned(ty, nm):
            v = k.attrs[nm]
            if isinstance(v, ast.Constant):
              yield ("v", const(v.value), st)
              return
            break
      at = self.p.attr_type(ty, nm)
      t = attr(b, nm)
      if at is not None and t not in self.types: self.types[t] = at
      yield ("v", t, st)
      return
    yield ("v", attr(b, nm), st)

  def _instance_assigned(self, c, nm):
    for k in self.p.mro(c):
      if not isinstance(k, Class): continue
      if nm in k.annotations: return True
      for f in k.methods.values():
        for x in ast.walk(f.node):
          if isinstance(x, ast.Attribute) and x.attr == nm and isinstance(x.ctx, ast.Store): return True
    return False

  def enum_members(self, c):
    """[(value, member)] of an enum whose values are all written out"""
    out = [(const(v.value), mk("enum", c.qualname, nm)) for nm, v in c.attrs.items() if isinstance(v, ast.Constant)]
    return out if len(out) == len([nm for nm in c.attrs if not nm.startswith("_")]) else None

  def class_attr(self, c, nm, b, st, fr):
    if nm in ("_value2member_map_", "__members__") and any(isinstance(x, str) and x.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for x in self.p.mro(c)):
      ms = self.enum_members(c)
      if ms is not None:
        o, s = self.new_obj("dict", [("kv", v if nm[1] == "v" else const(m.a[1]), m) for v, m in ms], st)
        yield ("v", o, s)
        return
    for k in self.p.mro(c):
      if not isinstance(k, Class): continue
      if nm in k.methods:
        f = k.methods[nm]; self._regf(f)
        if f.is_classmethod: yield ("v", mk("bound", b, f.qualname), st)
        else: yield ("v", mk("func", f.qualname), st)
        return
      if nm in k.inner:
        yield ("v", mk("class", k.inner[nm].qualname), st)
        return
      if nm in k.attrs:
        if any((isinstance(x, str) and x.split(".")[-1] in ("Enum", "IntEnum", "Flag", "IntFlag", "StrEnum")) for x in self.p.mro(k)):
          yield ("v", mk("enum", k.qualname, nm), st)
          return
        v = k.attrs[nm]
        if isinstance(v, ast.Constant):
          yield ("v", const(v.value), st)
          return
        try:
          lit = ast.literal_eval(v)
          if isinstance(lit, (str, bytes, int, float)):
            yield ("v", const(lit), st)
            return
        except (ValueError, SyntaxError): pass
        if self.cfg.exact_comps and isinstance(v, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.BinOp)) and not any(isinstance(x, (ast.Call, ast.Lambda)) for x in ast.walk(v)):
          fr2 = Frame(None, "<class>", k.module); fr2.stack = fr.stack
          rs = [r for r in self.ev(v, st, fr2)]
          if len(rs) == 1 and rs[0][0] == "v" and self.exact_items(rs[0][1], rs[0][2]) is not None:
            yield rs[0]
            return
        break
    yield ("v", attr(b, nm), st)

  def ev_Subscript(self, n, st, fr):
    for r in self.ev(n.value, st, fr):
      if r[0] == "x": yield r; continue
      for q in self.ev(n.slice, r[2], fr):
        if q[0] == "x": yield q; continue
        yield from self.getitem(r[1], q[1], q[2], fr, n)

  def dict_lookup(self, ent, key, st):
    """-> ('hit', term) | ('miss',) | None when it cannot be told"""
    for x in reversed(ent):
      if x[0] == "kv":
        if x[1] is key: return ("hit", x[2])
        a, b = sorted((x[1], key), key=show)
        same = st.known.get(mk("eq", a, b))
        if same: return ("hit", x[2])
        if same is False: continue
        if not (x[1].op in ("const", "class", "enum") and key.op in ("const", "class", "enum")): return None
        continue
      v = x[1]
      if v.op == "obj":
        h = st.heap.get(v.a[0])
        r = self.dict_lookup(h[1], key, st) if h and h[0] == "dict" else None
        if r is None: return None
        if r[0] == "hit": return r
        continue
      if v.op == "attr" and v.a[1] == "__dict__" and is_const(key) and isinstance(key.a[0], str):
        ty = self.type_of(v.a[0], st)
        if isinstance(ty, Class):
          if key.a[0] in [f[0] for f in self.p.fields(ty)]: return ("hit", self.dunder_item(v.a[0], key.a[0], st))
          continue
      return None
    return ("miss",)

  def dict_base(self, ent, key, st):
    """the mapping a key of a written out mapping is taken from, when it is none of its own"""
    for i, x in reversed(list(enumerate(ent))):
      if x[0] == "kv":
        if x[1] is key or not (x[1].op in ("const", "class", "enum") and key.op in ("const", "class", "enum")): return None
        continue
      if x[0] != "**": return None
      v = x[1]
      if v.op == "obj":
        h = st.heap.get(v.a[0])
        if not h or h[0] != "dict": return None
        if self.dict_lookup(h[1], key, st) == ("miss",): continue
        return self.dict_base(h[1], key, st) if i == 0 else None
      return v if i == 0 else None
    return None

  def dunder_item(self, x, nm, st):
    if (x, nm) in st.store: return st.store[(x, nm)]
    if x.op == "inst":
      for k, v in x.a[1]:
        if k == nm: return v
    t = attr(x, nm)
    ty = self.type_of(x, st)
    if isinstance(ty, Class):
      at = self.p.attr_type(ty, nm)
      if at is not None and t not in self.types: self.types[t] = at
    return t

  def mapping_item(self, v, nm, st):
    """value a `**v` spread supplies for the keyword `nm`"""
    if v.op == "obj":
      h = st.heap.get(v.a[0])
      r = self.dict_lookup(h[1], const(nm), st) if h and h[0] == "dict" else None
      if r and r[0] == "hit": return r[1]
    if v.op == "attr" and v.a[1] == "__dict__": return self.dunder_item(v.a[0], nm, st)
    return mk("item", v, const(nm))

  def getitem(self, b, i, st, fr, node):
    if b.op in ("class", "ext", "func") and b.op != "global":
      yield ("v", b, st)   # generic subscription: BroadcastReceiver[...]
      return
    if b.op == "tuple" and is_const(i) and isinstance(i.a[0], int) and -len(b.a) <= i.a[0] < len(b.a):
      yield ("v", b.a[i.a[0]], st)
      return
    if b.op == "obj":
      h = st.heap.get(b.a[0])
      if h:
        if h[0] == "dict":
          lk = self.dict_lookup(h[1], i, st)
          if lk is not None:
            yield ("v", lk[1], st) if lk[0] == "hit" else ("x", exc("builtins.KeyError"), st)
            return
          base = self.dict_base(h[1], i, st)
          if base is not None:
            yield from self.getitem(base, i, st, fr, node)
            return
        elif h[0] in ("list", "tuple") and is_const(i) and isinstance(i.a[0], int) and all(e[0] == "e" for e in h[1]) and -len(h[1]) <= i.a[0] < len(h[1]):
          yield ("v", h[1][i.a[0]][1], st)
          return
    if ("item", b, i) in st.store:
      yield ("v", st.store[("item", b, i)], st)
      return
    if b.op == "attr" and b.a[1] == "__dict__" and is_const(i) and isinstance(i.a[0], str):
      yield ("v", self.dunder_item(b.a[0], i.a[0], st), st)
      return
    if b.op == "global" and i.op in ("const", "class"):
      from .ceval import table_lookup
      lk = table_lookup(self.p, b.a[0], i)
      if lk is not None:
        yield ("v", lk[1], st) if lk[0] == "hit" else ("x", exc("builtins.KeyError"), st)
        return
    if i.op == "slice" and all(is_const(x) for x in i.a) and b.op in ("obj", "tuple"):
      ex = self.exact_items(b, st)
      try: part = None if ex is None or b.op == "obj" and st.heap[b.a[0]][0] != "list" else ex[slice(*[x.a[0] for x in i.a])]
      except (TypeError, ValueError): part = None
      if part is not None:
        if b.op == "tuple": yield ("v", mk("tuple", *part), st); return
        s, k = st.fresh()
        s.heap[k] = ("list", tuple(("e", x) for x in part))
        yield ("v", mk("obj", k), s)
        return
    if b.op == "const" and isinstance(b.a[0], (bytes, str, tuple)):
      try:
        if i.op == "const": yield ("v", const(b.a[0][i.a[0]]), st); return
        if i.op == "slice" and all(x.op == "const" for x in i.a): yield ("v", const(b.a[0][slice(*[x.a[0] for x in i.a])]), st); return
      except (TypeError, ValueError): pass
      except IndexError: yield ("x", exc("builtins.IndexError"), st); return
    if self.cfg.want_getitem:
      e = self._mkev("getitem", st, fr, node, recv=b, args=(i,))
      st = st.event(e)
      for x in self.cfg.raises(e, st) or (): yield ("x", exc(x), st)
    t = mk("item", b, i)
    ty = self.type_of(b, st)
    if isinstance(ty, tuple):
      if ty[0] == "dict" and ty[2] is not None: self.types.setdefault(t, ty[2])
      elif ty[0] == "coll" and ty[1] is not None: self.types.setdefault(t, ty[1])
      elif ty[0] == "tuple" and is_const(i) and isinstance(i.a[0], int) and 0 <= i.a[0] < len(ty[1]) and ty[1][i.a[0]] is not None: self.types.setdefault(t, ty[1][i.a[0]])
    yield ("v", t, st)

  def ev_Slice(self, n, st, fr):
    for r in self.evs([x or ast.Constant(None) for x in (n.lower, n.upper, n.step)], st, fr):
      yield r if r[0] == "x" else ("v", mk("slice", *r[1]), r[2])

  def ev_Tuple(self, n, st, fr):
    for r in self.evs(n.elts, st, fr):
      if r[0] == "x": yield r; continue
      out = []
      for x in r[1]:
        if x.op == "star":
          ex = self.exact_items(x.a[0], r[2])
          if ex is not None: out.extend(ex); continue
        out.append(x)
      yield ("v", mk("tuple", *out), r[2])

  def new_obj(self, kind, entries, st):
    st, n = st.fresh()
    st.heap[n] = (kind, tuple(entries))
    return mk("obj", n), st

  def _seq(self, n, kind, st, fr):
    for r in self.evs(n.elts, st, fr):
      if r[0] == "x": yield r; continue
      ent = []
      for x in r[1]:
        if x.op == "star":
          ex = self.exact_items(x.a[0], r[2])
          if ex is not None: ent.extend(("e", y) for y in ex)
          else: ent.append(("*", x.a[0]))
        else: ent.append(("e", x))
      o, s = self.new_obj(kind, ent, r[2])
      yield ("v", o, s)
  def ev_List(self, n, st, fr): yield from self._seq(n, "list", st, fr)
  def ev_Set(self, n, st, fr): yield from self._seq(n, "set", st, fr)

  def ev_Dict(self, n, st, fr):
    nodes = []
    for k, v in zip(n.keys, n.values): nodes += [k if k is not None else ast.Constant("**"), v]
    for r in self.evs(nodes, st, fr):
      if r[0] == "x": yield r; continue
      ent = []
      for i, k in enumerate(n.keys):
        kv, vv = r[1][2 * i], r[1][2 * i + 1]
        ent.append(("kv", kv, vv) if k is not None else ("**", vv))
      o, s = self.new_obj("dict", ent, r[2])
      yield ("v", o, s)

  def ev_Starred(self, n, st, fr):
    for r in self.ev(n.value, st, fr): yield r if r[0] == "x" else ("v", mk("star", r[1]), r[2])

  def ev_JoinedStr(self, n, st, fr):
    for r in self.evs([v.value if isinstance(v, ast.FormattedValue) else v for v in n.values], st, fr):
      if r[0] == "x": yield r; continue
      if all(x.op == "const" for x in r[1]): yield ("v", const("".join(str(x.a[0]) for x in r[1])), r[2])
      else: yield ("v", mk("fstr", *r[1]), r[2])

  def ev_UnaryOp(self, n, st, fr):
    if isinstance(n.op, ast.Not):
      for r in self.ev(n.operand, st, fr):
        if r[0] == "x": yield r; continue
        v = r[1]
        if v.op == "const": yield ("v", const(not v.a[0]), r[2])
        elif v.op in ("eq", "lt", "in", "is", "isinst", "truthy"): yield ("v", mk("not", v), r[2])
        elif v.op == "not": yield ("v", v.a[0] if v.a[0].op in ("eq", "lt", "in", "is", "isinst", "truthy") else mk("truthy", v.a[0]), r[2])
        else:
          for ok, s in self.truth(v, r[2]): yield ("v", const(not ok), s)
      return
    for r in self.ev(n.operand, st, fr):
      if r[0] == "x": yield r; continue
      if r[1].op == "const" and isinstance(r[1].a[0], (int, float)):
        v = r[1].a[0]
        yield ("v", const(-v if isinstance(n.op, ast.USub) else ~v if isinstance(n.op, ast.Invert) else v), r[2])
      else: yield ("v", mk("un", type(n.op).__name__, r[1]), r[2])

  _BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&",
          ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

  def ev_BinOp(self, n, st, fr):
    for r in self.ev(n.left, st, fr):
      if r[0] == "x": yield r; continue
      for q in self.ev(n.right, r[2], fr):
        if q[0] == "x": yield q
        else:
          if self.cfg.exact_comps and isinstance(n.op, ast.BitOr) and any(x.op == "obj" and q[2].heap.get(x.a[0], ("",))[0] == "dict" for x in (r[1], q[1])):
            o, s = self.new_obj("dict", [("**", r[1]), ("**", q[1])], q[2])
            yield ("v", o, s)
            continue
          yield ("v", self.binop(n.op, r[1], q[1], q[2]), q[2])

  def binop(self, op, l, r, st):
    o = self._BIN[type(op)]
    if l.op == "const" and r.op == "const":
      try:
        a, b = l.a[0], r.a[0]
        v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b if not (isinstance(a, int) and isinstance(b, int) and (a > 1 << 40 or b > 1 << 40)) else None,
             "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b,
             "|": lambda: a | b, "&": lambda: a & b, "<<": lambda: a << b if b < 200 else None, ">>": lambda: a >> b}.get(o, lambda: None)()
        if v is not None and not isinstance(v, complex) and len(repr(v)) < 4000: return const(v)
      except Exception: pass
    if l.op == "obj": l = self.norm(l, st)
    if r.op == "obj": r = self.norm(r, st)
    return mk("bin", o, l, r)

  def ev_Compare(self, n, st, fr):
    if len(n.ops) > 1:
      for b in self.branch(n, st, fr):
        yield b if b[0] == "x" else ("v", const(b[1]), b[2])
      return
    ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
    for r in self.evs([n.left, n.comparators[0]], st, fr):
      if r[0] == "x": yield r; continue
      st = r[2]
      if self.cfg.want_tests:
        st = st.event(self._mkev("test", st, fr, n, name=ops[type(n.ops[0])], recv=r[1][1], args=(r[1][0],)))
        for x in self.cfg.raises(st.events[-1], st) or (): yield ("x", exc(x), st)
      yield ("v", self.compare(ops[type(n.ops[0])], r[1][0], r[1][1], st), st)

  def ev_BoolOp(self, n, st, fr):
    isand = isinstance(n.op, ast.And)
    def go(i, s):
      for r in self.ev(n.values[i], s, fr):
        if r[0] == "x": yield r; continue
        if i == len(n.values) - 1: yield r; continue
        for ok, s2 in self.truth(r[1], r[2]):
          if ok is isand: yield from go(i + 1, s2)
          else: yield ("v", const(ok) if r[1].op in ("eq", "lt", "in", "is", "isinst", "truthy", "not", "oneof") else r[1], s2)
    yield from go(0, st)

  def ev_IfExp(self, n, st, fr):
    for b in self.branch(n.test, st, fr):
      if b[0] == "x": yield b
      else: yield from self.ev(n.body if b[1] else n.orelse, b[2], fr)

  def ev_NamedExpr(self, n, st, fr):
    for r in self.ev(n.value, st, fr):
      if r[0] == "x": yield r; continue
      yield ("v", r[1], r[2].setvar(fr.frid, n.target.id, r[1]))

  def ev_Lambda(self, n, st, fr): yield ("v", self.closure(n, st, fr), st)

  def ev_Yield(self, n, st, fr):
    vals = self.ev(n.value, st, fr) if n.value is not None else [("v", NONE, st)]
    for r in vals:
      if r[0] == "x": yield r; continue
      if fr.yield_hook is not None: yield from fr.yield_hook(r[1], r[2])
      else:
        s = r[2].event(self._mkev("yield", r[2], fr, n, args=(r[1],)))
        if self.cfg.cancel: yield ("x", exc("asyncio.CancelledError"), s)
        for x in self.cfg.raises(s.events[-1], s) or (): yield ("x", exc(x), s)
        yield ("v", mk("sent", f"{n.lineno}"), s)

  def ev_YieldFrom(self, n, st, fr):
    for r in self.ev(n.value, st, fr): yield r

  def ev_Await(self, n, st, fr):
    self._awaiting.add(id(n.value))
    for r in self.ev(n.value, st, fr):
      if r[0] == "x": yield r; continue
      yield from self.await_value(r[1], r[2], fr, n)

  def await_value(self, v, st, fr, n):
    if v.op == "coro":
      h = st.heap.get(v.a[1])
      if h is not None:
        func, selfterm, args, kw, pf, cls = h[1]
        yield from self.inline_env(func, selfterm, args, kw, st, fr, n, pf, cls)
        return
    if v.op == "const" and v.a[0] is not None or v.op in ("tuple", "answer", "gathered"):
      yield ("v", v, st); return
    if v.op == "got": yield ("v", v.a[0], st); return     # what a modelled queue hands out
    if v.op == "task" and v in st.heap:     # a task that ran to its end
      k, r = st.heap[v][1]
      s = st.event(self._mkev("await", st, fr, n, recv=v, name="task", awaited=True))
      yield k, r, s
      return
    if v in self.cfg.await_map:
      e = self._mkev("await", st, fr, n, recv=v, name=self.callee_name(v), awaited=True)
      s = st.event(e)
      for x in self.cfg.raises(e, s) or (): yield ("x", exc(x), s)
      if self.cfg.cancel: yield ("x", exc("asyncio.CancelledError"), s)
      yield ("v", self.cfg.await_map[v], s)
      return
    if isinstance(n.value, ast.Call) and v.op == "call":   # call event already marks the await
      t = mk("awaited", v)
      if v in self.types: self.types.setdefault(t, self.types[v])
      yield ("v", t, st)
      return
    e = self._mkev("await", st, fr, n, recv=v, name=self.callee_name(v), awaited=True)
    s = st.event(e)
    for x in self.cfg.raises(e, s) or (): yield ("x", exc(x), s)
    if self.cfg.cancel: yield ("x", exc("asyncio.CancelledError"), s)
    yield ("v", mk("awaited", v), s)

  # comprehensions -------------------------------------------------------
  def _exact_comp(self, n, kind, elt, st, fr):
    """results of a comprehension over members that are all known, or None"""
    if not self.cfg.exact_comps or len(n.generators) != 1 or n.generators[0].is_async: return None
    g, out = n.generators[0], []
    for r in self.ev(g.iter, st, fr):
      if r[0] == "x": out.append(r); continue
      ex = self.exact_items(r[1], r[2])
      if ex is None: return None
      saved = st.env.get(fr.frid, {})
      pend = [((), r[2])]
      for item in ex:
        nx = []
        for done, s in pend:
          for a in self.assign(g.target, item, s, fr):
            if a[0] == "x": out.append(a); continue
            keep = [(True, a[2])]
            for c in g.ifs:
              k2 = []
              for ok, s2 in keep:
                if not ok: k2.append((ok, s2)); continue
                for b in self.branch(c, s2, fr):
                  if b[0] == "x": out.append(b)
                  else: k2.append((b[1], b[2]))
              keep = k2
            for ok, s2 in keep:
              if not ok: nx.append((done, s2)); continue
              for v in self.evs(elt, s2, fr):
                if v[0] == "x": out.append(v)
                else: nx.append((done + (tuple(v[1]),), v[2]))
        pend = nx
        if len(pend) > 16: return None
      for done, s in pend:
        d = dict(s.env.get(fr.frid, {}))
        for x in ast.walk(g.target):
          if isinstance(x, ast.Name):
            if x.id in saved: d[x.id] = saved[x.id]
            else: d.pop(x.id, None)
        s = s.copy(); s.env[fr.frid] = d
        if kind == "dict":
          ent = []
          for k, v in done: ent = [e for e in ent if e[1] is not k] + [("kv", k, v)]
        else: ent = [("e", v[0]) for v in done]
        o, s = self.new_obj("list" if kind == "gen" else kind, ent, s)
        out.append(("v", o, s))
    return out

  def _comp(self, n, kind, elt, st, fr):
    exact = self._exact_comp(n, kind, elt, st, fr)
    if exact is not None:
      yield from exact
      return
    site = f"{n.lineno}:{n.col_offset}@{fr.frid}"
    frid = fr.frid
    saved = st.env.get(frid, {})
    alts, states, excs = [], [], []
    base_ev, base_f = len(st.events), len(st.facts)
    def go(i, s):
      if i == len(n.generators):
        for r in self.evs(elt, s, fr):
          if r[0] == "x": excs.append(r); continue
          v = r[1][0] if len(elt) == 1 else mk("tuple", *r[1])
          alts.append((True, r[2].facts[base_f:], v)); states.append(r[2])
        return
      g = n.generators[i]
      for r in self.ev(g.iter, s, fr):
        if r[0] == "x": excs.append(r); continue
        s0 = r[2].event(self._mkev("loop", r[2], fr, g.iter, recv=r[1], res=const(bool(g.is_async)), name="comp"))
        ex = self.exact_items(r[1], s0)
        for k, item, s1 in self.iter_alts(r[1], f"{site}.{i}", s0):
          if k == "none":
            alts.append((False, s1.facts[base_f:], NONE)); states.append(s1)
            continue
          s1 = s1.copy(); outer = s1.loops; s1.loops = outer + (("comp", n, r[1]),)
          for a in self.assign(g.target, item, s1, fr):
            if a[0] == "x": excs.append(a); continue
            pend = [a[2]]
            for c in g.ifs:
              nx = []
              for s2 in pend:
                for b in self.branch(c, s2, fr):
                  if b[0] == "x": excs.append(b)
                  elif b[1]: nx.append(b[2])
                  else: alts.append((False, b[2].facts[base_f:], NONE)); states.append(b[2])
              pend = nx
            for s2 in pend: go(i + 1, s2)
    go(0, st)
    def restore(s):
      s = s.copy()
      d = dict(s.env.get(frid, {}))
      for g in n.generators:
        for x in ast.walk(g.target):
          if isinstance(x, ast.Name):
            if x.id in saved: d[x.id] = saved[x.id]
            else: d.pop(x.id, None)
      s.env[frid] = d
      s.loops = st.loops
      return s
    hi = max([x.counter for x in states] + [st.counter])
    made = {}      # what alternatives put under one name is told apart by its contents
    for s in states:
      for o, h in s.heap.items():
        if o not in st.heap: made.setdefault(o, []).append(h)
    mixed = {o for o, hs in made.items() if any(h is not hs[0] and h != hs[0] for h in hs[1:])}
    if mixed: alts = [(ok, fs, self.norm(v, s) if ok and contains(v, lambda y: y.op == "obj" and y.a[0] in mixed) else v) for (ok, fs, v), s in zip(alts, states)]
    term = mk("comp", kind, site, tuple(alts))
    for r in excs: yield ("x", r[1], restore(r[2]))
    if all(not any(e.kind in ("call", "setattr", "setitem", "await", "delitem") and not _quiet(e) for e in s.events[base_ev:]) for s in states):
      s = st.copy(); s.counter = max([x.counter for x in states] + [st.counter])
      if states:
        ev = max((x.events[base_ev:] for x in states), key=len)
        s.events = s.events + tuple(ev)
        for x in states:
          for o, h in x.heap.items(): s.heap.setdefault(o, h)
      yield ("v", term, s)
      return
    for (passed, facts, v), s in zip(alts, states):
      s = restore(s)
      s.counter = max(s.counter, hi)
      for o, hs in made.items():
        if o not in mixed: s.heap.setdefault(o, hs[0])
      yield ("v", term, s)

  def ev_ListComp(self, n, st, fr): yield from self._comp(n, "list", [n.elt], st, fr)
  def ev_SetComp(self, n, st, fr): yield from self._comp(n, "set", [n.elt], st, fr)
  def ev_GeneratorExp(self, n, st, fr): yield from self._comp(n, "gen", [n.elt], st, fr)
  def ev_DictComp(self, n, st, fr): yield from self._comp(n, "dict", [n.key, n.value], st, fr)

  # calls -----------------------------------------------------------------
  def _mkev(self, kind, st, fr, node, **k):
    return Ev(kind, node=node, func=fr.func, facts=st.facts, loops=st.loops, stack=fr.stack, frid=fr.frid, **k)

  def callee_name(self, f):
    if f.op in ("func", "rawfunc", "class", "ext"): return f.a[0]
    if f.op == "bound": return f.a[1]
    if f.op == "closure": return f.a[0]
    if f.op == "attr": return f.a[1]
    if f.op == "call": return self.callee_name(f.a[0])
    if f.op in ("new", "inst"): return f.a[0]
    if f.op == "partial": return self.callee_name(f.a[0])
    if f.op == "coro": return self.callee_name(f.a[0])
    if f.op == "genobj": return f.a[1]
    if f.op == "awaited": return self.callee_name(f.a[0])
    return None

  def ev_Call(self, n, st, fr):
    awaited = id(n) in self._awaiting
    # super()
    if isinstance(n.func, ast.Name) and n.func.id == "super" and fr.selfterm is not None and fr.cls is not None:
      ty = self.type_of(fr.selfterm, st)
      c = ty.qualname if isinstance(ty, Class) else fr.cls.qualname
      yield ("v", mk("super", fr.cls.qualname, c, fr.selfterm), st)
      return
    for r in self.ev(n.func, st, fr):
      if r[0] == "x": yield r; continue
      for q in self.evs(list(n.args), r[2], fr):
        if q[0] == "x": yield q; continue
        for w in self.evs([k.value for k in n.keywords], q[2], fr):
          if w[0] == "x": yield w; continue
          args = []
          for x in q[1]:
            if x.op == "star":
              ex = self.exact_items(x.a[0], w[2])
              if ex is not None: args.extend(ex); continue
            args.append(x)
          kw = []
          for k, v in zip(n.keywords, w[1]):
            if k.arg is None and v.op == "obj":
              h = w[2].heap.get(v.a[0])
              if h and h[0] == "dict" and all(e[0] == "**" or e[0] == "kv" and is_const(e[1]) for e in h[1]):
                kw.extend((e[1].a[0], e[2]) for e in h[1] if e[0] == "kv")
                kw.extend((None, e[1]) for e in h[1] if e[0] == "**")
                continue
            kw.append((k.arg, v))
          yield from self.call(r[1], args, kw, n, w[2], fr, awaited)

  def call(self, f, args, kw, n, st, fr, awaited=False):
    if f.op == "partial":
      yield from self.call(f.a[0], list(f.a[1]) + list(args), list(f.a[2]) + list(kw), n, st, fr, awaited)
      return
    if self.cfg.decorate and f.op in ("func", "bound"):
      ds = self.package_decorators(self.target(f))
      if ds:
        yield from self.call_decorated(ds, f, args, kw, n, st, fr, awaited)
        return
    recv = f.a[0] if f.op in ("attr", "bound") else None
    name = self.callee_name(f)
    target = self.target(f)
    if name in self.cfg.models:
      r = self.cfg.models[name](self, f, args, kw, n, st, fr)
      if r is not None:
        yield from r
        return
    if f.op == "ext" and f.a[0] in ("builtins.min", "builtins.max", "builtins.sorted") and args and any(k == "key" for k, _ in kw):
      kw = [(k, self.key_of(v, args[0], n, st, fr) if k == "key" else v) for k, v in kw]
    # pure builtins evaluated symbolically
    r = self.special(f, args, kw, n, st, fr)
    if r is not None:
      yield from r
      return
    if f.op == "attr" and recv is not None:
      r = self.container_method(f.a[1], recv, args, kw, n, st, fr)
      if r is not None:
        yield from r
        return
    if f.op == "class":
      yield from self.construct(f, args, kw, n, st, fr)
      return
    if f.op in ("new", "self", "param", "attr", "inst", "elem", "item") and target is None:
      ty = self.type_of(f, st)
      if isinstance(ty, Class):
        m = self.p.method(ty, "__call__", False)
        if m is not None:
          self._regf(m); target, recv = m, f
          ds = self.package_decorators(m) if self.cfg.decorate else ()
          if ds:
            yield from self.call_decorated(ds, mk("bound", f, m.qualname), args, kw, n, st, fr, awaited)
            return
    e = self._mkev("call", st, fr, n, name=name, fterm=f, recv=recv, args=tuple(args), kw=tuple(kw), target=target, awaited=awaited, inlined=False)
    if target is not None and self.can_inline(target, fr):
      e.inlined = True
      s = st.event(e)
      pf, cls, selfterm = (), target.cls, recv
      if f.op == "closure":
        _, pf, selfterm, cls = self.closures[f]
      if f.op in ("func", "rawfunc") and target.cls is not None and not target.is_staticmethod and not target.is_classmethod and args:
        selfterm, args = args[0], args[1:]
      if target.is_gen:
        d, s = self.bind(target, selfterm, args, kw, s, fr)
        s, k = s.fresh()
        g = mk("genobj", k, target.qualname)
        s.heap[k] = ("gen", (target, d, selfterm, pf, cls))
        yield ("v", g, s)
        return
      if target.is_async:
        s, k = s.fresh()
        c = mk("coro", f, k)
        s.heap[k] = ("coro", (target, selfterm, tuple(args), tuple(kw), pf, cls))
        if target.node.returns is not None: pass
        yield ("v", c, s)
        return
      yield from self.inline_env(target, selfterm, args, kw, s, fr, n, pf, cls)
      return
    pure = self.is_pure(f)
    nth = sum(1 for x in st.events if x.kind == "call" and x.node is n)
    uid = None if pure else f"{n.lineno}:{n.col_offset}#{nth}@{len(fr.stack)}"
    res = mk("call", f, tuple(args), tuple(kw), uid)
    e.res = res; e.uid = uid
    if target is not None and target.node and getattr(target.node, "returns", None) is not None:
      ty = self.p.ann_type(target.node.returns, target.module)
      if ty is not None: self.types.setdefault(res, ty); self.types.setdefault(mk("awaited", res), ty)
    s = st.event(e)
    if recv is not None and not pure and f.op == "attr":
      self._forget(s, recv)
    if target is None or not target.is_async or awaited:
      for x in self.cfg.raises(e, s) or (): yield ("x", exc(x), s)
      if awaited and self.cfg.cancel: yield ("x", exc("asyncio.CancelledError"), s)
    yield ("v", res, s)
    if self.cfg.inline_tasks and name in ("asyncio.create_task", "asyncio.ensure_future", "asyncio.gather"): pass

  def package_decorators(self, func):
    if func is None or func.parent is not None: return ()
    out = []
    for d in getattr(func.node, "decorator_list", []):
      r = self.p.resolve_expr(d.func if isinstance(d, ast.Call) else d, func.module)
      if r is not None and r[0] == "func": out.append(d)
    return out

  def call_decorated(self, ds, f, args, kw, n, st, fr, awaited):
    """calls what the decorators of the package make of a function"""
    func = self.target(f)
    fr2 = Frame(None, "<decorators>", func.module)
    fr2.stack = fr.stack
    raw = mk("rawfunc", func.qualname)
    pend = [(raw, st)]
    for d in reversed(ds):
      nx = []
      for v, s in pend:
        for r in self.ev(d, s, fr2):
          if r[0] == "x": yield r; continue
          for q in self.call(r[1], [v], [], d, r[2], fr2):
            if q[0] == "x": yield q
            else: nx.append((q[1], q[2]))
      pend = nx
    for v, s in pend: yield from self.call(v, ([f.a[0]] if f.op == "bound" else []) + list(args), kw, n, s, fr, awaited)

  def key_of(self, key, coll, n, st, fr):
    """an ordering key as a function of the member it is applied to: keyfn(member, value), when it is a plain expression"""
    if key.op not in ("closure", "func", "bound"): return key
    m = mk("keyarg", coll)
    ty = self.elem_type(coll, st)
    if ty is not None: self.types.setdefault(m, ty)
    rs = list(self.call(key, [m], [], n, st, fr))
    if len(rs) == 1 and rs[0][0] == "v": return mk("keyfn", m, rs[0][1])
    return key

  def is_pure(self, f):
    if f.op == "ext": return f.a[0] in PURE_EXT
    if f.op == "attr": return f.a[1] in PURE_METHODS
    return False

  def target(self, f):
    if f.op in ("func", "rawfunc"): return getattr(self, "funcs", {}).get(f.a[0])
    if f.op == "bound": return getattr(self, "funcs", {}).get(f.a[1])
    if f.op == "closure": return self.closures[f][0]
    return None

  def can_inline(self, func, fr):
    if func is None or fr.stack.count(func.qualname) >= self.cfg.recursion or len(fr.stack) > self.cfg.max_depth: return False
    return self.cfg.inline(func, fr)

  def inline(self, func, selfterm, args, kw, st, fr, n):
    yield from self.inline_env(func, selfterm, args, kw, st, fr, n, (), func.cls) if not func.is_async else self.inline_env(func, selfterm, args, kw, st, fr, n, (), func.cls)

  def inline_env(self, func, selfterm, args, kw, st, fr, n, pf, cls):
    d, st = self.bind(func, selfterm, args, kw, st, fr)
    st, k = st.fresh()
    nf = Frame(func, f"{func.qualname}#{k}", func.module, pf, selfterm, fr.stack + (func.qualname,), cls=cls)
    st.env[nf.frid] = d
    self.inlined_funcs.add(func.qualname)
    res = []
    for oc, s in self.exec_body(func, st, nf):
      s = s.copy(); s.env.pop(nf.frid, None) if not self._captured(nf.frid) else None
      if oc[0] == "return": res.append(("v", oc[1], s))
      elif oc[0] == "next": res.append(("v", NONE, s))
      elif oc[0] == "loopback": res.append(("x", exc("__loopback__"), s))
      else: res.append(("x", oc[1], s))
    yield from res

  def _captured(self, frid): return any(c.a[2] == frid for c in self.closures)

  def bind(self, func, selfterm, args, kw, st, fr):
    a = func.node.args
    d = {}
    pos = [x.arg for x in a.posonlyargs + a.args]
    args = list(args)
    if func.cls is not None and not func.is_staticmethod and pos:
      d[pos[0]] = selfterm if selfterm is not None else mk("param", pos[0], func.qualname)
      pos = pos[1:]
    star = next((i for i, x in enumerate(args) if x.op == "star"), None)
    kwd = {k: v for k, v in kw if k is not None}
    spread = [v for k, v in kw if k is None]
    for i, nm in enumerate(pos):
      if star is not None and i >= star: d[nm] = mk("item", args[star].a[0], const(i - star)) if nm not in kwd else kwd.pop(nm)
      elif i < len(args): d[nm] = args[i]
      elif nm in kwd: d[nm] = kwd.pop(nm)
    if a.vararg:
      rest = args[len(pos):] if star is None else args[star:]
      d[a.vararg.arg] = rest[0].a[0] if len(rest) == 1 and rest[0].op == "star" else mk("tuple", *rest)
    for x in a.kwonlyargs:
      if x.arg in kwd: d[x.arg] = kwd.pop(x.arg)
    defs = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
    defs.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    for x in a.posonlyargs + a.args + a.kwonlyargs:
      if x.arg in d: continue
      if spread: d[x.arg] = self.mapping_item(spread[0], x.arg, st)
      elif x.arg in defs:
        dv = defs[x.arg]
        if isinstance(dv, ast.Constant): d[x.arg] = const(dv.value)
        else:
          dfr = Frame(func, "<defaults>", func.module)
          rs = [r for r in self.ev(dv, st, dfr) if r[0] == "v"]
          if rs: d[x.arg] = rs[0][1]; st = rs[0][2]
          else: d[x.arg] = mk("param", x.arg, func.qualname)
      else: d[x.arg] = mk("param", x.arg, func.qualname)
    if a.kwarg:
      ent = [("kv", const(k), v) for k, v in kwd.items()] + [("**", v) for v in spread]
      d[a.kwarg.arg], st = self.new_obj("dict", ent, st)
    for x in a.posonlyargs + a.args + a.kwonlyargs:
      v = d.get(x.arg)
      if v is not None and v.op in ("param", "call", "attr", "item", "elem", "awaited", "opaque") and v not in self.types:
        ty = self.p.ann_type(x.annotation, func.module)
        if ty is not None: self.types[v] = ty
    return d, st

  def construct(self, f, args, kw, n, st, fr):
    c = self.p._class_by_qual[f.a[0]]
    e = self._mkev("call", st, fr, n, name=c.qualname, fterm=f, recv=None, args=tuple(args), kw=tuple(kw), target=None, awaited=False, inlined=False)
    init = self.p.method(c, "__init__", False)
    if any(isinstance(k, str) and k.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for k in self.p.mro(c)):
      ms = self.enum_members(c)
      if len(args) == 1 and is_const(args[0]) and ms is not None:
        hit = next((m for v, m in ms if v is args[0]), None)
        yield ("v", hit, st) if hit is not None else ("x", exc("builtins.ValueError"), st)
        return
      res = args[0] if len(args) == 1 and args[0].op == "enum" and args[0].a[0] == c.qualname else mk("call", f, tuple(args), tuple(kw), None)
      self.types[res] = c
      e.res = res
      s = st.event(e)
      for x in self.cfg.raises(e, s) or (): yield ("x", exc(x), s)
      yield ("v", res, s)
      return
    if init is None:
      fs = self.p.fields(c)
      vals = {}
      for i, a in enumerate(args):
        if i < len(fs) and a.op != "star": vals[fs[i][0]] = a
      for k, v in kw:
        if k is not None: vals[k] = v
        else:
          for fn in fs:
            if fn[0] not in vals: vals[fn[0]] = self.mapping_item(v, fn[0], st)
      for nm, ann, dv, owner in fs:
        if nm in vals: continue
        if isinstance(dv, ast.Constant): vals[nm] = const(dv.value)
        else: vals[nm] = mk("default", c.qualname, nm)
      order = {fn[0]: i for i, fn in enumerate(fs)}
      res = mk("inst", c.qualname, tuple(sorted(vals.items(), key=lambda kv: order.get(kv[0], 999))))
      self.types[res] = c
      e.res = res
      s = st.event(e)
      for x in self.cfg.raises(e, s) or (): yield ("x", exc(x), s)
      yield ("v", res, s)
      return
    s, k = st.fresh()
    res = mk("new", c.qualname, k)
    self.types[res] = c
    e.res = res; e.target = init
    s = s.event(e)
    s.heap[k] = {}
    if self.can_inline(init, fr):
      e.inlined = True
      self._regf(init)
      for r in self.inline_env(init, res, args, kw, s, fr, n, (), init.cls):
        if r[0] == "x": yield r
        else: yield ("v", res, r[2])
    else:
      d, s = self.bind(init, res, args, kw, s, fr)
      s.heap[k] = {"<init>" + a: v for a, v in d.items() if v is not res}
      for x in self.cfg.raises(e, s) or (): yield ("x", exc(x), s)
      yield ("v", res, s)

  # builtins ---------------------------------------------------------------
  def special(self, f, args, kw, n, st, fr):
    if f.op != "ext": return None
    nm = f.a[0]
    if nm == "builtins.callable" and len(args) == 1:
      x = args[0]
      if x.op in ("func", "rawfunc", "closure", "bound", "class", "partial"): return [("v", TRUE, st)]
      if x.op in ("const", "obj", "tuple", "coro"): return [("v", FALSE, st)]
      ty = self.type_of(x, st) if x.op in ("new", "inst") else None
      if isinstance(ty, Class) and self.p.method(ty, "__call__", False) is not None: return [("v", TRUE, st)]
    if nm in ("builtins.min", "builtins.max") and len(args) > 1 and not kw and all(is_const(x) and isinstance(x.a[0], (int, float)) for x in args): return [("v", const((min if nm[9:] == "min" else max)(x.a[0] for x in args)), st)]
    if nm == "builtins.int" and len(args) == 1 and is_const(args[0]) and type(args[0].a[0]) is int: return [("v", args[0], st)]
    if nm == "builtins.str" and len(args) == 1 and is_const(args[0]) and isinstance(args[0].a[0], str): return [("v", args[0], st)]
    if nm == "builtins.type" and len(args) == 1:
      x = args[0]
      ty = x.a[0] if x.op == "typed" else "tuple" if x.op == "tuple" else st.heap[x.a[0]][0] if x.op == "obj" and x.a[0] in st.heap and self.cfg.exact_comps else type(x.a[0]).__name__ if is_const(x) and self.cfg.exact_comps else None
      if ty is not None: return [("v", mk("ext", "builtins." + ty), st)]
    if nm == "builtins.isinstance" and len(args) == 2: return [("v", self.isinstance_(args[0], args[1], st), st)]
    if nm in ("builtins.set", "builtins.list", "builtins.frozenset", "builtins.tuple", "builtins.dict"):
      kind = nm[9:] if nm != "builtins.frozenset" else "set"
      if not args:
        o, s = self.new_obj(kind, [("kv", const(k), v) for k, v in kw] if kind == "dict" else [], st)
        return [("v", o, s)]
      x = args[0]
      if x.op == "star": return None
      if x.op == "genobj": return None
      if kind == "dict" and (x.op == "attr" and x.a[1] == "__dict__" or x.op == "comp" and x.a[0] == "dict" or is_dict_type(self.type_of(x, st)) or self.cfg.exact_comps and x.op in ("param", "call", "item", "handler", "scope") and self.type_of(x, st) is None):
        o, s = self.new_obj("dict", [("**", x)] + [("kv", const(k), v) for k, v in kw], st)
        return [("v", o, s)]
      if x.op == "comp": return [("v", mk("comp", kind if kind != "dict" else "dict", x.a[1], x.a[2]), st)]
      ex = self.exact_items(x, st)
      if ex is not None and kind != "dict":
        if kind == "tuple": return [("v", mk("tuple", *ex), st)]
        o, s = self.new_obj(kind, [("e", y) for y in ex], st)
        return [("v", o, s)]
      if x.op == "obj":
        h = st.heap.get(x.a[0])
        if h:
          o, s = self.new_obj(kind, h[1], st)
          return [("v", o, s)]
      t = mk("copy", kind, x)
      ty = self.type_of(x, st)
      if isinstance(ty, tuple) and ty[0] in ("coll", "dict"): self.types.setdefault(t, ty)
      return [("v", t, st)]
    if nm == "builtins.len" and len(args) == 1:
      ex = self.exact_items(args[0], st)
      if ex is not None: return [("v", const(len(ex)), st)]
      if args[0].op == "const" and isinstance(args[0].a[0], (str, bytes, tuple)): return [("v", const(len(args[0].a[0])), st)]
      x = args[0]
      while x.op == "copy" and x.a[0] not in ("set", "frozenset"): x = x.a[1]      # as many elements as the original, unlike a set of them
      return [("v", mk("call", f, (x,), (), None), st)]
    if nm == "builtins.bool" and len(args) == 1: return [("v", const(ok), s) for ok, s in self.truth(args[0], st)] if args[0].op in ("const",) else [("v", args[0] if args[0].op in ("eq", "lt", "in", "is", "isinst", "truthy", "not") else mk("truthy", args[0]), st)]
    if nm in ("builtins.any", "builtins.all") and len(args) == 1 and self.cfg.exact_comps and args[0].op == "obj":
      ex = self.exact_items(args[0], st)
      if ex is not None and all(is_const(x) for x in ex): return [("v", const((any if nm.endswith("any") else all)(x.a[0] for x in ex)), st)]
    if nm in ("builtins.any", "builtins.all") and len(args) == 1 and args[0].op == "comp":
      out = []
      anyp = nm.endswith("any")
      at = mk("anyof" if anyp else "allof", args[0])
      d = st.known.get(at)
      seen_false = False
      for passed, facts, elt in args[0].a[2]:
        if not passed: continue
        s = self.assume_all(facts, st)
        if s is None: continue
        for ok, s2 in self.truth(elt, s):
          if ok is anyp:
            if anyp: out.append(("v", TRUE, s2))
          elif not anyp: out.append(("v", FALSE, s2))
      s = st.copy(); s.facts = s.facts + ((at, not anyp),); s.known[at] = not anyp
      out.append(("v", const(not anyp), s))
      return out
    if nm == "builtins.next" and args and self.cfg.exact_comps and args[0].op == "obj":
      ex = self.exact_items(args[0], st)
      if ex is not None: return [("v", ex[0], st)] if ex else [("v", args[1], st)] if len(args) > 1 else [("x", exc("builtins.StopIteration"), st)]
    if nm == "builtins.next" and args and args[0].op == "comp":
      out = []
      none = mk("anyof", args[0], "exists")   # is there any element at all (whatever its truth)
      for passed, facts, elt in args[0].a[2]:
        if not passed: continue
        s = self.assume_all(facts, st)
        if s is not None: out.append(("v", elt, s))
      s = st.copy(); s.facts = s.facts + ((none, False),)
      if len(args) > 1: out.append(("v", args[1], s))
      else:
        out.append(("x", exc("builtins.StopIteration"), s))
      return out
    if nm in ("builtins.filter", "builtins.map") and len(args) == 2 and self.cfg.exact_comps and not kw:
      ex = self.exact_items(args[1], st)
      if ex is not None and len(ex) <= 8:
        paths, out = [([], st)], []
        for y in ex:
          nxt = []
          for acc, s in paths:
            for r in self.call(args[0], [y], [], n, s, fr):
              if r[0] == "x": out.append(r)
              elif nm.endswith("map"): nxt.append((acc + [("e", r[1])], r[2]))
              else:
                for ok, s2 in self.truth(r[1], r[2]): nxt.append((acc + [("e", y)] if ok else acc, s2))
          paths = nxt
        for acc, s in paths:
          o, s = self.new_obj("list", acc, s)
          out.append(("v", o, s))
        return out
    if nm == "builtins.enumerate" and len(args) == 1 and self.cfg.exact_comps and not kw:
      ex = self.exact_items(args[0], st)
      if ex is not None:
        o, s = self.new_obj("list", [("e", mk("tuple", const(i), y)) for i, y in enumerate(ex)], st)
        return [("v", o, s)]
    if nm in ("builtins.zip", "builtins.reversed") and args and self.cfg.exact_comps and not kw:
      exs = [self.exact_items(x, st) for x in args]
      if all(x is not None for x in exs):
        o, s = self.new_obj("list", [("e", mk("tuple", *ys)) for ys in zip(*exs)] if nm.endswith("zip") else [("e", y) for y in reversed(exs[0])], st)
        return [("v", o, s)]
    if nm in ("builtins.filter", "builtins.map") and len(args) == 2 and args[0].op in ("closure", "func", "bound", "partial"):
      alts, base, fl = [], len(st.facts), nm.endswith("filter")
      s0 = st.event(self._mkev("loop", st, fr, n, recv=args[1], res=const(False), name="comp"))
      for k, item, s in self.iter_alts(args[1], f"{n.lineno}:{n.col_offset}@{fr.frid}", s0):
        if k == "none": alts.append((False, s.facts[base:], NONE)); continue
        for r in self.call(args[0], [item], [], n, s, fr):
          if r[0] == "x": return None
          if not fl: alts.append((True, r[2].facts[base:], r[1])); continue
          for ok, s2 in self.truth(r[1], r[2]): alts.append((ok, s2.facts[base:], item if ok else NONE))
      return [("v", mk("comp", "gen", f"{n.lineno}:{n.col_offset}@{fr.frid}", tuple(alts)), s0)]
    if nm == "builtins.setattr" and len(args) == 3 and is_const(args[1]) and not kw:
      s = st.event(self._mkev("setattr", st, fr, n, recv=args[0], name=args[1].a[0], args=(args[2],), res=const(False)))
      s.store[(args[0], args[1].a[0])] = args[2]
      if args[0].op == "new":
        d = dict(s.heap.get(args[0].a[1], {})); d[args[1].a[0]] = args[2]
        s.heap[args[0].a[1]] = d
      return [("v", NONE, s)]
    if nm == "builtins.getattr" and len(args) >= 2 and is_const(args[1]):
      return list(self.getattr_(args[0], args[1].a[0], st, fr, n)) if len(args) == 2 else None
    if nm == "functools.partial" and args:
      return [("v", mk("partial", args[0], tuple(args[1:]), tuple(kw)), st)]
    if nm == "builtins.type" and len(args) == 1:
      ty = self.exact.get(args[0])
      if ty is None and args[0].op in ("inst", "new"): return [("v", mk("class", args[0].a[0]), st)]
      if ty is not None: return [("v", mk("class", ty.qualname), st)]
      return [("v", mk("call", f, tuple(args), (), None), st)]
    return None

  def obj_extend(self, o, v, st):
    h = st.heap[o.a[0]]
    s = st.copy()
    ex = self.exact_items(v, st)
    ent = [("e", x) for x in ex] if ex is not None else [("*", v)]
    if h[0] == "dict":
      hv = st.heap.get(v.a[0]) if v.op == "obj" else None
      ent = list(hv[1]) if hv and hv[0] == "dict" else [("**", v)]
    s.heap[o.a[0]] = (h[0], h[1] + tuple(ent))
    return s

  def obj_setitem(self, o, k, v, st):
    h = st.heap[o.a[0]]
    s = st.copy()
    if h[0] == "dict":
      ent = tuple(e for e in h[1] if not (e[0] == "kv" and e[1] is k)) + (("kv", k, v),)
      s.heap[o.a[0]] = (h[0], ent)
    return s

  def container_method(self, m, recv, args, kw, n, st, fr):
    """methods of known local containers and pure set algebra"""
    if m in ("union", "difference", "intersection") and len(args) == 1 and not isinstance(self.type_of(recv, st), Class):
      o = {"union": "|", "difference": "-", "intersection": "&"}[m]
      l = self.norm(recv, st) if recv.op == "obj" else recv
      r = self.norm(args[0], st) if args[0].op == "obj" else args[0]
      return [("v", mk("bin", o, l, r), st)]
    if recv.op == "const" and isinstance(recv.a[0], (str, bytes)) and m in ("upper", "lower", "casefold", "strip", "lstrip", "rstrip", "startswith", "endswith", "removeprefix", "removesuffix", "capitalize", "title") and not kw and all(is_const(a) for a in args):
      try: return [("v", const(getattr(recv.a[0], m)(*[a.a[0] for a in args])), st)]
      except (TypeError, ValueError): return None
    if m == "copy" and not args and recv.op in ("obj", "copy"):
      h = st.heap.get(recv.a[0]) if recv.op == "obj" else None
      if h:
        o, s = self.new_obj(h[0], h[1], st)
        return [("v", o, s)]
    if recv.op != "obj": return None
    h = st.heap.get(recv.a[0])
    if h is None: return None
    kind, ent = h
    e = self._mkev("call", st, fr, n, name=m, fterm=attr(recv, m), recv=recv, args=tuple(args), kw=tuple(kw), inlined=False, awaited=False)
    def upd(new):
      s = st.event(e); s.heap[recv.a[0]] = (kind, tuple(new))
      return s
    if m in ("add", "append", "appendleft") and args: return [("v", NONE, upd(ent + (("e", args[0]),)))]
    if m in ("update", "extend") and args and kind != "dict":
      s = st.event(e)
      return [("v", NONE, self.obj_extend(recv, args[0], s))]
    if m == "update" and kind == "dict":
      s = st.event(e)
      if args: s = self.obj_extend(recv, args[0], s)
      if kw:
        s = s.copy(); s.heap[recv.a[0]] = (kind, s.heap[recv.a[0]][1] + tuple(("kv", const(k), v) for k, v in kw))
      return [("v", NONE, s)]
    if m == "clear": return [("v", NONE, upd(()))]
    if m in ("discard", "remove") and args: return [("v", NONE, upd(tuple(x for x in ent if not (x[0] == "e" and x[1] is args[0]))))]
    if m == "get" and kind == "dict" and args:
      lk = self.dict_lookup(ent, args[0], st)
      if lk is None:
        base = self.dict_base(ent, args[0], st)
        return list(self.call(attr(base, "get"), args, kw, n, st, fr)) if base is not None else None
      return [("v", lk[1] if lk[0] == "hit" else args[1] if len(args) > 1 else NONE, st)]
    if m == "pop" and kind == "dict" and args:
      for x in reversed(ent):
        if x[0] == "kv" and x[1] is args[0]: return [("v", x[2], upd(tuple(y for y in ent if y is not x)))]
        if x[0] != "kv" or not (is_const(x[1]) and is_const(args[0])): return None
      return None
    if m == "setdefault" and kind == "dict" and args:
      for x in reversed(ent):
        if x[0] == "kv" and x[1] is args[0]: return [("v", x[2], st)]
      v = args[1] if len(args) > 1 else NONE
      return [("v", v, upd(ent + (("kv", args[0], v),)))]
    return None

  # types --------------------------------------------------------------------
  def type_of(self, t, st=None):
    if t in self.exact: return self.exact[t]
    ty = self.types.get(t)
    if ty is not None: return ty
    if st is not None:
      for a, v in st.known.items():
        if v and a.op == "isinst" and a.a[0] is t and a.a[1] in self.p._class_by_qual: return self.p._class_by_qual[a.a[1]]
    if t.op in ("new", "inst"): return self.p._class_by_qual.get(t.a[0])
    if t.op == "attr":
      b = self.type_of(t.a[0], st)
      if isinstance(b, Class):
        r = self.p.attr_type(b, t.a[1])
        if r is not None: self.types[t] = r
        return r
    if t.op == "enum": return self.p._class_by_qual.get(t.a[0])
    if t.op == "copy": return self.type_of(t.a[1], st)
    if t.op == "awaited": return self.type_of(t.a[0], st)
    if t.op == "item":
      b = self.type_of(t.a[0], st)
      if isinstance(b, tuple):
        if b[0] == "dict": return b[2]
        if b[0] == "coll": return b[1]
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("get", "pop"):
      b = self.type_of(t.a[0].a[0], st)
      if isinstance(b, tuple) and b[0] == "dict": return b[2]
      if isinstance(b, tuple) and b[0] == "coll" and t.a[0].a[1] == "pop": return b[1]
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.min", "builtins.max", "builtins.next") and t.a[1]: return self.elem_type(t.a[1][0], st)
    if t.op == "call" and t.a[0].op == "bound" and t.a[0].a[1].endswith(".model_validate"): return None
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("model_validate", "model_validate_json", "model_construct") and t.a[0].a[0].op == "class":
      return self.p._class_by_qual.get(t.a[0].a[0].a[0])
    return None

  def elem_type(self, v, st=None):
    """class of the members of an iterable, when known"""
    while v.op == "copy": v = v.a[1]
    if v.op == "comp":
      ts = [self.type_of(e, st) for p, _, e in v.a[2] if p]
      return ts[0] if ts and all(t is ts[0] for t in ts) else None
    if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] in ("keys", "values") and not v.a[1]:
      b = self.type_of(v.a[0].a[0], st)
      return b[1 if v.a[0].a[1] == "keys" else 2] if isinstance(b, tuple) and b[0] == "dict" else None
    b = self.type_of(v, st)
    return b[1] if isinstance(b, tuple) and b[0] in ("coll", "dict") else None

  # normal form --------------------------------------------------------------
  def norm(self, t, st, depth=0):
    """structural form of a value: heap containers are replaced by their contents"""
    if depth > 12: return t
    if not isinstance(t, T): return tuple(self.norm(x, st, depth + 1) for x in t) if isinstance(t, tuple) else t
    if t.op == "obj":
      h = st.heap.get(t.a[0])
      if h is None: return t
      ents = []
      for e in h[1]:
        if e[0] == "e": ents.append(self.norm(e[1], st, depth + 1))
        elif e[0] == "kv": ents.append(mk("kv", self.norm(e[1], st, depth + 1), self.norm(e[2], st, depth + 1)))
        else: ents.append(mk("spread", self.norm(e[1], st, depth + 1)))
      if h[0] == "set": ents = sorted(set(ents), key=show)
      return mk("lit", h[0], *ents)
    if t.op == "new":
      h = st.heap.get(t.a[1])
      if not isinstance(h, dict): return t
      return mk("inst", t.a[0], tuple((k, self.norm(v, st, depth + 1)) for k, v in sorted(h.items()) if isinstance(v, T)))
    if not t.a or t.op in ("const", "param", "self", "class", "func", "rawfunc", "ext", "global", "closure", "coro"): return t
    return mk(t.op, *[self.norm(x, st, depth + 1) if isinstance(x, (T, tuple)) else x for x in t.a])


def _quiet(e):
  return e.kind == "call" and (e.fterm.op == "ext" and e.fterm.a[0] in PURE_EXT or e.fterm.op == "attr" and e.fterm.a[1] in PURE_METHODS or e.fterm.op in ("class",) and not e.inlined)


def is_dict_type(t): return isinstance(t, tuple) and t[0] == "dict" or isinstance(t, str) and t == "builtins.dict"


def _hk(h):
  if isinstance(h, dict): return tuple(h.items())
  if isinstance(h, tuple) and h and h[0] in ("gen", "coro"): return id(h)
  return h


def _as_load(t):
  n = ast.parse(ast.unparse(t), mode="eval").body
  for x in ast.walk(n): ast.copy_location(x, t)
  return ast.fix_missing_locations(n)


_EXT_EXC = {  # exceptions of libraries the repository uses: name -> base (builtin name)
  "asyncio.CancelledError": "BaseException", "asyncio.exceptions.CancelledError": "BaseException",
  "asyncio.TimeoutError": "TimeoutError", "asyncio.InvalidStateError": "Exception", "asyncio.IncompleteReadError": "EOFError",
  "asyncio.QueueEmpty": "Exception", "asyncio.QueueFull": "Exception",
  "pydantic.ValidationError": "ValueError", "pydantic_core.ValidationError": "ValueError", "json.JSONDecodeError": "ValueError", 
  "queue.Empty": "Exception", "queue.Full": "Exception", "struct.error": "Exception",
}


def _builtin_exc(n):
  b = getattr(builtins, n, None)
  return b if isinstance(b, type) and issubclass(b, BaseException) else None


def exc_bases(prog, name):
  """list of ancestor names (builtin names without prefix), or None when unknown"""
  if name.startswith("builtins."):
    b = _builtin_exc(name[9:])
    return ["builtins." + k.__name__ for k in b.__mro__ if k is not object] if b else None
  if name in _EXT_EXC: return [name] + exc_bases(prog, "builtins." + _EXT_EXC[name])
  if name.startswith("websockets."):
    last = name.split(".")[-1]
    if last == "WebSocketException": return [name] + exc_bases(prog, "builtins.Exception")
    if last in ("ConnectionClosedOK", "ConnectionClosedError"): return [name, "websockets.ConnectionClosed"] + exc_bases(prog, "websockets.WebSocketException")
    if last in ("ConnectionClosed", "InvalidHandshake", "InvalidStatus", "InvalidURI", "InvalidMessage", "ProtocolError", "PayloadTooBig", "SecurityError"): return [name] + exc_bases(prog, "websockets.WebSocketException")
  c = prog._class_by_qual.get(name)
  if c is not None:
    out = []
    for k in prog.mro(c):
      if isinstance(k, Class): out.append(k.qualname)
      else:
        out.append(k)
        sub = exc_bases(prog, k)
        if sub: out.extend(sub)
    return out
  return None


def exc_is(prog, name, handler):
  """True / False / None(maybe): does an exception described by `name` match `except handler`"""
  if handler == "builtins.BaseException": return True
  if name == "any":   # some unknown Exception (not a cancellation)
    if handler == "builtins.Exception": return True
    hb = exc_bases(prog, handler)
    if hb is not None and "builtins.Exception" not in hb: return False
    return None
  nb = exc_bases(prog, name)
  if nb is None:      # unknown library exception: an Exception
    if name == handler or name.split(".")[-1] == handler.split(".")[-1]: return True
    return True if handler == "builtins.Exception" else None if False else (False if handler.startswith("builtins.") and handler != "builtins.Exception" else False)
  if handler in nb: return True
  if any(x.split(".")[-1] == handler.split(".")[-1] for x in nb): return True
  if handler == "builtins.Exception" and "builtins.Exception" not in nb: return False
  # the handler may name a subclass of the raised class
  hb = exc_bases(prog, handler)
  if hb is not None and name in hb and name in ("builtins.Exception", "builtins.ValueError", "builtins.OSError", "builtins.ConnectionError"): return None
  return False
