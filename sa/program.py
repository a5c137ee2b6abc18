"""Loader / resolver for the analysed source tree (stdlib ast only, nothing is imported or executed)."""
from __future__ import annotations
import ast, builtins, hashlib, os
from . import names
from functools import lru_cache

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "streamtasks"


class AnalysisBroken(Exception):
  """An anchor vanished, or the analysed program has a shape the analysis has no answer for."""


class Func:
  __slots__ = ("node", "module", "cls", "parent", "qualname", "name", "is_async", "is_gen", "_decos")

  def __init__(self, node, module, cls=None, parent=None):
    self.node, self.module, self.cls, self.parent = node, module, cls, parent
    self.name = getattr(node, "name", "<lambda>")
    if parent is not None: base = parent.qualname + ".<locals>."
    elif cls is not None: base = cls.qualname + "."
    else: base = module.name + "."
    self.qualname = base + (self.name if not isinstance(node, ast.Lambda) else f"<lambda>")
    self.is_async = isinstance(node, ast.AsyncFunctionDef)
    self.is_gen = _has_yield(node)
    self._decos = None

  @property
  def decorators(self):
    if self._decos is None:
      self._decos = [dotted(d.func if isinstance(d, ast.Call) else d) or "?" for d in getattr(self.node, "decorator_list", [])]
    return self._decos

  def has_deco(self, *names): return any(d == n or d.endswith("." + n) for d in self.decorators for n in names)

  @property
  def is_property(self): return self.has_deco("property", "cached_property")
  @property
  def is_classmethod(self): return self.has_deco("classmethod")
  @property
  def is_staticmethod(self): return self.has_deco("staticmethod")
  @property
  def is_abstract(self): return self.has_deco("abstractmethod")

  @property
  def line(self): return self.node.lineno
  @property
  def file(self): return self.module.relpath
  def __repr__(self): return f"<Func {self.qualname}>"


def _has_yield(node):
  stack = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
  while stack:
    n = stack.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
    stack.extend(ast.iter_child_nodes(n))
  return False


def dotted(node):
  if isinstance(node, ast.Name): return node.id
  if isinstance(node, ast.Attribute):
    b = dotted(node.value)
    return None if b is None else b + "." + node.attr
  if isinstance(node, ast.Subscript): return dotted(node.value)
  return None


class Class:
  def __init__(self, node, module, outer=None):
    self.node, self.module = node, module
    self.name = node.name
    self.qualname = (outer or module.name) + "." + node.name
    self.methods: dict[str, Func] = {}
    self.setters: dict[str, Func] = {}
    self.attrs: dict[str, ast.expr] = {}       # class level assignments
    self.attr_order: list[str] = []
    self.annotations: dict[str, ast.expr] = {}
    self.inner: dict[str, Class] = {}
    for st in node.body: self._scan(st)

  def _scan(self, st):
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
      # what sets a property does not take the place of what reads it
      if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in st.decorator_list) and st.name in self.methods: self.setters[st.name] = Func(st, self.module, cls=self)
      else: self.methods[st.name] = Func(st, self.module, cls=self)
    elif isinstance(st, ast.Assign):
      for t in st.targets:
        if isinstance(t, ast.Name): self.attrs[t.id] = st.value; self.attr_order.append(t.id)
        elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
          for n, v in zip(t.elts, st.value.elts):
            if isinstance(n, ast.Name): self.attrs[n.id] = v; self.attr_order.append(n.id)
    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
      self.annotations[st.target.id] = st.annotation
      if st.target.id not in self.attr_order: self.attr_order.append(st.target.id)
      if st.value is not None: self.attrs[st.target.id] = st.value
    elif isinstance(st, ast.ClassDef): self.inner[st.name] = Class(st, self.module, self.qualname)
    elif isinstance(st, ast.If):
      for s in st.body + st.orelse: self._scan(s)

  @property
  def file(self): return self.module.relpath
  @property
  def line(self): return self.node.lineno
  @property
  def is_dataclass(self): return any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "dataclass" for d in self.node.decorator_list)
  def __repr__(self): return f"<Class {self.qualname}>"


class Module:
  def __init__(self, name, path, relpath, is_pkg):
    self.name, self.path, self.relpath, self.is_pkg = name, path, relpath, is_pkg
    with open(path, "rb") as fd: raw = fd.read()
    self.digest = hashlib.sha256(raw).hexdigest()
    self.src = raw.decode("utf-8")
    try: self.tree = ast.parse(self.src, filename=relpath)
    except SyntaxError as e: raise AnalysisBroken(f"{relpath} does not parse: {e}")

  def scan(self):
    self.classes: dict[str, Class] = {}
    self.funcs: dict[str, Func] = {}
    self.imports: dict[str, tuple] = {}  # local name -> (module, attr|None)
    self.assigns: dict[str, list[ast.expr]] = {}
    self.assign_ann: dict[str, ast.expr] = {}
    for st in self.tree.body: self._scan(st)
    # imports nested in functions (late imports) are visible to the resolver too, at lower priority
    for n in ast.walk(self.tree):
      if isinstance(n, (ast.Import, ast.ImportFrom)): self._imp(n, override=False)

  def _scan(self, st):
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)): self.funcs[st.name] = Func(st, self)
    elif isinstance(st, ast.ClassDef): self.classes[st.name] = Class(st, self)
    elif isinstance(st, (ast.Import, ast.ImportFrom)): self._imp(st)
    elif isinstance(st, ast.Assign):
      for t in st.targets:
        if isinstance(t, ast.Name): self.assigns.setdefault(t.id, []).append(st.value)
        elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
          for n, v in zip(t.elts, st.value.elts):
            if isinstance(n, ast.Name): self.assigns.setdefault(n.id, []).append(v)
    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
      self.assign_ann[st.target.id] = st.annotation
      if st.value is not None: self.assigns.setdefault(st.target.id, []).append(st.value)
    elif isinstance(st, (ast.If, ast.Try, ast.With)):
      for f in ("body", "orelse", "finalbody"):
        for s in getattr(st, f, []): self._scan(s)
      for h in getattr(st, "handlers", []):
        for s in h.body: self._scan(s)

  def _imp(self, st, override=True):
    if isinstance(st, ast.Import):
      for a in st.names:
        nm = a.asname or a.name.split(".")[0]
        if override or nm not in self.imports: self.imports[nm] = (a.name if a.asname else a.name.split(".")[0], None)
    else:
      mod = st.module or ""
      if st.level:
        parts = self.name.split(".")
        if not self.is_pkg: parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        mod = ".".join(parts + ([mod] if mod else []))
      for a in st.names:
        nm = a.asname or a.name
        if override or nm not in self.imports: self.imports[nm] = (mod, a.name)


class Program:
  def __init__(self, root=None, raw=False):
    self.root = root or REPO
    self.modules: dict[str, Module] = {}
    base = os.path.join(self.root, PKG)
    if not os.path.isdir(base): raise AnalysisBroken(f"no package {PKG} in {self.root}")
    for dp, dn, fn in os.walk(base):
      dn[:] = sorted(d for d in dn if d not in ("__pycache__", "assets", "node_modules"))
      for f in sorted(fn):
        if not f.endswith(".py"): continue
        path = os.path.join(dp, f)
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg: parts = parts[:-1]
        name = ".".join(parts)
        self.modules[name] = Module(name, path, rel, is_pkg)
    trees = {m.name: m.tree for m in self.modules.values()}
    self.renamed = names.undo(trees) if not raw else []
    for m in self.modules.values(): m.scan()
    self._class_by_qual = {}
    for m in self.modules.values():
      for c in m.classes.values(): self._reg_cls(c)
    self._subs = None
    self._mro = {}
    self._bases = {}
    self._attr_types = {}

  def _reg_cls(self, c):
    self._class_by_qual[c.qualname] = c
    for i in c.inner.values(): self._reg_cls(i)

  # ---- lookup -----------------------------------------------------------
  def module(self, name):
    if name not in self.modules: raise AnalysisBroken(f"anchor module {name} vanished")
    return self.modules[name]

  def cls(self, qual):
    """Find a class by qualified name, falling back to a unique class with the same simple name anywhere (a moved class)."""
    if qual in self._class_by_qual: return self._class_by_qual[qual]
    mod, _, nm = qual.rpartition(".")
    r = self.resolve_in(mod, nm) if mod in self.modules else None
    if r and r[0] == "class": return r[1]
    cands = [c for c in self._class_by_qual.values() if c.name == nm]
    if len(cands) == 1: return cands[0]
    raise AnalysisBroken(f"anchor class {qual} vanished")

  def func(self, qual):
    mod, _, nm = qual.rpartition(".")
    if mod in self.modules:
      r = self.resolve_in(mod, nm)
      if r and r[0] == "func": return r[1]
    cands = [m.funcs[nm] for m in self.modules.values() if nm in m.funcs]
    if len(cands) == 1: return cands[0]
    raise AnalysisBroken(f"anchor function {qual} vanished")

  def has_cls(self, qual):
    try: self.cls(qual); return True
    except AnalysisBroken: return False

  def method(self, cls, name, required=True):
    if isinstance(cls, str): cls = self.cls(cls)
    for c in self.mro(cls):
      if isinstance(c, Class) and name in c.methods: return c.methods[name]
    if required: raise AnalysisBroken(f"anchor method {cls.qualname}.{name} vanished")
    return None

  def resolve_in(self, modname, name, _seen=()):
    """-> ('class', Class) | ('func', Func) | ('module', Module) | ('var', Module, name) | ('ext', dotted) | None"""
    m = self.modules.get(modname)
    if m is None: return ("ext", f"{modname}.{name}")
    if name in m.classes: return ("class", m.classes[name])
    if name in m.funcs: return ("func", m.funcs[name])
    if name in m.assigns: return ("var", m, name)
    if name in m.imports:
      mod, attr = m.imports[name]
      if (modname, name) in _seen: return None
      if attr is None:
        return ("module", self.modules[mod]) if mod in self.modules else ("ext", mod)
      if mod in self.modules:
        r = self.resolve_in(mod, attr, _seen + ((modname, name),))
        if r is not None: return r
      if f"{mod}.{attr}" in self.modules: return ("module", self.modules[f"{mod}.{attr}"])
      return ("ext", f"{mod}.{attr}" if mod else attr)
    if f"{modname}.{name}" in self.modules: return ("module", self.modules[f"{modname}.{name}"])
    if m.is_pkg is False and name in m.assign_ann: return ("var", m, name)
    return None

  def resolve_expr(self, node, module):
    """Resolve a Name/Attribute chain used at module level scope to a binding."""
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
      try: return self.resolve_expr(ast.parse(node.value, mode="eval").body, module)
      except SyntaxError: return None
    if isinstance(node, ast.Name):
      r = self.resolve_in(module.name, node.id)
      if r is None and hasattr(builtins, node.id): return ("ext", "builtins." + node.id)
      return r
    if isinstance(node, ast.Attribute):
      b = self.resolve_expr(node.value, module)
      if b is None: return None
      if b[0] == "module": return self.resolve_in(b[1].name, node.attr)
      if b[0] == "ext": return ("ext", b[1] + "." + node.attr)
      if b[0] == "class":
        for c in self.mro(b[1]):
          if isinstance(c, Class):
            if node.attr in c.inner: return ("class", c.inner[node.attr])
            if node.attr in c.methods: return ("func", c.methods[node.attr])
            if node.attr in c.attrs: return ("clsattr", c, node.attr)
        return None
      if b[0] == "var":
        return None
    if isinstance(node, ast.Subscript): return self.resolve_expr(node.value, module)
    return None

  # ---- classes ----------------------------------------------------------
  def bases(self, c: Class):
    if c.qualname not in self._bases:
      out = []
      for b in c.node.bases:
        r = self.resolve_expr(b, c.module)
        if r is None: out.append("?" + ast.unparse(b))
        elif r[0] == "class": out.append(r[1])
        elif r[0] == "ext": out.append(r[1])
        elif r[0] == "var":
          v = r[1].assigns.get(r[2], [None])[0]
          rr = self.resolve_expr(v, r[1]) if v is not None else None
          out.append(rr[1] if rr and rr[0] == "class" else "?" + ast.unparse(b))
        else: out.append("?" + ast.unparse(b))
      self._bases[c.qualname] = out
    return self._bases[c.qualname]

  def mro(self, c: Class):
    if c.qualname not in self._mro:
      try: self._mro[c.qualname] = self._c3(c)
      except RecursionError: raise AnalysisBroken(f"class hierarchy of {c.qualname} is cyclic")
    return self._mro[c.qualname]

  def _c3(self, c):
    bs = self.bases(c)
    seqs = [list(self.mro(b)) if isinstance(b, Class) else [b] for b in bs] + [list(bs)]
    res = [c]
    while any(seqs):
      seqs = [s for s in seqs if s]
      for s in seqs:
        cand = s[0]
        if not any(cand in t[1:] for t in seqs): break
      else: cand = seqs[0][0]
      res.append(cand)
      for s in seqs:
        if s and s[0] is cand or (s and s[0] == cand): del s[0]
    return res

  def is_sub(self, c: Class, other) -> bool | None:
    """other: Class or dotted string. None = unknown."""
    if isinstance(other, Class): return any(x is other for x in self.mro(c))
    m = self.mro(c)
    if any(isinstance(x, str) and (x == other or x.split(".")[-1] == other.split(".")[-1]) for x in m): return True
    return None if any(isinstance(x, str) and x.startswith("?") for x in m) else False

  def subclasses(self, c: Class, strict=True):
    return [k for k in self._class_by_qual.values() if (k is not c or not strict) and any(x is c for x in self.mro(k))]

  def all_classes(self): return list(self._class_by_qual.values())

  def all_funcs(self):
    """every function, methods and nested ones included"""
    for m in self.modules.values():
      yield from self._walk_funcs(m.tree.body, m, None, None)

  def _walk_funcs(self, body, module, cls, parent):
    for st in body:
      if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = None
        if parent is None and cls is not None: f = cls.methods.get(st.name)
        elif parent is None: f = module.funcs.get(st.name)
        if f is None or f.node is not st: f = Func(st, module, cls if parent is None else None, parent)
        yield f
        yield from self._walk_funcs(st.body, module, None, f)
      elif isinstance(st, ast.ClassDef):
        q = [c for c in self._class_by_qual.values() if c.node is st]
        c = q[0] if q else Class(st, module)
        yield from self._walk_funcs(st.body, module, c, None)
      else:
        for f in ("body", "orelse", "finalbody"):
          sub = getattr(st, f, None)
          if isinstance(sub, list): yield from self._walk_funcs(sub, module, cls, parent)
        for h in getattr(st, "handlers", []) or []: yield from self._walk_funcs(h.body, module, cls, parent)
        for h in getattr(st, "cases", []) or []: yield from self._walk_funcs(h.body, module, cls, parent)

  def fields(self, c: Class):
    """ordered annotated fields (dataclass / pydantic style) with inheritance: [(name, annotation node, default node|None, owner)]"""
    out = {}
    dc = any(isinstance(k, Class) and k.is_dataclass for k in self.mro(c))  # bases that are not dataclasses themselves contribute no fields
    for k in reversed(self.mro(c)):
      if not isinstance(k, Class) or (dc and not k.is_dataclass): continue
      for n in k.attr_order:
        if n in k.annotations:
          ann = k.annotations[n]
          if (dotted(ann) or "").split(".")[-1] == "ClassVar": continue
          out[n] = (n, ann, k.attrs.get(n), k)
    return list(out.values())

  # ---- types ------------------------------------------------------------
  def ann_type(self, ann, module):
    """annotation -> Class | ('list', T) | ('ext', dotted) | None"""
    if ann is None: return None
    if isinstance(ann, ast.Constant):
      if isinstance(ann.value, str):
        try: return self.ann_type(ast.parse(ann.value, mode="eval").body, module)
        except SyntaxError: return None
      return None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
      l, r = self.ann_type(ann.left, module), self.ann_type(ann.right, module)
      lnone = isinstance(ann.left, ast.Constant) and ann.left.value is None
      rnone = isinstance(ann.right, ast.Constant) and ann.right.value is None
      if rnone: return l
      if lnone: return r
      return None
    if isinstance(ann, ast.Subscript):
      h = (dotted(ann.value) or "").split(".")[-1]
      sl = ann.slice
      if h == "Optional": return self.ann_type(sl, module)
      if h in ("list", "set", "Iterable", "frozenset", "deque", "Sequence", "AsyncIterable", "AsyncIterator", "Iterator"): return ("coll", self.ann_type(sl, module))
      if h == "tuple" and isinstance(sl, ast.Tuple) and len(sl.elts) == 2 and isinstance(sl.elts[1], ast.Constant) and sl.elts[1].value is Ellipsis: return ("coll", self.ann_type(sl.elts[0], module))
      if h == "tuple": return ("tuple", tuple(self.ann_type(e, module) for e in (sl.elts if isinstance(sl, ast.Tuple) else [sl])))
      if h == "dict" and isinstance(sl, ast.Tuple) and len(sl.elts) == 2: return ("dict", self.ann_type(sl.elts[0], module), self.ann_type(sl.elts[1], module))
      if h in ("type",): return None
      if h == "Task" : return ("ext", "asyncio.Task")
      return self.ann_type(ann.value, module)
    r = self.resolve_expr(ann, module)
    if r is None: return None
    if r[0] == "class": return r[1]
    if r[0] == "ext": return ("ext", r[1])
    return None

  def attr_type(self, c: Class, name):
    key = (c.qualname, name)
    if key in self._attr_types: return self._attr_types[key]
    self._attr_types[key] = None
    res = None
    for k in self.mro(c):
      if not isinstance(k, Class): continue
      if name in k.annotations:
        res = self.ann_type(k.annotations[name], k.module)
        if res is not None: break
      for f in k.methods.values():
        for n in ast.walk(f.node):
          if isinstance(n, ast.AnnAssign) and _is_self_attr(n.target, f, name):
            res = self.ann_type(n.annotation, k.module) or res
          elif isinstance(n, ast.Assign) and any(_is_self_attr(t, f, name) for t in n.targets):
            res = res or self._value_type(n.value, f, k)
      if res is not None: break
    self._attr_types[key] = res
    return res

  def _value_type(self, v, f, k):
    if isinstance(v, ast.Await): v = v.value
    if isinstance(v, ast.Call):
      r = self.resolve_expr(v.func, k.module)
      if r and r[0] == "class": return r[1]
      if r and r[0] == "ext": return ("ext", r[1] + "()")
      if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "self":
        m = self.method(k, v.func.attr, required=False)
        if m is not None:
          if m.node.returns is not None: return self.ann_type(m.node.returns, m.module)
          rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None]
          if len(rets) == 1: return self._value_type(rets[0], m, m.cls)
      return None
    if isinstance(v, ast.Name):
      for a in _all_args(f.node):
        if a.arg == v.id: return self.ann_type(a.annotation, f.module)
    if isinstance(v, ast.IfExp): return self._value_type(v.body, f, k) or self._value_type(v.orelse, f, k)
    if isinstance(v, ast.Dict): return ("ext", "builtins.dict()")
    if isinstance(v, ast.List): return ("ext", "builtins.list()")
    return None


def _all_args(node):
  a = node.args
  return a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])


def _is_self_attr(t, f, name):
  if not isinstance(t, ast.Attribute) or t.attr != name or not isinstance(t.value, ast.Name): return False
  args = _all_args(f.node)
  return bool(args) and args[0].arg == t.value.id
