"""Calculator, buffers, repeaters and detectors."""
from __future__ import annotations
import ast, itertools, math, re
from .tasks2 import *
from ..interp import State

CALC = "streamtasks.system.tasks.calculator"
TASK = CALC + ".CalculatorTask"


def grammar_of(module):
  """{rule: [(symbols, alias)]} of the grammar in a module; symbols are rule names, TOKENS and "literals" """
  src = next((n.value for n in ast.walk(module.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and "->" in n.value and re.search(r"^\??start\s*:", n.value, re.M)), None)
  if src is None: return None
  rules, cur = {}, None
  for line in src.splitlines():
    line = re.sub(r"//(?=[^\"]*$).*", "", line).strip()
    if not line or line.startswith("%"): continue
    m = re.match(r"^[?!]*([a-z_]\w*)\s*:(.*)$", line)
    if m: cur, line = m.group(1), m.group(2)
    elif line.startswith("|"): line = line[1:]
    else: continue
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|->|[A-Za-z_]\w*|[|()\[\]*+?]', line)
    alt, alias, depth = [], None, 0
    def flush():
      nonlocal alt, alias
      if alt: rules.setdefault(cur, []).append((tuple(alt), alias))
      alt, alias = [], None
    i = 0
    while i < len(toks):
      t = toks[i]
      if t == "->": alias, i = toks[i + 1], i + 1
      elif t == "|" and depth == 0: flush()
      else:
        if t in "([": depth += 1
        elif t in ")]": depth -= 1
        alt.append(t)
      i += 1
    flush()
  return rules


def truth(x): return x > 0.5
BINARY = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b,
          "&": lambda a, b: float(truth(a) and truth(b)), "|": lambda a, b: float(truth(a) or truth(b)), "^": lambda a, b: float(truth(a) != truth(b)),
          ">": lambda a, b: float(a > b), "<": lambda a, b: float(a < b), ">=": lambda a, b: float(a >= b), "<=": lambda a, b: float(a <= b), "==": lambda a, b: float(a == b), "!=": lambda a, b: float(a != b)}
UNARY = {"-": lambda a: -a, "+": lambda a: a, "!": lambda a: float(not truth(a))}
FUNCS = ["sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "log2", "log10", "exp", "sqrt", "floor", "ceil", "round", "abs", "min", "max"]
GRID = [-2.0, 0.0, 0.3, 0.5, 0.7, 1.0, 3.0]
CLOSE = [(1.0, 1.0 - 1e-12), (1.0 - 1e-12, 1.0), (1e-12, 0.0), (0.0, 1e-12), (1e9, 1e9 + 1e-6)]


def strip_quotes(s): return s[1:-1] if s.startswith('"') else None


def plain(x): return isinstance(x, (int, float)) and math.isfinite(x)


def shape(symbols):
  """(operators, operands) of an alternative"""
  return tuple(strip_quotes(x) for x in symbols if x.startswith('"')), tuple(x for x in symbols if not x.startswith('"'))


def t09(ctx):
  R1 = ctx.rule("T09-operators", "every operator of the formulas has its meaning; a value counts as true above 0.5, truth values are 0 and 1", 15)
  R2 = ctx.rule("T09-functions", "every function and constant has its meaning, variables have their current values", 15)
  R3 = ctx.rule("T09-order", "operators bind as in arithmetic, and those of one level from left to right", 1)
  R4 = ctx.rule("T09-fails", "a formula that has no value for the current variables sends nothing and does not end the task", 2)
  k = ctx.p.cls(TASK)
  g = grammar_of(k.module)
  if g is None: ctx.check(False, R3, "grammar", "there is no grammar of the formulas", k.module.name); return
  alts = [(rule, syms, alias) for rule, xs in g.items() for syms, alias in xs]
  aliases = {a for _, _, a in alts if a}
  T = max(k.module.classes.values(), key=lambda c: len(aliases & (set(c.methods) | set(c.attrs))))
  C = max(k.module.classes.values(), key=lambda c: len(set(FUNCS) & (set(c.methods) | set(c.attrs))))
  found = {}
  for rule, syms, alias in alts:
    if alias is None: continue
    ops, nts = shape(syms)
    if ops[:2] == ("?", ":") and len(nts) == 3: found["?:"] = (rule, syms, alias)
    elif ops == ("(", ")") and len(nts) == 1: found["()"] = (rule, syms, alias)
    elif "(" in ops and nts[:1] == ("NAME",): found["f()"] = (rule, syms, alias)
    elif ops == () and nts == ("NAME",): found["name"] = (rule, syms, alias)
    elif ops == () and nts == ("NUMBER",): found["number"] = (rule, syms, alias)
    elif len(ops) == 1 and len(nts) == 2: found[ops[0]] = (rule, syms, alias)
    elif len(ops) == 1 and len(nts) == 1: found["u" + ops[0]] = (rule, syms, alias)
  vs = [mk("sym", f"arg{i}") for i in range(3)]
  def results(name):
    f = T.methods.get(name)
    if f is None: return None
    it = ctx.interp()
    params = [a.arg for a in f.node.args.args]
    st = State()
    if len(params) == 2:
      l, st = it.new_obj("list", [("e", x) for x in vs], st)
      bind = {params[1]: l}
    else: bind = dict(zip(params[1:], vs))
    return f, [p for p in ctx.run(it, f, selfcls=T, bind=bind, st=st)], it
  def meaning(what, n, spec):
    tag = f"{what}"
    if what not in found: ctx.check(False, R1, tag, f"the formulas have no operator {what}", k.module.name); return
    rs = results(found[what][2])
    if rs is None:
      if found[what][2] not in T.attrs: ctx.check(False, R1, tag, f"operator {what} has no meaning", k.module.name)
      return
    f, ps, it = rs
    loc = f"{f.file}:{f.line}"
    for xs in [*itertools.product(GRID, repeat=n), *(CLOSE if n == 2 else [])]:
      try: want = spec(*xs)
      except ZeroDivisionError: want = None
      except OverflowError: continue
      if isinstance(want, complex): continue
      env = dict(zip(vs, xs))
      got = []
      for p in ps:
        if p.kind != "return" or not holds(p.facts, env): continue
        try: got.append(value_of(it.norm(p.value, p.st), env))
        except Unk: got.append(Unk)
      if want is None:
        ctx.check(not any(plain(x) for x in got), R1, tag, f"{what} of {', '.join(map(str, xs))} is given a value", loc)
        continue
      if Unk in got: continue
      ctx.check(len(got) > 0 and all(isinstance(x, (int, float)) and float(x) == float(want) for x in got), R1, tag, f"{what} of {', '.join(map(str, xs))} is {got[0] if got else 'nothing'} instead of {want}", loc, ps[0])
  for o, spec in BINARY.items(): meaning(o, 2, spec)
  for o, spec in UNARY.items(): meaning("u" + o, 1, spec)
  meaning("?:", 3, lambda a, b, c: b if truth(a) else c)
  meaning("()", 1, lambda a: a)
  # names
  where = k.module.name
  for name in FUNCS:
    f = C.methods.get(name)
    if f is None:
      if name not in C.attrs: ctx.check(False, R2, name, f"the formulas have no function {name}", where)
      continue
    it = ctx.interp()
    a = f.node.args
    many = a.vararg is not None and len(a.args) <= 1
    n = 2 if many or len(a.args) == 3 else 1
    bind = {x.arg: v for x, v in zip(a.args[1:], vs)}
    st = State()
    if many:
      l, st = it.new_obj("tuple", [("e", x) for x in vs[:2]], st)
      bind = {a.vararg.arg: l}
    ps = ctx.run(it, f, selfcls=C, bind=bind, st=st)
    true = getattr(math, name, None) or {"round": round, "abs": abs, "min": min, "max": max}[name]
    for xs in itertools.product(GRID, repeat=n):
      try: want = true(*xs)
      except ValueError: want = None
      except OverflowError: continue
      got = []
      for p in ps:
        if p.kind != "return" or not holds(p.facts, dict(zip(vs, xs))): continue
        try: got.append(value_of(it.norm(p.value, p.st), dict(zip(vs, xs))))
        except Unk: got.append(Unk)
      if want is None:
        ctx.check(not any(plain(x) for x in got), R2, name, f"{name} of {', '.join(map(str, xs))} is given a value", f"{f.file}:{f.line}")
        continue
      if Unk in got: continue
      ctx.check(bool(got) and all(math.isclose(x, want, rel_tol=1e-12, abs_tol=1e-12) for x in got), R2, name, f"{name} of {', '.join(map(str, xs))} is {got[0] if got else 'nothing'} instead of {want}", f"{f.file}:{f.line}", ps[0])
  names(ctx, R2, C, T, found, results, vs)
  # binding
  if all(o in found for o in ("+", "-", "*", "/", "%")):
    def down(rule):
      """rules that bind tighter than one, reached without brackets"""
      out, todo = [], [rule]
      while todo:
        r = todo.pop()
        for syms, alias in g.get(r, []):
          if len(syms) == 1 and syms[0] in g and syms[0] not in out: out.append(syms[0]); todo.append(syms[0])
      return out
    for o in ("+", "-", "*", "/", "%"):
      rule, syms, _ = found[o]
      left, right = shape(syms)[1]
      ctx.check(left == rule and right in down(rule), R3, o, f"{o} does not go from left to right", where)
    add, mul = found["+"][0], found["*"][0]
    ctx.check(found["-"][0] == add and found["/"][0] == mul == found["%"][0] and mul in down(add) and add not in down(mul), R3, "levels", "multiplication and division do not bind tighter than addition and subtraction", where)
    for o in ("**", "u-", "u+", "u!"):
      if o in found: ctx.check(found[o][0] in down(mul) and add not in down(found[o][0]), R3, o, f"{o} does not bind tighter than multiplication", where)
    for o in (">", "<", ">=", "<=", "==", "!="):
      if o in found: ctx.check(add in down(found[o][0]), R3, o, f"{o} does not bind looser than arithmetic", where)
    for o in ("&", "|", "^"):
      if o in found: ctx.check(add in down(found[o][0]) and shape(found[o][1])[1][0] == found[o][0], R3, o, f"{o} does not bind looser than arithmetic", where)
  # failures
  names_of = {v[0] + "." + v[1] for kk, v in k.module.imports.items() if v[1] == "VisitError"} or {"lark.exceptions.VisitError"}
  for what in ("transform", NUM):
    def fails(ev, st):
      if what == "transform" and ev.kind == "call" and (ev.name or "").split(".")[-1] == "transform": return [next(iter(names_of))]
      if what == NUM and ev.kind == "call" and ev.name == NUM: return [VALERR]
      return None
    for r in task_runs(ctx, k, Got(ctx, ["data"], bad=False), stop={"transform"}, raises_fn=fails):
      if not any(is_recv(e) for p in r.paths for e in p.events): continue
      for p in r.paths:
        for m, evs in rounds(p):
          bad = [e for e in evs if e.kind == "handle"]
          if p.kind == "raise" or bad:
            ctx.check(p.kind != "raise", R4, r.name + f"[{what.split('.')[-1]}]", "a formula without a value ends the task", f"{r.func.file}:{r.func.line}", p)
            ctx.check(not outs(ctx, r, evs), R4, r.name + "[sent]", "something is sent although the formula has no value", f"{r.func.file}:{r.func.line}", p)


def names(ctx, R, C, T, found, results, vs):
  where = C.module.name
  consts = C.attrs.get("default_input_map")
  it = ctx.interp()
  given = mk("sym", "given")
  init = C.methods.get("__init__")
  store = None
  if init is not None:
    for p in ctx.run(it, init, selfcls=C, bind={init.node.args.args[1].arg: given}):
      sets = [e for e in p.events if e.kind == "setattr"]
      if p.kind != "return" or not sets: continue
      store = sets[-1].name
      t = it.norm(sets[-1].args[0], p.st)
      env = {given: {"x": 5.0}}
      for x in subterms(t):
        if x.op == "attr" and x.a[1] == "default_input_map" or x.op == "ext" and str(x.a[0]).endswith("default_input_map"): env[x] = {"pi": math.pi, "e": math.e}
      try: v = value_of(t, env)
      except Unk: continue
      ctx.check(isinstance(v, dict) and v.get("x") == 5.0 and v.get("pi") == math.pi and v.get("e") == math.e, R, "variables", "a formula does not see the current values of the variables and the constants", sets[-1].loc, p)
  if isinstance(consts, ast.AST):
    d = next((n for n in ast.walk(consts) if isinstance(n, ast.Dict)), None)
    if d is not None:
      for key, val in zip(d.keys, d.values):
        if isinstance(key, ast.Constant) and key.value in ("pi", "e"):
          v = getattr(math, val.attr, None) if isinstance(val, ast.Attribute) else val.value if isinstance(val, ast.Constant) else None
          if v is not None: ctx.check(math.isclose(v, getattr(math, key.value), rel_tol=1e-15), R, key.value, f"{key.value} does not have its value", where)
  get = C.methods.get("__getitem__")
  if get is not None and store is not None:
    key = mk("sym", "key")
    for p in ctx.run(it, get, selfcls=C, bind={get.node.args.args[1].arg: key}):
      if p.kind == "return": ctx.check(p.value.op == "item" and attr_is(p.value.a[0], store) and p.value.a[1] is key, R, "variable", "a name does not stand for the value of that variable", f"{get.file}:{get.line}", p)
  for what, ok, say in (("name", lambda v: v.op == "item" and v.a[1] is vs[0] and attr_is(v.a[0], "context"), "a name is not looked up"), ("number", lambda v: v.op == "call" and call_name(v) == "float" and v.a[1][:1] == (vs[0],), "a number does not have its value"),
                        ("f()", lambda v: not (v.op == "call" and v.a[0].op == "call" and call_name(v.a[0]) == "getattr") or v.a[0].a[1][1] is vs[0] and tuple(v.a[1]) == (vs[1], vs[2]), "a function is not applied to its arguments in their order")):
    if what not in found: ctx.check(False, R, what, say, where); continue
    rs = results(found[what][2])
    if rs is None: continue
    for p in rs[1]:
      if p.kind == "return" and len(rs[0].node.args.args) == 2 and rs[0].node.args.vararg is None: ctx.check(ok(rs[2].norm(p.value, p.st)), R, what, say, f"{rs[0].file}:{rs[0].line}", p)


AT_ONCE = {"send", "set_paused", "put", "send_message", "put_nowait"}          # awaited, but never waited for
TAKES = {"pop", "popleft", "get_nowait", "popitem", "read", "readline", "recv_nowait"}


class Rounds:
  """does every round of a loop wait for something (or take something that is left), as far as the order of statements tells?"""
  def __init__(self, ctx):
    self.funcs, self.memo, self.taking = {}, {}, {}
    for m in ctx.p.modules.values():
      for n in ast.walk(m.tree):
        if isinstance(n, (ast.AsyncFunctionDef, ast.FunctionDef)): self.funcs.setdefault(n.name, []).append(n)

  def walk(self, n):
    todo = [n]
    while todo:
      x = todo.pop()
      yield x
      todo += [c for c in ast.iter_child_nodes(x) if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))]

  def name(self, c): return c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)

  def waits_for(self, v):
    if not isinstance(v, ast.Call): return True
    n = self.name(v)
    if n in AT_ONCE: return False
    fs = [f for f in self.funcs.get(n, []) if isinstance(f, ast.AsyncFunctionDef)]
    if not fs or n.strip("_").startswith(("recv", "receive", "wreceive", "get", "wait")): return True
    return all(not self.at_once(f) for f in fs)

  def at_once(self, f):
    """can a coroutine be through without waiting?"""
    if f not in self.memo:
      self.memo[f] = True
      self.memo[f] = bool(self.block(f.body) & {"next", "return"})
    return self.memo[f]

  def takes(self, c):
    n = self.name(c)
    if n in TAKES: return True
    if n in self.taking: return self.taking[n]
    fs = self.funcs.get(n, [])
    self.taking[n] = False
    self.taking[n] = bool(fs) and len(fs) <= 2 and all(any(isinstance(x, ast.Call) and self.name(x) in TAKES for x in self.walk(f)) for f in fs)
    return self.taking[n]

  def waits(self, n): return any(isinstance(x, ast.Await) and self.waits_for(x.value) or isinstance(x, ast.Call) and self.takes(x) for x in self.walk(n))

  def block(self, body):
    r = set()
    for s in body:
      o = self.stmt(s)
      r |= o - {"next"}
      if "next" not in o: return r
    return r | {"next"}

  def stmt(self, s):
    if isinstance(s, ast.If): return set() if self.waits(s.test) else self.block(s.body) | (self.block(s.orelse) if s.orelse else {"next"})
    if isinstance(s, ast.While):
      if self.waits(s.test): return set()
      o = self.block(s.body)
      return o & {"return"} | ({"next"} if not isinstance(s.test, ast.Constant) or "break" in o else set())
    if isinstance(s, ast.For): return set() if self.waits(s.iter) else self.block(s.body) & {"return"} | {"next"}
    if isinstance(s, ast.AsyncFor): return {"next"}
    if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
      b = self.block(s.body)
      r = b if not s.orelse or "next" not in b else b - {"next"} | self.block(s.orelse)
      early = self.early(s.body)   # can it fail before it waits?
      if early:
        for h in s.handlers: r = r | self.block(h.body)
      if s.finalbody:
        f = self.block(s.finalbody)
        if "next" not in f: return f
      return r
    if isinstance(s, (ast.With, ast.AsyncWith)): return set() if any(self.waits(i.context_expr) for i in s.items) else self.block(s.body)
    if isinstance(s, ast.Match): return set() if self.waits(s.subject) else set().union({"next"}, *[self.block(c.body) for c in s.cases])
    if isinstance(s, ast.Return): return set() if s.value is not None and self.waits(s.value) else {"return"}
    if isinstance(s, ast.Break): return {"break"}
    if isinstance(s, ast.Continue): return {"continue"}
    if isinstance(s, ast.Raise): return set()
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): return {"next"}
    return set() if self.waits(s) else {"next"}

  def early(self, body):
    if not body: return False
    s = body[0]
    # what only computes something of what is there does not fail
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and not any(isinstance(x, (ast.Call, ast.Await, ast.Subscript, ast.BinOp, ast.Starred)) for x in self.walk(s)) and len(body) > 1: return self.early(body[1:])
    if isinstance(s, ast.If):
      if self.waits(s.test): return False
      return any(isinstance(x, ast.Call) for x in self.walk(s.test)) or self.early(s.body) or (self.early(s.orelse) if s.orelse else self.early(body[1:]))
    return not (isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return, ast.With, ast.AsyncWith)) and self.waits(s))

  def busy(self, w): return not self.waits(w.test) and bool(self.block(w.body) & {"next", "continue"})


def t13(ctx):
  R = ctx.rule("T13", "every round of a loop of a coroutine waits for something or takes one of the things that are left", 40)
  rs = Rounds(ctx)
  runs = None
  for m in ctx.p.modules.values():
    for f in ast.walk(m.tree):
      if not isinstance(f, ast.AsyncFunctionDef): continue
      todo = list(f.body)
      while todo:
        w = todo.pop()
        if isinstance(w, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
        todo += list(ast.iter_child_nodes(w))
        if not isinstance(w, ast.While): continue
        tag, loc = f"{m.name.split('.')[-1]}.{f.name}[{ast.unparse(w.test)[:40]}]", f"{m.relpath}:{w.lineno}"
        if not rs.busy(w): ctx.check(True, R, tag, "", loc); continue
        # the order of statements is not enough: which rounds can there be?
        if runs is None: runs = {}
        ps = paths_of(ctx, runs, m, f) if w in f.body or any(w in getattr(x, "body", []) for x in f.body if isinstance(x, (ast.With, ast.AsyncWith, ast.Try))) else None
        bad = None if ps else True
        for p in ps or ():
          if p.kind != "loopback": continue
          if not any(e.kind == "call" and (e.awaited and waits_at(rs, e) or (e.name or "").split(".")[-1] in TAKES) for e in p.events): bad = p; break
        ctx.check(not bad, R, tag, "a round of this loop waits for nothing: nothing else runs while it lasts", loc, bad if bad is not True else None)


def waits_at(rs, e):
  v = e.node.value if isinstance(e.node, ast.Await) else e.node
  return rs.waits_for(v) if isinstance(v, ast.Call) else (e.name or "").split(".")[-1] not in AT_ONCE


def paths_of(ctx, runs, m, f):
  if m.name not in runs:
    runs[m.name] = []
    for k in task_classes(ctx):
      if k.module is m: runs[m.name] += task_runs(ctx, k, Got(ctx))
  return [p for r in runs[m.name] if r.func.node is f for p in r.paths]


RULES = {"T09": t09, "T13": t13}
