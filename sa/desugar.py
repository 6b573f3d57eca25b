"""Rewrites of the syntax tree that keep its meaning, applied to the code and to
the specifications alike before anything else looks at them."""
import ast
import copy


def _own_jump(body, kinds):
  """a break (continue) that belongs to the loop with this body"""
  for s in body:
    if isinstance(s, kinds):
      return True
    if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
      if _own_jump(s.orelse, kinds):
        return True
      continue
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
      continue
    for f in ("body", "orelse", "finalbody"):
      if _own_jump(getattr(s, f, []) or [], kinds):
        return True
    for h in getattr(s, "handlers", []):
      if _own_jump(h.body, kinds):
        return True
    for c in getattr(s, "cases", []):
      if _own_jump(c.body, kinds):
        return True
  return False


def _simple(e):
  """evaluating it again gives the same iterable"""
  if isinstance(e, (ast.Name, ast.Constant)):
    return True
  if isinstance(e, ast.Attribute):
    return _simple(e.value)
  if isinstance(e, (ast.Tuple, ast.List)):
    return all(_simple(x) for x in e.elts)
  if isinstance(e, ast.Call):
    return isinstance(e.func, ast.Name) and e.func.id in ("range", "len", "list", "tuple", "sorted") and not e.keywords and all(_simple(x) for x in e.args)
  if isinstance(e, ast.BinOp):
    return _simple(e.left) and _simple(e.right)
  return False


def _product(call, names):
  """the factors of itertools.product(...)"""
  if not isinstance(call, ast.Call):
    return None
  f = call.func
  if not (isinstance(f, ast.Attribute) and f.attr == "product" and isinstance(f.value, ast.Name) and names.get(f.value.id) == "itertools"
          or isinstance(f, ast.Name) and names.get(f.id) == "itertools.product"):
    return None
  args = list(call.args)
  if any(isinstance(a, ast.Starred) for a in args) or not args:
    return None
  for k in call.keywords:
    if k.arg == "repeat" and isinstance(k.value, ast.Constant) and isinstance(k.value.value, int) and 1 <= k.value.value <= 4:
      args = args * k.value.value
    else:
      return None
  return args if all(_simple(a) for a in args) else None


SPELLED = {"__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE, "__eq__": ast.Eq, "__ne__": ast.NotEq, "__add__": ast.Add,
           "__sub__": ast.Sub, "__mul__": ast.Mult, "__mod__": ast.Mod, "__floordiv__": ast.FloorDiv, "__truediv__": ast.Div}


class Desugar(ast.NodeTransformer):
  def __init__(self, tree):
    self.names = {}
    self.bound = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for n in ast.walk(tree):
      if isinstance(n, ast.Import):
        for a in n.names:
          self.names[a.asname or a.name] = a.name
      elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
        for a in n.names:
          self.names[a.asname or a.name] = n.module + "." + a.name

  def visit_ClassDef(self, n):
    self.generic_visit(n)
    fs = {x.name: x for x in n.body if isinstance(x, ast.FunctionDef)}
    f = fs.get("__missing__")
    if f and "__getitem__" not in fs and any(isinstance(b, ast.Name) and b.id == "dict" for b in n.bases) and len(f.args.args) == 2 and not f.decorator_list:
      # what a dict does with a missing key, spelled out
      me, key = f.args.args[0].arg, f.args.args[1].arg
      test = ast.Compare(ast.Name(key, ast.Load()), [ast.NotIn()], [ast.Name(me, ast.Load())])
      get = ast.Call(ast.Attribute(ast.Name("dict", ast.Load()), "__getitem__", ast.Load()), [ast.Name(me, ast.Load()), ast.Name(key, ast.Load())], [])
      g = ast.copy_location(ast.FunctionDef("__getitem__", f.args, [_at(ast.If(test, [], []), f.lineno), _at(ast.Return(get), f.end_lineno + 0.5)], [], None), f)
      g.body[0].body = f.body
      g.end_lineno = f.end_lineno
      n.body[n.body.index(f)] = g
    return n

  def visit_For(self, n):
    self.generic_visit(n)
    if len(n.body) == 1 and not n.orelse and isinstance(n.target, ast.Name) and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Yield) \
        and isinstance(n.body[0].value.value, ast.Name) and n.body[0].value.value.id == n.target.id and isinstance(n.iter, ast.Call):
      return ast.copy_location(ast.Expr(ast.copy_location(ast.YieldFrom(n.iter), n)), n)
    fs = _product(n.iter, self.names)
    if fs and len(fs) > 1 and isinstance(n.target, ast.Tuple) and len(n.target.elts) == len(fs) and not n.orelse and not _own_jump(n.body, ast.Break) \
        and not any(isinstance(x, ast.Starred) for x in n.target.elts):
      assigned = {x.id for b in n.body + [n.target] for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
      if not any(isinstance(x, ast.Name) and x.id in assigned for f in fs for x in ast.walk(f)):
        body = n.body
        for t, f in list(zip(n.target.elts, fs))[::-1]:
          body = [ast.copy_location(ast.For(t, f, body, [], None), n)]
        return body[0]
    return n

  def visit_Try(self, n):
    n = self.generic_visit(n)
    # "try to take" is "take if there is something"
    if len(n.body) == 1 and len(n.handlers) == 1 and not n.orelse and not n.finalbody and n.handlers[0].name is None \
        and isinstance(n.handlers[0].type, ast.Name) and isinstance(n.body[0], (ast.Return, ast.Assign)):
      v, h = n.body[0].value, n.handlers[0]
      test = None
      if h.type.id == "IndexError" and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("pop", "popleft") \
          and not v.args and not v.keywords and _simple(v.func.value):
        test = v.func.value
      elif h.type.id == "KeyError" and isinstance(v, ast.Subscript) and _simple(v.value) and _simple(v.slice):
        test = ast.Compare(v.slice, [ast.In()], [v.value])
      if test is not None and (isinstance(n.body[0], ast.Return) or all(isinstance(t, ast.Name) for t in n.body[0].targets)):
        return ast.fix_missing_locations(ast.copy_location(ast.If(copy.deepcopy(test), n.body, h.body), n))
    return n

  def visit_Call(self, n):
    self.generic_visit(n)
    f = n.func
    if isinstance(f, ast.Attribute) and f.attr == "fromkeys" and isinstance(f.value, ast.Name) and f.value.id == "dict" and len(n.args) == 2 and not n.keywords \
        and isinstance(n.args[1], (ast.Constant, ast.Name, ast.Attribute)):
      g = ast.comprehension(ast.Name("_key", ast.Store()), n.args[0], [], 0)
      return ast.copy_location(ast.DictComp(ast.Name("_key", ast.Load()), n.args[1], [g]), n)
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and f.attr in SPELLED and len(n.args) == 1 and not n.keywords:
      op = SPELLED[f.attr]()
      if isinstance(op, ast.cmpop):
        return ast.copy_location(ast.Compare(f.value, [op], n.args), n)
      return ast.copy_location(ast.BinOp(f.value, op, n.args[0]), n)
    if isinstance(f, ast.Attribute) and f.attr in ("setitimer", "sleep"):
      # seconds: 0 and 0.0 are the same
      n.args = [ast.copy_location(ast.Constant(int(a.value)), a) if isinstance(a, ast.Constant) and type(a.value) is float and a.value == int(a.value) else a for a in n.args]
    if not isinstance(f, ast.Name) or n.keywords or f.id in self.bound:
      return n
    if f.id == "dict" and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name) and n.args[0].func.id == "zip" \
        and len(n.args[0].args) == 2 and not n.args[0].keywords and not any(isinstance(a, ast.Starred) for a in n.args[0].args):
      z = n.args[0]
      a, b = z.args
      it, tgt = z, ["_key", "_val"]
      if _simple(a) and ast.dump(b) in (ast.dump(ast.parse("range(len(X))", mode="eval").body).replace(ast.dump(ast.Name("X", ast.Load())), ast.dump(a)),):
        it, tgt = ast.Call(ast.Name("enumerate", ast.Load()), [a], []), ["_val", "_key"]
      g = ast.comprehension(ast.Tuple([ast.Name(x, ast.Store()) for x in tgt], ast.Store()), it, [], 0)
      return ast.fix_missing_locations(ast.copy_location(ast.DictComp(ast.Name("_key", ast.Load()), ast.Name("_val", ast.Load()), [g]), n))
    if f.id == "dict" and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(n.args[0].elt, ast.Tuple) \
        and len(n.args[0].elt.elts) == 2 and not any(isinstance(x, ast.Starred) for x in n.args[0].elt.elts):
      k, v = n.args[0].elt.elts
      return ast.copy_location(ast.DictComp(k, v, n.args[0].generators), n)
    if f.id in ("filter", "map") and len(n.args) == 2 and isinstance(n.args[0], ast.Lambda):
      a = n.args[0].args
      if len(a.args) == 1 and not (a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs):
        x = a.args[0].arg
        body = n.args[0].body
        g = ast.comprehension(ast.Name(x, ast.Store()), n.args[1], [body] if f.id == "filter" else [], 0)
        return ast.copy_location(ast.GeneratorExp(ast.Name(x, ast.Load()) if f.id == "filter" else body, [g]), n)
    return n

  def comp(self, n):
    self.generic_visit(n)
    gens = []
    for g in n.generators:
      fs = _product(g.iter, self.names)
      if fs and len(fs) > 1 and isinstance(g.target, ast.Tuple) and len(g.target.elts) == len(fs) and not any(isinstance(x, ast.Starred) for x in g.target.elts):
        for i, (t, f) in enumerate(zip(g.target.elts, fs)):
          gens.append(ast.comprehension(t, f, g.ifs if i == len(fs) - 1 else [], 0))
      else:
        gens.append(g)
    n.generators = gens
    return n

  visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

  def visit_Match(self, n):
    self.generic_visit(n)
    if not isinstance(n.subject, ast.Name):
      t = "_subject%d" % n.lineno
      first = [ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], n.subject), n)]
      subj = lambda: ast.Name(t, ast.Load())
    else:
      first = []
      subj = lambda: ast.Name(n.subject.id, ast.Load())
    def test(p):
      """(test or True, bindings); None: not supported"""
      if isinstance(p, ast.MatchValue):
        return ast.Compare(subj(), [ast.Eq()], [p.value]), []
      if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subj(), [ast.Is()], [ast.Constant(p.value)]), []
      if isinstance(p, ast.MatchOr):
        ts = [test(q) for q in p.patterns]
        if any(t is None or t[1] or t[0] is True for t in ts):
          return None
        return ast.BoolOp(ast.Or(), [t[0] for t in ts]), []
      if isinstance(p, ast.MatchAs):
        r = (True, []) if p.pattern is None else test(p.pattern)
        if r is None:
          return None
        return r[0], r[1] + ([p.name] if p.name else [])
      if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return ast.Call(ast.Name("isinstance", ast.Load()), [subj(), p.cls], []), []
      return None
    out = []
    for c in n.cases[::-1]:
      r = test(c.pattern)
      if r is None or r[1] and c.guard is not None:
        return n
      t, names = r
      if c.guard is not None:
        t = c.guard if t is True else ast.BoolOp(ast.And(), [t, c.guard])
      body = [ast.copy_location(ast.Assign([ast.Name(x, ast.Store())], subj()), n) for x in names] + c.body
      out = body if t is True else [ast.copy_location(ast.If(t, body, out), c.body[0])]
    out = first + out
    for s in out:
      ast.copy_location(s, n) if not hasattr(s, "lineno") else None
      ast.fix_missing_locations(s)
    return out


def _lambdas(body):
  """name = lambda ...: x is a definition"""
  for i, n in enumerate(body):
    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Lambda):
      body[i] = ast.copy_location(ast.FunctionDef(n.targets[0].id, n.value.args, [ast.copy_location(ast.Return(n.value.body), n)], [], None, None), n)
      body[i].type_params = []
    elif isinstance(n, ast.ClassDef):
      _lambdas(n.body)


def desugar(tree):
  _lambdas(tree.body)
  MUTATORS.clear()
  MUTATORS.update(_mutators(tree))
  tree = Desugar(tree).visit(tree)
  for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef):
      _set_unions(n)
      _shared(n)
      _short_circuits(n)
    for k in ("body", "orelse", "finalbody"):
      b = getattr(n, k, None)
      if isinstance(b, list):
        _refreshed(b)
  for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef) and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
      _flags(n.body, n)
  return ast.fix_missing_locations(tree)


def _set_unions(f):
  """x |= y on a local set is x.update(y)"""
  kinds = {}
  for n in ast.walk(f):
    if isinstance(n, (ast.Global, ast.Nonlocal)):
      return
    if isinstance(n, ast.Assign):
      for t in n.targets:
        for x in ast.walk(t):
          if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            v = n.value
            ok = t is x and (isinstance(v, (ast.Set, ast.SetComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "set")
            kinds.setdefault(x.id, set()).add(ok)
    elif isinstance(n, ast.AugAssign):
      pass
    elif isinstance(n, ast.arg):
      kinds.setdefault(n.arg, set()).add(False)
    else:
      for t in ([n.target] if isinstance(n, (ast.For, ast.NamedExpr, ast.AnnAssign, ast.comprehension)) else []) + ([n.optional_vars] if isinstance(n, ast.withitem) and n.optional_vars else []):
        for x in ast.walk(t):
          if isinstance(x, ast.Name):
            kinds.setdefault(x.id, set()).add(False)
  sets = {k for k, v in kinds.items() if v == {True}}
  if not sets:
    return
  class T(ast.NodeTransformer):
    def visit_AugAssign(self, n):
      if isinstance(n.op, ast.BitOr) and isinstance(n.target, ast.Name) and n.target.id in sets:
        c = ast.Call(ast.Attribute(ast.Name(n.target.id, ast.Load()), "update", ast.Load()), [n.value], [])
        return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.copy_location(c, n)), n))
      return n
  for i, b in enumerate(f.body):
    f.body[i] = T().visit(b)


HARMLESS_CALLS = {"divmod", "len", "abs", "min", "max", "int", "bool"}


def _fresh(e):
  """an expression that makes an object that can be changed, or a tuple of such"""
  if isinstance(e, (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)):
    return True
  if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "set", "dict", "defaultdict", "deque"):
    return True
  return isinstance(e, ast.Tuple) and any(_fresh(x) for x in e.elts)


def _leaves(e):
  if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
    for i, x in enumerate(e.elts):
      if isinstance(x, ast.Name):
        yield e.elts, i, x
      else:
        yield from _leaves(x)
  elif isinstance(e, ast.Dict):
    for i, x in enumerate(e.values):
      if isinstance(x, ast.Name):
        yield e.values, i, x
      else:
        yield from _leaves(x)


def _shared(f):
  """one object put in several places of a structure that is kept is not the
  same as an object in each place"""
  binds = {}
  for x in ast.walk(f):
    if isinstance(x, ast.Assign):
      for t in x.targets:
        if isinstance(t, ast.Name):
          binds.setdefault(t.id, []).append(x.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
          for y in ast.walk(t):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
              binds.setdefault(y.id, []).append(None)
  for x in ast.walk(f):
    if isinstance(x, ast.Assign) and not isinstance(x.targets[0], ast.Name) or isinstance(x, ast.Return) and x.value is not None:
      seen = set()
      for elts, i, n in list(_leaves(x.value)):
        b = binds.get(n.id)
        if n.id in seen and b and all(v is not None and _fresh(v) for v in b):
          elts[i] = ast.copy_location(ast.Call(ast.copy_location(ast.Name("__same_object__", ast.Load()), n), [n], []), n)
        seen.add(n.id)


def _short_circuits(f):
  """x = any(self.m(..) for ..), where m does something: the loop it is"""
  for x in ast.walk(f):
    for k in ("body", "orelse", "finalbody"):
      b = getattr(x, k, None)
      if not isinstance(b, list):
        continue
      for i, s in enumerate(b):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
          continue
        c = s.value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("any", "all") and len(c.args) == 1 and not c.keywords):
          continue
        g = c.args[0]
        if not (isinstance(g, (ast.GeneratorExp, ast.ListComp)) and len(g.generators) == 1 and not g.generators[0].is_async):
          continue
        if not (isinstance(g.elt, ast.Call) and isinstance(g.elt.func, ast.Attribute) and isinstance(g.elt.func.value, ast.Name)
                and g.elt.func.value.id == "self" and g.elt.func.attr in MUTATORS):
          continue
        name = s.targets[0].id
        if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(g)):
          continue
        is_any = c.func.id == "any"
        setit = _at(ast.Assign([ast.Name(name, ast.Store())], ast.Constant(is_any)), s.lineno)
        test = g.elt if is_any else ast.UnaryOp(ast.Not(), g.elt)
        body = [_at(ast.If(test, [setit] + ([_at(ast.Break(), s.lineno)] if isinstance(g, ast.GeneratorExp) else []), []), s.lineno)]
        for q in g.generators[0].ifs[::-1]:
          body = [_at(ast.If(q, body, []), s.lineno)]
        loop = _at(ast.For(g.generators[0].target, g.generators[0].iter, body, [], None), s.lineno)
        for y in ast.walk(g.generators[0].target):
          if isinstance(y, ast.Name):
            y.ctx = ast.Store()
        b[i:i + 1] = [_at(ast.Assign([ast.Name(name, ast.Store())], ast.Constant(not is_any)), s.lineno), loop]
        return _short_circuits(f)


MUTATORS = set()      # methods that change their object


def _mutators(tree):
  """names of methods of this module that store into something, directly or
  through another method of their object"""
  fs = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
  calls = {}
  out = set()
  for f in fs:
    for x in ast.walk(f):
      if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
        out.add(f.name)
      if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
        if x.func.attr in ("add", "append", "update", "extend", "pop", "remove", "discard", "clear", "insert"):
          out.add(f.name)
        elif isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
          calls.setdefault(f.name, set()).add(x.func.attr)
  n = -1
  while n != len(out):
    n = len(out)
    out |= {k for k, v in calls.items() if v & out}
  return out


def _values(s):
  """{name: expression} a pure assignment gives, None otherwise"""
  if not (isinstance(s, ast.Assign) and len(s.targets) == 1):
    return None
  for n in ast.walk(s.value):
    if isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.List, ast.Dict, ast.Set)):
      return None
    if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in HARMLESS_CALLS):
      return None
  t, v = s.targets[0], s.value
  if isinstance(t, ast.Name):
    return {t.id: v}
  if isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
    if isinstance(v, ast.Call) and v.func.id == "divmod" and len(v.args) == 2 and len(t.elts) == 2:
      return {t.elts[0].id: ast.BinOp(v.args[0], ast.FloorDiv(), v.args[1]), t.elts[1].id: ast.BinOp(v.args[0], ast.Mod(), v.args[1])}
  return None


def _refreshed(body):
  """`S; while c: B; S` with a pure S: `while c[S]: S; B` and S once more"""
  for i in range(len(body) - 1, 0, -1):
    w = body[i]
    if not (isinstance(w, ast.While) and not w.orelse and len(w.body) > 1):
      continue
    s, last = body[i - 1], w.body[-1]
    v = _values(s)
    if not v or ast.dump(s) != ast.dump(last) or _own_jump(w.body, (ast.Continue, ast.Break)):
      continue
    names = {n.id for n in ast.walk(w.test) if isinstance(n, ast.Name)}
    reads = {n.id for x in v.values() for n in ast.walk(x) if isinstance(n, ast.Name)}
    if not names & set(v) or reads & set(v) or set(v) & set(_stores(w.body[:-1])):
      continue
    new = _Rename({k: x for k, x in v.items()})
    w.test = ast.fix_missing_locations(ast.copy_location(new.visit(w.test), w.test))
    w.body = [copy.deepcopy(s)] + w.body[:-1]
    for x in ast.walk(w.body[0]):
      if hasattr(x, "lineno"):
        x.lineno = x.end_lineno = w.lineno
    tail = copy.deepcopy(s)
    end = getattr(w, "end_lineno", w.lineno)
    for x in ast.walk(tail):
      if hasattr(x, "lineno"):
        x.lineno = x.end_lineno = end + 0.5
    body[i - 1:i + 1] = [w, tail]


# --- flags ---------------------------------------------------------------------
# A loop that can only set a flag sets a flag of its own, looked at afterwards.

def _stores(nodes):
  out = {}
  for b in nodes:
    for x in ast.walk(b):
      if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
        out.setdefault(x.id, []).append(x)
  return out


def _flags(body, fn, depth=0):
  i = 0
  while i < len(body):
    s = body[i]
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
      i += 1
      continue
    for f in ("body", "orelse", "finalbody"):
      b = getattr(s, f, None)
      if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
        _flags(b, fn, depth + isinstance(s, (ast.For, ast.While)))
    for h in getattr(s, "handlers", []):
      _flags(h.body, fn, depth)
    if isinstance(s, (ast.For, ast.While)):
      for name, value in _only_set(s):
        if _starts(body[:i], name, not value) or name.startswith("_flag_"):
          continue
        new = "_flag_%s_%d" % (name, s.lineno)
        for x in ast.walk(s):
          if isinstance(x, ast.Name) and x.id == name:
            x.id = new
        body[i:i] = [_at(ast.Assign([ast.Name(new, ast.Store())], ast.Constant(not value)), s.lineno - 0.5)]
        test = ast.Name(new, ast.Load())
        body[i + 2:i + 2] = [_at(ast.If(test if value else ast.UnaryOp(ast.Not(), test), [ast.Assign([ast.Name(name, ast.Store())], ast.Constant(value))], []),
                                 (getattr(s, "end_lineno", None) or s.lineno) + 0.5)]
        i += 2
    i += 1


def _at(s, line):
  for x in ast.walk(s):
    if isinstance(x, (ast.stmt, ast.expr)):
      x.lineno = x.end_lineno = line
      x.col_offset = x.end_col_offset = 0
  return s


def _only_set(s):
  st = _stores([s])
  loads = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
  simple = {}
  for x in ast.walk(s):
    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, bool):
      simple.setdefault(x.targets[0].id, []).append(x.value.value)
    elif isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Try, ast.FunctionDef, ast.Lambda)):
      return []
  return [(n, vs[0]) for n, vs in sorted(simple.items()) if len(set(vs)) == 1 and len(vs) == len(st[n]) and n not in loads]


def _starts(before, name, value):
  """the flag has that value at the end of these statements"""
  for s in before[::-1]:
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
      return isinstance(s.value, ast.Constant) and s.value.value is value
    if name in _stores([s]):
      return False
  return False


# --- helpers of the change under test -------------------------------------------
# A procedure or a generator that the original did not have, called where a
# statement or a loop stood, is put back in its place.

MUTATING = {"append", "extend", "add", "update", "pop", "insert", "remove", "clear", "popleft", "appendleft", "reverse", "sort",
            "setdefault", "discard"}


class _Rename(ast.NodeTransformer):
  def __init__(self, m):
    self.m = m

  def visit_Name(self, n):
    r = self.m.get(n.id)
    if r is None:
      return n
    if isinstance(r, str):
      return ast.copy_location(ast.Name(r, n.ctx), n)
    return copy.deepcopy(r)


def _body(f):
  b = f.body
  if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
    b = b[1:]
  return b


def _plain_args(f):
  a = f.args
  return not (a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or f.decorator_list)


def _atomic(e):
  if isinstance(e, ast.Attribute):
    return _atomic(e.value)
  return isinstance(e, (ast.Name, ast.Constant))


def _bind(f, call, method):
  """{parameter: argument expression} or None"""
  ps = [a.arg for a in f.args.args]
  out = {}
  if method:
    out[ps[0]] = call.func.value
    ps = ps[1:]
  if len(call.args) > len(ps) or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
    return None
  out.update(zip(ps, call.args))
  for k in call.keywords:
    if k.arg not in ps or k.arg in out:
      return None
    out[k.arg] = k.value
  d = f.args.defaults
  for p, v in zip([a.arg for a in f.args.args][len(f.args.args) - len(d):], d):
    if p not in out:
      if not isinstance(v, ast.Constant):
        return None
      out[p] = v
  if len(out) != len(f.args.args) or not all(_atomic(v) for v in out.values()):
    return None
  return out


def _renumber(stmts, line):
  n = [0]
  def go(x):
    n[0] += 1
    me = line + n[0] * 1e-5
    last = me
    for c in ast.iter_child_nodes(x):
      last = max(last, go(c))
    if hasattr(x, "lineno") or isinstance(x, (ast.stmt, ast.expr, ast.arg, ast.keyword, ast.alias, ast.excepthandler)):
      x.lineno, x.end_lineno, x.col_offset, x.end_col_offset = me, last, 0, 0
    return last
  for s in stmts:
    go(s)


def _tail_yields(body, tail=False):
  """every yield is the last thing its loop does"""
  for i, s in enumerate(body):
    last = i == len(body) - 1
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
      if not (last and tail):
        return False
    elif isinstance(s, (ast.For, ast.While)):
      if s.orelse or not _tail_yields(s.body, True):
        return False
    elif isinstance(s, ast.If):
      if not (_tail_yields(s.body, last and tail) and _tail_yields(s.orelse, last and tail)):
        return False
    elif any(isinstance(x, ast.Yield) for x in ast.walk(s)):
      return False
  return True


class Restore:
  def __init__(self, tree, new):
    self.funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef) and new(n.name) and _plain_args(n)}
    self.classes = {}
    for c in tree.body:
      if isinstance(c, ast.ClassDef):
        self.classes[c.name] = {n.name: n for n in c.body if isinstance(n, ast.FunctionDef) and new("%s.%s" % (c.name, n.name)) and _plain_args(n)}
    self.n = 0

  def target(self, call, cls):
    f = call.func
    if isinstance(f, ast.Name) and f.id in self.funcs:
      return self.funcs[f.id], False
    if cls and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and f.attr in self.classes.get(cls, {}):
      return self.classes[cls][f.attr], True
    return None, False

  def rename(self, f, binding):
    """the body of f with its own names kept apart"""
    self.n += 1
    m = dict(binding)
    stores = _stores(f.body)
    if any(p in stores for p in binding):
      return None
    for x in ast.walk(f):
      if isinstance(x, (ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef)) and x is not f:
        return None
    for s in stores:
      m[s] = "%s$%d" % (s, self.n)
    return [_Rename(m).visit(copy.deepcopy(s)) for s in _body(f)]

  def procedure(self, s, cls):
    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
      return None
    f, method = self.target(s.value, cls)
    if f is None or any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Raise, ast.Try)) for x in ast.walk(f)):
      return None
    b = _bind(f, s.value, method)
    if b is None:
      return None
    # only for what it does to the lists it is handed
    hit = False
    for x in ast.walk(f):
      if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATING and isinstance(x.func.value, ast.Name):
        hit |= isinstance(b.get(x.func.value.id), ast.Name)
      elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
        hit |= isinstance(b.get(x.value.id), ast.Name)
    if not hit:
      return None
    return self.rename(f, b)

  def generator(self, s, cls):
    if not (isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call)):
      return None
    f, method = self.target(s.iter, cls)
    if f is None:
      return None
    ys = [x for x in ast.walk(f) if isinstance(x, ast.Yield)]
    st = [x for x in ast.walk(f) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Yield)]
    if not ys or len(ys) != len(st) or len(ys) > 3 or any(y.value is None for y in ys) or any(isinstance(x, (ast.Return, ast.YieldFrom, ast.Try)) for x in ast.walk(f)):
      return None
    if _own_jump(s.body, ast.Break) or _own_jump(s.body, ast.Continue) and not _tail_yields(_body(f)):
      return None
    b = _bind(f, s.iter, method)
    if b is None:
      return None
    used = {n.id for v in b.values() for n in ast.walk(v) if isinstance(n, ast.Name)}
    # the loop may not change what the generator still looks at
    if used & set(_stores(s.body + [s.target])):
      return None
    body = self.rename(f, b)
    if body is None:
      return None
    def put(stmts):
      out = []
      for x in stmts:
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Yield):
          out.append(ast.Assign([copy.deepcopy(s.target)], x.value.value))
          out += copy.deepcopy(s.body)
          continue
        for k in ("body", "orelse"):
          if getattr(x, k, None):
            setattr(x, k, put(getattr(x, k)))
        out.append(x)
      return out
    return put(body)

  def block(self, stmts, cls, depth):
    out = []
    for s in stmts:
      r = self.procedure(s, cls) or self.generator(s, cls) if depth < 4 else None
      if r is not None:
        _renumber(r, s.lineno)
        out += self.block(r, cls, depth + 1)
        continue
      for k in ("body", "orelse", "finalbody"):
        if getattr(s, k, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
          setattr(s, k, self.block(getattr(s, k), cls, depth))
      for h in getattr(s, "handlers", []):
        h.body = self.block(h.body, cls, depth)
      out.append(s)
    return out

  def run(self, tree):
    if not self.funcs and not any(self.classes.values()):
      return
    for n in tree.body:
      if isinstance(n, ast.FunctionDef):
        n.body = self.block(n.body, None, 0)
      elif isinstance(n, ast.ClassDef):
        for k in n.body:
          if isinstance(k, ast.FunctionDef):
            k.body = self.block(k.body, n.name, 0)


def restore(tree, module, vocabulary):
  Restore(tree, lambda name: "%s:%s" % (module, name) not in vocabulary).run(tree)
  return tree
