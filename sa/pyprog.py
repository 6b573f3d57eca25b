"""Whole-program model of the Python half of the repository.

Parses every non-test module under Code/ and resolves imports, module
constants, classes (with bases) and functions.  Nothing is imported or run.
"""
import ast
import json
import os

REPO = os.environ.get("SA_REPO", "/repo")


from .desugar import desugar, restore


class AnalysisError(Exception):
  """The analysis cannot give an answer (vanished anchor, unsupported form)."""


class Func:
  def __init__(self, qual, node, module, cls=None):
    self.qual = qual          # "Macro.Tape:Chain_Tape.copy"
    self.node = node
    self.module = module      # Module
    self.cls = cls            # Class or None
    self.name = node.name
    self.kind = "func"        # func | static | class | property
    for d in getattr(node, "decorator_list", []):
      s = ast.unparse(d)
      if s == "staticmethod":
        self.kind = "static"
      elif s == "classmethod":
        self.kind = "class"
      elif s == "property":
        self.kind = "property"
    self.is_generator = any(
      isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

  def params(self):
    a = self.node.args
    return [x.arg for x in a.posonlyargs + a.args]

  def loc(self, node=None):
    return "%s:%d" % (self.module.path, getattr(node or self.node, "lineno", 0))

  def __repr__(self):
    return "<Func %s>" % self.qual


class Class:
  def __init__(self, qual, node, module):
    self.qual = qual
    self.node = node
    self.module = module
    self.name = node.name
    self.methods = {}
    self.consts = {}
    self.bases = []

  def __repr__(self):
    return "<Class %s>" % self.qual


def vocabulary():
  global _vocabulary
  if _vocabulary is None:
    _vocabulary = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocabulary.json"))))
  return _vocabulary


_vocabulary = None


class Module:
  def __init__(self, name, path, tree):
    self.name = name
    self.path = path
    self.tree = tree
    self.funcs = {}
    self.classes = {}
    self.imports = {}   # local name -> ("mod", modname) | ("sym", modname, sym)
    self.consts = {}    # name -> ast expr (module level single assignment)
    self.multi = set()  # names assigned more than once


def walk_own(node):
  """Walk a function body without entering nested functions/classes."""
  todo = list(ast.iter_child_nodes(node))
  while todo:
    n = todo.pop()
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    todo.extend(ast.iter_child_nodes(n))


class Program:
  _effects = None

  @property
  def effects(self):
    if self._effects is None:
      from .effects import Effects
      self._effects = Effects(self)
    return self._effects

  def list_attr(self, name):
    """attributes that only ever hold lists"""
    if self._lists is None:
      yes, no = set(), set()
      for m in self.modules.values():
        for n in ast.walk(m.tree):
          if isinstance(n, ast.Assign):
            ts, v = n.targets, n.value
          elif isinstance(n, ast.AnnAssign) and n.value is not None:
            ts, v = [n.target], n.value
          else:
            continue
          for t in ts:
            if isinstance(t, ast.Attribute):
              if isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list":
                yes.add(t.attr)
              elif not (isinstance(v, ast.Subscript) or isinstance(v, ast.Call) and ast.unparse(v.func).endswith("deque")):
                no.add(t.attr)
            elif isinstance(t, ast.Tuple):
              no.update(x.attr for x in t.elts if isinstance(x, ast.Attribute))
      self._lists = yes - no
    return name in self._lists

  _lists = None

  def number_names(self):
    """names of variables and fields that are ordered or computed with and never None"""
    good, bad = set(), set()
    def name(e):
      return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
    def none(e):
      return isinstance(e, ast.Constant) and (e.value is None or isinstance(e.value, (str, bytes)))
    for m in self.modules.values():
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Compare):
          xs = [n.left] + n.comparators
          for a, op, b in zip(xs, n.ops, xs[1:]):
            for x, y in ((a, b), (b, a)):
              if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                good.add(name(x))
              if none(y):
                bad.add(name(x))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.FloorDiv, ast.Sub)):
          good.update((name(n.left), name(n.right)))
        elif isinstance(n, ast.Assign) and (none(n.value) or isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp))):
          for t in n.targets:
            bad.add(name(t))
        elif isinstance(n, ast.arguments):
          ps = n.posonlyargs + n.args
          for a, d in list(zip(ps[len(ps) - len(n.defaults):], n.defaults)) + [(a, d) for a, d in zip(n.kwonlyargs, n.kw_defaults) if d]:
            if none(d):
              bad.add(a.arg)
        elif isinstance(n, ast.keyword) and none(n.value):
          bad.add(n.arg)
    return good - bad - {None}

  def maybe_objects(self):
    """functions declared to give None or an object of a class whose objects are all true"""
    out = set()
    for f in self.all_funcs():
      r = getattr(f.node, "returns", None)
      alts = []
      if isinstance(r, ast.BinOp) and isinstance(r.op, ast.BitOr):
        alts = [r.left, r.right]
      elif isinstance(r, ast.Subscript) and getattr(r.value, "id", getattr(r.value, "attr", "")) == "Optional":
        alts = [r.slice, ast.Constant(None)]
      if len(alts) != 2 or not any(isinstance(x, ast.Constant) and x.value is None for x in alts):
        continue
      for x in alts:
        if not isinstance(x, ast.Constant):
          k = self.resolve_expr(f.module, x)
          if k and k[0] == "cls":
            c = self.cls(k[1])
            if c is not None and all(":" in b or b in ("object", "ext:object") for d in self.mro(c) for b in d.bases) \
                and not self.find_method(k[1], "__len__") and not self.find_method(k[1], "__bool__"):
              out.add(f.qual)
    return out

  def object_fields(self):
    """fields that hold None or an object of a class whose objects are all true"""
    good, none, bad = set(), set(), set()
    def plain(q):
      c = self.cls(q)
      return c is not None and all(":" in b or b in ("object", "ext:object") for k in self.mro(c) for b in k.bases) \
        and not self.find_method(q, "__len__") and not self.find_method(q, "__bool__")
    def kind(f, v):
      if isinstance(v, ast.Constant) and v.value is None:
        return "none"
      if isinstance(v, ast.Call):
        r = self.resolve_expr(f.module, v.func)
        if r and r[0] == "cls" and plain(r[1]):
          return "obj"
        if r and r[0] == "ext" and r[1] in ("copy.copy", "copy.deepcopy") and len(v.args) == 1 and isinstance(v.args[0], ast.Name) and v.args[0].id == "self" \
            and f.cls is not None and plain(f.cls.qual):
          return "obj"
      if isinstance(v, ast.IfExp):
        ks = {kind(f, v.body), kind(f, v.orelse)}
        return None if None in ks else "obj"
      if isinstance(v, ast.Name):
        vs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
        args = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        if vs and v.id not in args and all(not isinstance(x, ast.Name) and kind(f, x) == "obj" for x in vs):
          return "obj"
      return None
    for f in self.all_funcs():
      for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
          for t in n.targets:
            if isinstance(t, ast.Attribute):
              if isinstance(t.value, ast.Name) and t.value.id.endswith("options"):
                continue
              k = kind(f, n.value)
              (bad if k is None else none if k == "none" else good).add(t.attr)
            else:
              bad.update(x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Attribute):
          bad.add(n.target.attr)
        elif isinstance(n, (ast.For, ast.withitem, ast.comprehension)):
          t = n.optional_vars if isinstance(n, ast.withitem) else n.target
          if t is not None:
            bad.update(x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
    return (good & none) - bad

  def counters(self):
    """attributes that only ever hold a non-negative number and are counted up"""
    up, bad = set(), set()
    def natural(v):
      return isinstance(v, ast.Constant) and type(v.value) is int and v.value >= 0
    for m in self.modules.values():
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign):
          for t in n.targets:
            if isinstance(t, ast.Attribute) and natural(n.value):
              continue
            bad.update(x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
          if isinstance(n.op, ast.Add) and natural(n.value):
            up.add(n.target.attr)
          else:
            bad.add(n.target.attr)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.value is not None and not natural(n.value):
          bad.add(n.target.attr)
        elif isinstance(n, (ast.For, ast.comprehension, ast.withitem)):
          t = n.optional_vars if isinstance(n, ast.withitem) else n.target
          if t is not None:
            bad.update(x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
    return up - bad

  def __init__(self, root=None, sub="Code"):
    self.root = os.path.join(root or REPO, sub)
    self.modules = {}
    self._changed = None
    self.rebound = {}       # definitions that something else replaces
    self.sub = sub
    for dirpath, dirs, files in sorted(os.walk(self.root)):
      dirs[:] = sorted(d for d in dirs if d not in ("__pycache__",) and not d.startswith("."))
      for f in sorted(files):
        if not f.endswith(".py") or f.startswith("test_") or f == "io_pb2.py":
          continue
        path = os.path.join(dirpath, f)
        rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
          rel = rel[:-9]
        elif rel == "__init__":
          continue
        try:
          tree = desugar(ast.parse(open(path, encoding="utf-8").read(), path))
          restore(tree, rel, vocabulary())
        except SyntaxError as e:
          if rel.count(".") == 0 or rel.split(".")[0] in ("Macro", "IO"):
            # Python-2 leftovers exist in side directories only.
            self.bad = getattr(self, "bad", []) + [(rel, str(e))]
          continue
        m = Module(rel, os.path.join(sub, os.path.relpath(path, self.root)), tree)
        self._scan(m, tree.body)
        self.modules[rel] = m
    for m in self.modules.values():
      for c in m.classes.values():
        for b in c.node.bases:
          t = self.resolve_expr(m, b)
          c.bases.append(t[1] if t and t[0] == "cls" else ast.unparse(b))
    for m in self.modules.values():
      for n in ast.walk(m.tree):
        if not isinstance(n, (ast.Assign, ast.AugAssign)):
          continue
        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
          if isinstance(t, ast.Attribute) and isinstance(t.value, (ast.Name, ast.Attribute)):
            try:
              r = self.resolve_expr(m, t.value)
            except Exception:
              r = None
            if r and r[0] == "cls" and self.cls(r[1]) is not None and t.attr in self.cls(r[1]).methods:
              self.rebound["%s.%s" % (r[1], t.attr)] = "%s:%d" % (m.path, n.lineno)
            elif r and r[0] == "mod" and r[1] in self.modules and t.attr in self.modules[r[1]].funcs:
              self.rebound["%s:%s" % (r[1], t.attr)] = "%s:%d" % (m.path, n.lineno)

  def _scan(self, m, body):
    for n in body:
      if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in m.funcs for t in n.targets):
        for t in n.targets:
          if isinstance(t, ast.Name) and t.id in m.funcs:
            self.rebound["%s:%s" % (m.name, t.id)] = n.lineno
      if isinstance(n, ast.FunctionDef):
        m.funcs[n.name] = Func("%s:%s" % (m.name, n.name), n, m)
      elif isinstance(n, ast.ClassDef):
        c = Class("%s:%s" % (m.name, n.name), n, m)
        m.classes[n.name] = c
        for k in n.body:
          if isinstance(k, ast.FunctionDef):
            c.methods[k.name] = Func("%s.%s" % (c.qual, k.name), k, m, c)
          elif isinstance(k, ast.Assign):
            for t in k.targets:
              if isinstance(t, ast.Name) and t.id in c.methods:
                self.rebound["%s.%s" % (c.qual, t.id)] = k.lineno
              if isinstance(t, ast.Name):
                c.consts[t.id] = k.value
          elif isinstance(k, ast.AnnAssign) and k.value is not None and isinstance(k.target, ast.Name):
            c.consts[k.target.id] = k.value
      elif isinstance(n, ast.Assign):
        for t in n.targets:
          if isinstance(t, ast.Name):
            if t.id in m.consts:
              m.multi.add(t.id)
            m.consts[t.id] = n.value
          elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
            for a, b in zip(t.elts, n.value.elts):
              if isinstance(a, ast.Name):
                if a.id in m.consts:
                  m.multi.add(a.id)
                m.consts[a.id] = b
      elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
        m.consts[n.target.id] = n.value
      elif isinstance(n, ast.Import):
        for a in n.names:
          if a.asname:
            m.imports[a.asname] = ("mod", a.name)
          else:
            m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
      elif isinstance(n, ast.ImportFrom):
        base = self._rel(m, n)
        for a in n.names:
          m.imports[a.asname or a.name] = ("sym", base, a.name)
      elif isinstance(n, (ast.If, ast.Try)):
        self._scan(m, n.body)
        self._scan(m, getattr(n, "orelse", []))
        for h in getattr(n, "handlers", []):
          self._scan(m, h.body)
    # `global` statements make a name a mutable variable.
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Global):
        m.multi.update(n.names)

  def _rel(self, m, n):
    if n.level == 0:
      return n.module or ""
    pkg = m.name.split(".")
    is_pkg = m.path.endswith("__init__.py")
    drop = n.level - (1 if is_pkg else 0)
    if drop:
      pkg = pkg[:-drop]
    return ".".join(pkg + ([n.module] if n.module else []))

  # --- resolution -------------------------------------------------------
  def lookup(self, m, name, seen=()):
    """Resolve a global name of module m to a tagged reference."""
    key = (m.name, name)
    if key in seen:
      return None
    if name in m.funcs:
      return ("fn", m.funcs[name].qual)
    if name in m.classes:
      return ("cls", m.classes[name].qual)
    if name in m.consts:
      return ("gvar", "%s:%s" % (m.name, name))
    if name in m.imports:
      imp = m.imports[name]
      if imp[0] == "mod":
        if imp[1] in self.modules:
          return ("mod", imp[1])
        return ("ext", imp[1])
      _, base, sym = imp
      full = base + "." + sym if base else sym
      if full in self.modules:
        return ("mod", full)
      if base in self.modules:
        r = self.lookup(self.modules[base], sym, seen + (key,))
        if r:
          return r
      return ("ext", full)
    return None

  def member(self, ref, name):
    if ref[0] == "mod":
      full = ref[1] + "." + name
      m = self.modules[ref[1]]
      r = self.lookup(m, name)
      if r:
        return r
      if full in self.modules:
        return ("mod", full)
      return ("ext", full)
    if ref[0] == "ext":
      return ("ext", ref[1] + "." + name)
    if ref[0] == "cls":
      f = self.find_method(ref[1], name)
      if f:
        return ("fn", f.qual)
      c = self.cls(ref[1])
      for k in self.mro(c):
        if name in k.consts:
          return ("cvar", k.qual, name)
    return None

  def resolve_expr(self, m, e):
    if isinstance(e, ast.Name):
      return self.lookup(m, e.id)
    if isinstance(e, ast.Attribute):
      b = self.resolve_expr(m, e.value)
      if b and b[0] in ("mod", "ext", "cls"):
        return self.member(b, e.attr)
    return None

  def gexpr(self, qual):
    mod, name = qual.split(":")
    m = self.modules[mod]
    return m, m.consts.get(name), (name in m.multi)

  def const(self, qual):
    """Literal value of a module constant."""
    mod, name = qual.split(":")
    m = self.modules.get(mod)
    if m is None:
      raise AnalysisError("anchor module %s not found" % mod)
    r = self.lookup(m, name)
    if r and r[0] == "gvar":
      m2, e, multi = self.gexpr(r[1])
      try:
        return ast.literal_eval(e)
      except Exception:
        pass
    raise AnalysisError("anchor constant %s not found" % qual)

  def cls(self, qual):
    mod, name = qual.split(":")
    m = self.modules.get(mod)
    if m and name in m.classes:
      return m.classes[name]
    return None

  def mro(self, c):
    out, todo = [], [c]
    while todo:
      k = todo.pop(0)
      if k is None or k in out:
        continue
      out.append(k)
      for b in k.bases:
        if ":" in b:
          todo.append(self.cls(b))
    return out

  def find_method(self, clsqual, name):
    c = self.cls(clsqual)
    if c is None:
      return None
    for k in self.mro(c):
      if name in k.methods:
        return k.methods[name]
    for k in self.mro(c):
      if (k.qual, name) in self.extra_methods:
        return self.extra_methods[(k.qual, name)]
    return None

  def subclasses(self, clsqual):
    out = []
    for m in self.modules.values():
      for c in m.classes.values():
        if any(k.qual == clsqual for k in self.mro(c)):
          out.append(c)
    return out

  def func(self, qual, required=True):
    """Find an anchored function; tolerates a move to a base class/module."""
    mod, name = qual.split(":")
    m = self.modules.get(mod)
    if m:
      if "." in name:
        c, meth = name.split(".")
        if c in m.classes:
          f = self.find_method(m.classes[c].qual, meth)
          if f:
            return f
        else:
          r = self.lookup(m, c)
          if r and r[0] == "cls":
            f = self.find_method(r[1], meth)
            if f:
              return f
      else:
        r = self.lookup(m, name)
        if r and r[0] == "fn":
          return self.by_qual(r[1])
    # moved elsewhere?
    hits = [f for f in self.all_funcs() if f.qual.split(":")[1] == name]
    if len(hits) == 1:
      return hits[0]
    if required:
      raise AnalysisError("anchor function %s not found" % qual)
    return None

  extra = {}            # helper functions of specifications
  extra_methods = {}    # required methods the code does not have (merged into their callers)

  def by_qual(self, qual):
    if qual in self.extra:
      return self.extra[qual]
    mod, name = qual.split(":")
    m = self.modules[mod]
    if "." in name:
      c, meth = name.split(".")
      return m.classes[c].methods.get(meth) or self.find_method(m.classes[c].qual, meth)
    return m.funcs[name]

  def never_changed(self, a):
    """no value of a field called `a` is changed in place anywhere"""
    if self._changed is None:
      self._changed = set()
      for m in self.modules.values():
        for n in ast.walk(m.tree):
          ts = []
          if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            ts = [n.value]
          elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            ts = [n.func.value]
          elif isinstance(n, ast.AugAssign):
            ts = [n.target]
          elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            ts = [n.value]
          for t in ts:
            self._changed |= {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)}
    return a not in self._changed

  def returns_bool(self, qual):
    """does every call of the function give True or False"""
    c = self.__dict__.setdefault("_rb", {})
    if qual not in c:
      c[qual] = False
      f = self.func(qual, required=False) if ":" in str(qual) else None
      c[qual] = f is not None and _bool_function(f.node)
    return c[qual]

  def method_returns_bool(self, name):
    c = self.__dict__.setdefault("_mrb", {})
    if name not in c:
      ms = self.methods_named(name)
      c[name] = bool(ms) and all(_bool_function(f.node) for f in ms)
    return c[name]

  def methods_named(self, name):
    if not hasattr(self, "_mindex"):
      self._mindex = {}
      for f in self.all_funcs():
        if f.cls:
          self._mindex.setdefault(f.name, []).append(f)
    return self._mindex.get(name, [])

  def all_funcs(self):
    for m in self.modules.values():
      for f in m.funcs.values():
        yield f
      for c in m.classes.values():
        for f in c.methods.values():
          yield f


_prog = None


def program():
  global _prog
  if _prog is None:
    _prog = Program()
    from . import terms
    terms.COUNTERS = _prog.counters()
    terms.OBJECTS = _prog.object_fields()
    terms.NUMBERS = _prog.number_names()
    terms.MAYBE = _prog.maybe_objects()
  return _prog


def _bool_expr(e):
  if isinstance(e, ast.Constant):
    return isinstance(e.value, bool)
  if isinstance(e, ast.BoolOp):
    return all(_bool_expr(x) for x in e.values)
  if isinstance(e, ast.Compare):
    return True
  if isinstance(e, ast.UnaryOp):
    return isinstance(e.op, ast.Not)
  if isinstance(e, ast.IfExp):
    return _bool_expr(e.body) and _bool_expr(e.orelse)
  if isinstance(e, ast.Call):
    return isinstance(e.func, ast.Name) and e.func.id in ("bool", "isinstance", "any", "all")
  return False


def _ends(body):
  if not body:
    return False
  s = body[-1]
  if isinstance(s, (ast.Return, ast.Raise)):
    return True
  if isinstance(s, ast.If):
    return _ends(s.body) and _ends(s.orelse)
  if isinstance(s, ast.While):
    return isinstance(s.test, ast.Constant) and bool(s.test.value) and not any(isinstance(n, ast.Break) for n in ast.walk(s))
  if isinstance(s, ast.With):
    return _ends(s.body)
  return False


def _bool_function(node):
  if not isinstance(node, ast.FunctionDef):
    return False
  if isinstance(node.returns, ast.Name) and node.returns.id == "bool":
    return True
  rets = []
  def go(n):
    for x in ast.iter_child_nodes(n):
      if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        continue
      if isinstance(x, ast.Return):
        rets.append(x.value)
      if isinstance(x, (ast.Yield, ast.YieldFrom)):
        rets.append(None)
      go(x)
  go(node)
  return bool(rets) and all(r is not None and _bool_expr(r) for r in rets) and _ends(node.body)
