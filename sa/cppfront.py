"""C++ front end: the type-checked syntax tree clang prints for /repo/cpp/src is turned into the syntax tree of an
equivalent Python module, which the value-flow analyser then treats like the rest of the program. Nothing is executed.

References and pointers become names, containers become lists and sets, unique_ptr disappears, output to a stream becomes
write calls, and copies of the classes with contents become copy() calls."""
import ast
import json
import os
import subprocess

CLANG = next((p for p in ("/usr/bin/clang++", "/usr/bin/clang++-18") if os.path.exists(p)), "clang++")
FILES = ["turing_machine", "simulator", "enumerator", "lin_recur", "lin_recur_enumerator", "lazy_beaver_enumerator", "util",
         "lr_enum", "lr_enum_continue", "lb_enum", "lb_enum_continue", "direct_sim", "direct_sim_all", "lin_recur_main"]
TRANSPARENT = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ImplicitCastExpr", "ParenExpr", "CStyleCastExpr",
               "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ConstantExpr", "CXXConstCastExpr", "CXXStdInitializerListExpr", "FullExpr"}
LIBRARY = {"now", "to_time_t", "ctime", "exit", "abort", "terminate", "stoi", "stol", "stoll", "atoi", "atol", "strcmp", "duration_cast", "toupper", "isdigit"}
METHODS = {"open", "close", "flush", "is_open", "good", "eof", "fail", "count", "find_first_of", "find", "str", "compare", "begin", "end", "write", "get", "first", "second"}
CONTENT = ("Tape", "TuringMachine", "DirectSimulator")


class Unsupported(Exception):
  pass


def dump(src, inc, flags, filt):
  cmd = [CLANG, "-std=c++17", "-w", "-I" + inc, "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt] + flags + [src]
  r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
  if r.returncode:
    raise Unsupported("clang: " + r.stderr[:300])
  s, i, out, d = r.stdout, 0, [], json.JSONDecoder()
  while True:
    while i < len(s) and s[i].isspace():
      i += 1
    if i >= len(s):
      return out
    o, i = d.raw_decode(s, i)
    out.append(o)


def number_lines(objs, main):
  """clang prints a file or line only where it changes"""
  cur = {"file": main, "line": 0}

  def loc(l):
    if not isinstance(l, dict):
      return
    for k in ("spellingLoc", "expansionLoc"):
      if k in l:
        loc(l[k])
    if "file" in l:
      cur["file"] = l["file"]
    if "line" in l:
      cur["line"] = l["line"]

  def go(n):
    if not isinstance(n, dict):
      return
    loc(n.get("loc"))
    r = n.get("range")
    if isinstance(r, dict):
      loc(r.get("begin"))
      n["@"] = (cur["file"], cur["line"])
      loc(r.get("end"))
    for k in n.get("inner", ()):
      go(k)
  for o in objs:
    go(o)


def qtype(n):
  t = n.get("type", {})
  return t.get("desugaredQualType") or t.get("qualType", "")


def bare(t):
  """a type without qualifiers, references and namespaces of the program"""
  t = t.replace("busy_beaver::", "").replace("const ", "").replace(" const", "").strip()
  while t.endswith(("&", "*", " ")):
    t = t[:-1]
  return t


def is_ref(t):
  return t.rstrip().endswith(("&", "*"))


def name_of(t):
  t = bare(t)
  return t.split("<")[0].split("::")[-1].strip()


def N(x):
  return ast.Name(id=x, ctx=ast.Load())


def A(b, x):
  return ast.Attribute(value=b, attr=x, ctx=ast.Load())


def K(v):
  return ast.Constant(value=v)


def call(f, *args):
  return ast.Call(func=N(f) if isinstance(f, str) else f, args=list(args), keywords=[])


def store(e):
  if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
    e = type(e)(**{k: getattr(e, k) for k in e._fields})
    e.ctx = ast.Store()
    return e
  raise Unsupported("assignment to " + type(e).__name__)


BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "%": ast.Mod, "<<": ast.LShift, ">>": ast.RShift, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor}
class _Found(ast.NodeTransformer):
  """s.find(x) != s.end(): x in s"""
  def visit_Compare(self, n):
    self.generic_visit(n)
    def method(e, name, k):
      return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == name and len(e.args) == k
    if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
      a, b = n.left, n.comparators[0]
      if method(b, "find", 1):
        a, b = b, a
      if method(a, "find", 1) and method(b, "end", 0) and ast.dump(a.func.value) == ast.dump(b.func.value):
        return ast.copy_location(ast.Compare(a.args[0], [ast.NotIn() if isinstance(n.ops[0], ast.Eq) else ast.In()], [a.func.value]), n)
    return n


CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}


class Unit:
  """all declarations of the program"""

  def __init__(self):
    self.classes = {}      # name -> (node, [methods], [fields], bases)
    self.funcs = {}        # (name, param types) -> (decl, body node, is method class or None)
    self.decls = {}        # id -> python name
    self.order = []
    self.overloads = {}    # (class or None, name) -> {param types}
    self.consts = []
    self.unsupported = {}
    self.narrow = []       # implicit narrowing conversions

  # -- collection --
  def collect(self, objs):
    for o in objs:
      self.ns(o)

  def ns(self, n, cls=None):
    k = n.get("kind")
    if k == "NamespaceDecl":
      for x in n.get("inner", ()):
        self.ns(x)
    elif k == "CXXRecordDecl" and n.get("completeDefinition"):
      name = n.get("name", "")
      bases = [name_of(b["type"]["qualType"]) for b in n.get("bases", ())]
      c = self.classes.setdefault(name, {"fields": [], "bases": bases, "methods": [], "node": n})
      if not c["fields"]:
        for x in n.get("inner", ()):
          if x.get("kind") == "FieldDecl":
            c["fields"].append(x)
      for x in n.get("inner", ()):
        if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and not x.get("isImplicit"):
          self.fn(x, name)
        elif x.get("kind") in ("CXXRecordDecl", "VarDecl"):
          self.ns(x)
      self.methods_by_id = getattr(self, "methods_by_id", {})
    elif k in ("FunctionDecl",):
      self.fn(n, None)
    elif k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and not n.get("isImplicit"):
      self.fn(n, self.owner(n))
    elif k == "VarDecl" and n.get("inner") and cls is None:
      if n["name"] not in [c[0] for c in self.consts]:
        self.consts.append((n["name"], n))

  def owner(self, n):
    # out-of-line definition: the class is that of the previous declaration
    return self.byid.get(n.get("previousDecl")) or self.byid.get(n.get("parentDeclContextId"))

  byid = {}

  def fn(self, n, cls):
    ps = [p for p in n.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
    sig = tuple(bare(qtype(p)) for p in ps)
    name = n["name"]
    self.byid[n["id"]] = cls
    key = (cls, name, sig)
    body = [x for x in n.get("inner", ()) if x.get("kind") == "CompoundStmt"]
    self.overloads.setdefault((cls, name), set()).add(sig)
    old = self.funcs.get(key)
    if old is None or body and not old[1]:
      if old is None:
        self.order.append(key)
      self.funcs[key] = (n, bool(body))


class Program:
  def __init__(self, objsets):
    self.u = Unit()
    self.u.byid = {}
    self.ids = {}
    for objs in objsets:
      # class of every member declaration of this translation unit
      def ids(n, cls):
        if n.get("kind") == "CXXRecordDecl" and n.get("completeDefinition"):
          cls = n.get("name")
          self.u.byid[n["id"]] = cls
        if n.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and cls:
          self.u.byid[n["id"]] = cls
        for k in n.get("inner", ()):
          if isinstance(k, dict):
            ids(k, cls)
      self.u.byid = {}
      for o in objs:
        ids(o, None)
      self.u.collect(objs)
    self.defaults = {}

  def mangled(self, cls, name, sig):
    o = self.u.overloads.get((cls, name), {sig})
    if len(o) < 2 and name != cls:
      return name
    same = [s for s in o if len(s) == len(sig)]
    if len(same) < 2:
      return "%s__%d" % (name, len(sig))
    tags = [["".join(c if c.isalnum() else "_" for c in x.split("<")[0].split("::")[-1]) for x in s] for s in same]
    mine = tags[same.index(sig)]
    k = 1
    while k < len(mine) and sum(t[:k] == mine[:k] for t in tags) > 1:
      k += 1
    return "%s__%d_%s" % (name, len(sig), "_".join(mine[:k]))

  # -- output --
  def module(self):
    body = []
    for name, n in self.u.consts:
      try:
        e = Fn(self, None).expr(n["inner"][0])
      except Unsupported:
        continue
      body.append(self.at(ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=e), n))
    per = {}
    for key in self.u.order:
      cls, name, sig = key
      n, has = self.u.funcs[key]
      if not has:
        continue
      f = self.function(cls, name, sig, n)
      if f is not None:
        per.setdefault(cls, []).append(f)
    for cls, c in self.u.classes.items():
      fs = per.pop(cls, [])
      bases = [N(b) for b in c["bases"] if b in self.u.classes]
      body.append(self.at(ast.ClassDef(name=cls, bases=bases, keywords=[], body=fs or [ast.Pass()], decorator_list=[], type_params=[]), c["node"]))
    for cls, fs in per.items():
      if cls is None:
        body += fs
    m = ast.Module(body=body, type_ignores=[])
    m = _Found().visit(m)
    ast.fix_missing_locations(m)
    return m

  def at(self, node, n):
    f, l = n.get("@", ("", 0))
    for x in ast.walk(node):
      if "lineno" in getattr(x, "_attributes", ()) and not hasattr(x, "lineno"):
        x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = l, 0, l, 0
    return node

  def function(self, cls, name, sig, n):
    ps = [p for p in n.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
    py = self.mangled(cls, name, sig)
    if n["kind"] == "CXXDestructorDecl":
      py = "destroy"
    fn = Fn(self, cls)
    fn.scan(n)
    stmts = []
    q = "%s.%s" % (cls, py) if cls else py
    try:
      if n["kind"] == "CXXConstructorDecl":
        stmts += fn.inits(n, cls)
      body = [x for x in n["inner"] if x.get("kind") == "CompoundStmt"][-1]
      stmts += fn.block(body)
    except Unsupported as e:
      self.u.unsupported[q] = str(e)
      stmts = [ast.Expr(value=call("unsupported", K(str(e))))]
    self.u.narrow += [(q, x) for x in fn.narrow]
    args = [ast.arg(arg=p.get("name", "_%d" % i)) for i, p in enumerate(ps)]
    if cls:
      args.insert(0, ast.arg(arg="self"))
    f = ast.FunctionDef(name=py, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                        body=stmts or [ast.Pass()], decorator_list=[], returns=None, type_comment=None, type_params=[])
    f.cppfile = n.get("@", ("", 0))[0]
    return self.at(f, n)


INTS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}


class Fn:
  def __init__(self, prog, cls):
    self.p = prog
    self.u = prog.u
    self.cls = cls
    self.narrow = []
    self.incs = []       # increments of the enclosing loops (None: nothing to do on continue)
    self.post = None     # increments after the current expression statement
    self.split = {}      # struct variables kept field by field

  def at(self, node, n):
    return self.p.at(node, n)

  # -- local variables of a plain struct type whose fields are assigned: one variable per field --
  def scan(self, n):
    if not isinstance(n, dict):
      return
    if n.get("kind") == "CompoundAssignOperator" or n.get("kind") == "BinaryOperator" and n.get("opcode") == "=" \
        or n.get("kind") == "UnaryOperator" and n.get("opcode") in ("++", "--"):
      l = self.peel(n["inner"][0])
      if l.get("kind") == "MemberExpr":
        b = self.peel(l["inner"][0])
        if b.get("kind") == "DeclRefExpr":
          d = b["referencedDecl"]
          t = qtype(d)
          if d["kind"] == "VarDecl" and not is_ref(t) and name_of(t) in self.u.classes and (name_of(t), name_of(t)) not in self.u.overloads:
            self.split[d["id"]] = name_of(t)
    for x in n.get("inner", ()):
      self.scan(x)

  def parts(self, tn):
    return [f["name"] for f in self.u.classes[tn]["fields"]]

  def put(self, var, tn, e):
    """assignment of a struct, field by field"""
    v = lambda k: ast.Name(id="%s__%s" % (var, k), ctx=ast.Store())
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == tn:
      vals = {k.arg: k.value for k in e.keywords}
      return [ast.Assign(targets=[v(k)], value=vals[k]) for k in self.parts(tn)]
    t = "%s__all" % var
    return [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=e)] + [ast.Assign(targets=[v(k)], value=A(N(t), k)) for k in self.parts(tn)]

  # -- statements --
  def block(self, n):
    out = []
    for x in n.get("inner", ()) if n.get("kind") == "CompoundStmt" else [n]:
      out += self.stmt(x)
    return out

  def stmt(self, n):
    k = n.get("kind")
    if not k or k == "NullStmt":
      return []
    r = getattr(self, "s_" + k, None)
    if r is not None:
      out = r(n)
    elif k.endswith(("Stmt", "Decl")):
      raise Unsupported(k)
    else:
      self.post = []
      out = self.effect(n)
      post, self.post = self.post, None
      for v, op in post:
        if len([x for s in out for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == v]) != 1:
          raise Unsupported("increment inside an expression")
        out.append(ast.AugAssign(target=ast.Name(id=v, ctx=ast.Store()), op=op, value=K(1)))
    for x in out:
      self.at(x, n)
    return out

  def s_CompoundStmt(self, n):
    return self.block(n)

  def s_DeclStmt(self, n):
    out = []
    for d in n.get("inner", ()):
      if d["kind"] in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl"):
        continue
      if d["kind"] != "VarDecl":
        raise Unsupported(d["kind"])
      t = qtype(d)
      init = [x for x in d.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Attr")]
      if init:
        v = self.expr(init[0])
        if not is_ref(t):
          v = self.copied(init[0], v)
      else:
        v = N("uninitialised")
      if d["id"] in self.split:
        out += self.put(self.var(d["name"]), self.split[d["id"]], v)
        continue
      out.append(ast.Assign(targets=[ast.Name(id=self.var(d["name"]), ctx=ast.Store())], value=v))
    return out

  def copied(self, n, v):
    return v

  def s_ReturnStmt(self, n):
    i = n.get("inner", ())
    return [ast.Return(value=self.expr(i[0]) if i else None)]

  def s_BreakStmt(self, n):
    return [ast.Break()]

  def s_ContinueStmt(self, n):
    inc = self.incs[-1] if self.incs else None
    return (self.stmt(inc) if inc else []) + [ast.Continue()]

  def s_IfStmt(self, n):
    i = list(n["inner"])
    pre = []
    if n.get("hasInit"):
      pre += self.stmt(i.pop(0))
    if n.get("hasVar"):
      pre += self.stmt(i.pop(0))
    c = self.expr(i[0])
    then = self.block(i[1])
    els = self.block(i[2]) if len(i) > 2 else []
    if not els and self.dies(then):
      return pre + [ast.If(test=c, body=[ast.Raise(exc=call("SystemExit"), cause=None)], orelse=[])]
    if not els and len(then) == 1 and isinstance(then[0], ast.Assign) and isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
      t, v, a, b = [ast.unparse(x) for x in (then[0].targets[0], then[0].value, c.left, c.comparators[0])]
      if t != v and {t, v} == {a, b}:
        big = (v == a) == isinstance(c.ops[0], (ast.Gt, ast.GtE))
        return pre + [ast.Assign(targets=then[0].targets, value=call("max" if big else "min", c.left if a == t else c.comparators[0], then[0].value))]
    return pre + [ast.If(test=c, body=then or [ast.Pass()], orelse=els)]

  def dies(self, body):
    """the program ends here"""
    if not body:
      return False
    x = body[-1]
    return isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func) in ("exit", "abort", "terminate") and \
        all(isinstance(y, ast.Expr) and isinstance(y.value, ast.Call) and ast.unparse(y.value.func) in ("print",) for y in body[:-1])

  def no(self, c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
      return c.operand
    return ast.UnaryOp(op=ast.Not(), operand=c)

  def s_WhileStmt(self, n):
    i = n["inner"]
    if n.get("hasVar"):
      raise Unsupported("declaration in while")
    self.incs.append(None)
    c, b = self.expr(i[0]), self.block(i[1])
    self.incs.pop()
    return [ast.While(test=c, body=b or [ast.Pass()], orelse=[])]

  def s_DoStmt(self, n):
    b, c = n["inner"]
    if has(b, "ContinueStmt"):
      raise Unsupported("do loop")
    self.incs.append(None)
    body = self.block(b)
    self.incs.pop()
    return [ast.While(test=K(True), body=body + [ast.If(test=self.no(self.expr(c)), body=[ast.Break()], orelse=[])], orelse=[])]

  def s_ForStmt(self, n):
    init, _, cond, inc, body = n["inner"]
    out = self.stmt(init) if init.get("kind") else []
    step = self.step(inc)
    if step and len(out) == 1 and isinstance(out[0], ast.Assign) and isinstance(out[0].targets[0], ast.Name) and init.get("kind") == "DeclStmt":
      v = out[0].targets[0].id
      c = self.expr(cond) if cond.get("kind") else None
      if v == step[0] and step[1] > 0 and isinstance(c, ast.Compare) and len(c.ops) == 1:
        lo = out[0].value
        hi = None
        if isinstance(c.left, ast.Name) and c.left.id == v:
          if isinstance(c.ops[0], ast.Lt) or isinstance(c.ops[0], ast.NotEq) and step[1] == 1:
            hi = c.comparators[0]
          elif isinstance(c.ops[0], ast.LtE):
            hi = ast.BinOp(left=c.comparators[0], op=ast.Add(), right=K(1))
        elif isinstance(c.comparators[0], ast.Name) and c.comparators[0].id == v:
          if isinstance(c.ops[0], ast.Gt):
            hi = c.left
          elif isinstance(c.ops[0], ast.GtE):
            hi = ast.BinOp(left=c.left, op=ast.Add(), right=K(1))
        if hi is not None:
          self.incs.append(None)
          b = self.block(body)
          self.incs.pop()
          if not self.assigns(b, {v} | {x.id for x in ast.walk(hi) if isinstance(x, ast.Name) and x.id != "self"}, hi):
            args = [hi] if isinstance(lo, ast.Constant) and lo.value == 0 and step[1] == 1 else [lo, hi] if step[1] == 1 else [lo, hi, K(step[1])]
            return [ast.For(target=ast.Name(id=v, ctx=ast.Store()), iter=call("range", *args), body=b or [ast.Pass()], orelse=[])]
    self.incs.append(inc if inc.get("kind") else None)
    c = self.expr(cond) if cond.get("kind") else K(True)
    b = self.block(body)
    self.incs.pop()
    b = b + (self.stmt(inc) if inc.get("kind") else [])
    return out + [ast.While(test=c, body=b or [ast.Pass()], orelse=[])]

  def assigns(self, body, names, hi):
    fields = {x.attr for x in ast.walk(hi) if isinstance(x, ast.Attribute)}
    for s in body:
      for x in ast.walk(s):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names:
          return True
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in fields:
          return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "insert", "pop", "clear", "resize", "extend") \
            and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "len" and ast.unparse(y.args[0]) == ast.unparse(x.func.value) for y in ast.walk(hi)):
          return True
    return False

  def step(self, inc):
    """(variable, step) of ++i, i += c"""
    if inc.get("kind") == "UnaryOperator" and inc.get("opcode") in ("++", "--"):
      e = self.expr(inc["inner"][0])
      if isinstance(e, ast.Name):
        return e.id, 1 if inc["opcode"] == "++" else -1
    if inc.get("kind") == "CompoundAssignOperator" and inc.get("opcode") in ("+=", "-="):
      e, c = self.expr(inc["inner"][0]), self.expr(inc["inner"][1])
      if isinstance(e, ast.Name) and isinstance(c, ast.Constant) and isinstance(c.value, int):
        return e.id, c.value if inc["opcode"] == "+=" else -c.value
    return None

  def s_CXXForRangeStmt(self, n):
    i = n["inner"]
    rng = [x for x in i if x.get("kind") == "DeclStmt" and x["inner"][0].get("name", "").startswith("__range")][0]
    var = [x for x in i if x.get("kind") == "DeclStmt" and not x["inner"][0].get("name", "").startswith("__")][0]["inner"][0]
    it = self.expr(rng["inner"][0]["inner"][0])
    self.incs.append(None)
    b = self.block(i[-1])
    self.incs.pop()
    return [ast.For(target=ast.Name(id=self.var(var["name"]), ctx=ast.Store()), iter=it, body=b or [ast.Pass()], orelse=[])]

  # -- expression statements --
  def effect(self, n):
    n = self.peel(n)
    k = n["kind"]
    if k == "BinaryOperator" and n["opcode"] == "=":
      l, r = n["inner"]
      return self.assign(l, self.expr(r))
    if k == "BinaryOperator" and n["opcode"] == ",":
      return self.effect(n["inner"][0]) + self.effect(n["inner"][1])
    if k == "CompoundAssignOperator":
      op = n["opcode"][:-1]
      l, r = n["inner"]
      return [ast.AugAssign(target=self.target(l), op=self.arith(op, n), value=self.expr(r))]
    if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
      return [ast.AugAssign(target=self.target(n["inner"][0]), op=ast.Add() if n["opcode"] == "++" else ast.Sub(), value=K(1))]
    if k == "CXXOperatorCallExpr":
      op, args = self.operator(n)
      if op == "=":
        return self.assign(args[0], self.expr(args[1]))
      if op in ("+=", "-="):
        return [ast.AugAssign(target=self.target(args[0]), op=self.arith(op[:-1], n), value=self.expr(args[1]))]
      if op in ("++", "--"):
        return [ast.AugAssign(target=self.target(args[0]), op=ast.Add() if op == "++" else ast.Sub(), value=K(1))]
      if op == "<<":
        return self.output(n)
    if k == "CallExpr":
      f = self.callee(n)
      if f == "getline":
        a = [self.expr(x) for x in n["inner"][1:]]
        return [ast.Assign(targets=[store(a[1])], value=call("getline", a[0]))]
      if f == "swap":
        a = [self.expr(x) for x in n["inner"][1:]]
        return [ast.Assign(targets=[ast.Tuple(elts=[store(a[0]), store(a[1])], ctx=ast.Store())], value=ast.Tuple(elts=[a[1], a[0]], ctx=ast.Load()))]
    if k == "CXXMemberCallExpr":
      r = self.mutation(n)
      if r is not None:
        return r
    if k == "CXXDeleteExpr":
      return []
    if k == "ConditionalOperator":
      c, a, b = n["inner"]
      return [ast.If(test=self.expr(c), body=self.effect(a) or [ast.Pass()], orelse=self.effect(b))]
    return [ast.Expr(value=self.expr(n))]

  def target(self, l):
    """where a value is stored; not through a reference or pointer to a simple variable"""
    p = self.peel(l)
    deref = False
    while p.get("kind") == "UnaryOperator" and p.get("opcode") == "*":
      deref = True
      p = self.peel(p["inner"][0])
    if p.get("kind") == "DeclRefExpr":
      t = qtype(p["referencedDecl"]).rstrip()
      if deref or t.endswith("&"):
        raise Unsupported("store through a reference")
    return store(self.expr(l))

  def assign(self, l, v):
    p = self.peel(l)
    if p.get("kind") == "DeclRefExpr" and p["referencedDecl"]["id"] in self.split:
      return self.put(self.var(p["referencedDecl"]["name"]), self.split[p["referencedDecl"]["id"]], v)
    return [ast.Assign(targets=[self.target(l)], value=v)]

  def mutation(self, n):
    """container operations that change their object"""
    m = n["inner"][0]
    if m.get("kind") != "MemberExpr":
      raise Unsupported("call through a member pointer")
    name = m["name"]
    base = m["inner"][0]
    t = bare(qtype(self.peel(base)))
    args = [x for x in n["inner"][1:] if x.get("kind") != "CXXDefaultArgExpr"]
    tn = name_of(t)
    if tn in ("vector", "deque", "basic_string", "string", "stack", "queue", "set", "unordered_set", "unique_ptr", "shared_ptr", "optional"):
      b = self.expr(base)
      a = [None if self.iterator(x) else self.expr(x) for x in args]
      def put(v):
        d = self.peel(base)
        while d.get("kind") == "UnaryOperator" and d.get("opcode") == "*":
          d = self.peel(d["inner"][0])
        if d.get("kind") == "DeclRefExpr" and is_ref(qtype(d["referencedDecl"])) and tn not in ("unique_ptr", "shared_ptr"):
          raise Unsupported("store through a reference")
        return [ast.Assign(targets=[store(b)], value=v)]
      rep = lambda v, k: ast.BinOp(left=ast.List(elts=[v], ctx=ast.Load()), op=ast.Mult(), right=k)
      if name in ("push_back", "push") and len(a) == 1:
        return [ast.Expr(value=call(A(b, "append"), a[0]))] if "string" not in tn else put(ast.BinOp(left=b, op=ast.Add(), right=call("chr", a[0])))
      if name in ("emplace_back", "emplace"):
        e = t.split("<", 1)[1] if "<" in t else ""
        if e.startswith(("std::vector", "vector")) and len(a) == 2:
          return [ast.Expr(value=call(A(b, "append"), rep(a[1], a[0])))]
        if len(a) == 1 and not e.startswith(("std::vector", "vector")) or len(a) == 1 and qtype(self.peel(args[0])).find("vector") >= 0:
          return [ast.Expr(value=call(A(b, "append"), a[0]))]
        raise Unsupported("emplace")
      if name == "pop_back" or name == "pop" and tn == "stack":
        return [ast.Expr(value=call(A(b, "pop")))]
      if name == "pop" and tn == "queue":
        return [ast.Expr(value=call(A(b, "pop"), K(0)))]
      if name == "clear" and not a:
        return [ast.Expr(value=call(A(b, "clear")))]
      if name == "insert" and tn in ("set", "unordered_set") and len(a) == 1:
        return [ast.Expr(value=call(A(b, "add"), a[0]))]
      if name == "append" and len(a) == 1 and "string" in tn:
        return [ast.AugAssign(target=store(b), op=ast.Add(), value=a[0])]
      if name == "insert" and tn in ("vector", "deque"):
        where = self.iterator(args[0])
        if where and len(args) == 3 and not self.iterator(args[1]):
          x = rep(a[2], a[1])
          return put(ast.BinOp(left=x, op=ast.Add(), right=b) if where == "begin" else ast.BinOp(left=b, op=ast.Add(), right=x))
        raise Unsupported("insert")
      if name == "erase" and "string" in tn and len(a) == 1:
        return put(ast.Subscript(value=b, slice=ast.Slice(lower=None, upper=a[0], step=None), ctx=ast.Load()))
      if name == "erase" and tn in ("set", "unordered_set") and len(a) == 1:
        return [ast.Expr(value=call(A(b, "discard"), a[0]))]
      if name == "resize" and len(a) in (1, 2):
        return [ast.Expr(value=call(A(b, "resize"), *a))]
      if name == "assign" and len(a) == 1 and "string" in tn:
        return put(a[0])
      if name == "assign" and len(a) == 2 and tn == "vector":
        return put(rep(a[1], a[0]))
      if name == "reset":
        return put(a[0] if a else K(None))
      if name in ("reserve", "shrink_to_fit"):
        return []
    return None

  def iterator(self, n):
    """begin or end of a container"""
    n = self.peel(n)
    while n.get("kind") == "CXXConstructExpr" and len(n.get("inner", ())) == 1:
      n = self.peel(n["inner"][0])
    if n.get("kind") == "CXXMemberCallExpr":
      m = n["inner"][0]
      if m.get("name") in ("begin", "cbegin"):
        return "begin"
      if m.get("name") in ("end", "cend"):
        return "end"
    return None

  def output(self, n):
    """stream << a << b"""
    parts = []
    while True:
      n = self.peel(n)
      if n["kind"] == "CXXOperatorCallExpr":
        op, args = self.operator(n)
        if op == "<<":
          parts.insert(0, args[1])
          n = args[0]
          continue
      break
    s = self.expr(n)
    t = ast.unparse(s)
    if t in ("cout", "cerr", "clog", "stdout"):
      ps = []
      for x in parts:
        e = self.piece(x)
        if e is not None:
          ps.append(e)
      return [ast.Expr(value=call("print", *ps))]
    out = []
    for x in parts:
      e = self.piece(x)
      if e is not None:
        out.append(ast.Expr(value=call(A(s, "write"), e)))
    return out

  def piece(self, n):
    p = self.peel(n)
    if p["kind"] == "DeclRefExpr" and p.get("referencedDecl", {}).get("name") in ("endl", "flush"):
      return K("\n") if p["referencedDecl"]["name"] == "endl" else None
    e = self.expr(n)
    t = bare(qtype(p))
    if p["kind"] == "CharacterLiteral":
      return K(chr(p["value"]))
    if t == "char":
      return call("chr", e)
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
      return e
    if "string" in t or t.startswith("char"):
      return e
    return call("str", e)

  # -- expressions --
  def peel(self, n):
    while True:
      if n.get("kind") in TRANSPARENT and n.get("inner"):
        inner = [x for x in n["inner"] if x.get("kind")]
        n = inner[-1] if n["kind"] != "CXXStdInitializerListExpr" else inner[0]
      elif n.get("kind") == "CXXConstructExpr" and len(n.get("inner", ())) == 1 and n.get("elidable"):
        n = n["inner"][0]
      else:
        return n

  def var(self, name):
    return name if name not in ("print", "self", "None", "True", "False", "in", "is", "not", "lambda", "pass", "from", "def", "del", "len", "str", "range", "min", "max", "chr") else name + "_v"

  def check_cast(self, n):
    if n.get("kind") in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and n.get("castKind") == "IntegralCast":
      a, b = bare(qtype(n["inner"][-1])), bare(qtype(n))
      a, b = self.real(a), self.real(b)
      if a in INTS and b in INTS and INTS[b] < INTS[a]:
        p = self.peel(n["inner"][-1])
        if p["kind"] not in ("IntegerLiteral", "CharacterLiteral"):
          self.narrow.append((a, b, n.get("@", ("", 0)), p))

  def real(self, t):
    return {"size_type": "unsigned long", "size_t": "unsigned long", "std::size_t": "unsigned long", "difference_type": "long", "State": "int", "Symbol": "int",
            "long int": "long", "int64_t": "long", "std::int64_t": "long", "int32_t": "int", "std::int32_t": "int", "uint64_t": "unsigned long"}.get(t.split("::")[-1] if t.endswith(("size_type", "difference_type")) else t, t)

  def expr(self, n):
    self.check_cast(n)
    k = n.get("kind")
    if k in TRANSPARENT:
      inner = [x for x in n["inner"] if x.get("kind")]
      if k == "CXXStdInitializerListExpr":
        return self.expr(inner[0])
      if n.get("castKind") == "PointerToBoolean":
        return ast.Compare(left=self.expr(inner[-1]), ops=[ast.IsNot()], comparators=[K(None)])
      if n.get("castKind") in ("FloatingToIntegral",):
        return call("int", self.expr(inner[-1]))
      return self.expr(inner[-1])
    m = getattr(self, "x_" + (k or ""), None)
    if m is None:
      raise Unsupported(str(k))
    return self.at(m(n), n)

  def x_IntegerLiteral(self, n):
    return K(int(n["value"]))

  def x_FloatingLiteral(self, n):
    return K(float(n["value"]))

  def x_CharacterLiteral(self, n):
    return K(int(n["value"]))

  def x_CXXBoolLiteralExpr(self, n):
    return K(bool(n["value"]))

  def x_CXXNullPtrLiteralExpr(self, n):
    return K(None)

  def x_GNUNullExpr(self, n):
    return K(None)

  def x_StringLiteral(self, n):
    try:
      return K(ast.literal_eval(n["value"]))
    except Exception:
      return K(n["value"])

  def x_CXXThisExpr(self, n):
    return N("self")

  def x_DeclRefExpr(self, n):
    d = n["referencedDecl"]
    if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
      return N(self.fname(d))
    if d["name"] == "npos":
      return K(-1)
    if d["id"] in self.split:
      tn = self.split[d["id"]]
      return ast.Call(func=N(tn), args=[], keywords=[ast.keyword(arg=k, value=N("%s__%s" % (self.var(d["name"]), k))) for k in self.parts(tn)])
    return N(self.var(d["name"]))

  def fname(self, d):
    t = d.get("type", {}).get("qualType", "")
    name = d["name"]
    o = self.u.overloads.get((None, name))
    if o and len(o) > 1:
      ps = [bare(x) for x in split_params(t)]
      for s in o:
        if [same(x) for x in s] == [same(x) for x in ps]:
          return self.p.mangled(None, name, s)
      return self.choose(None, name, ps, len(ps))
    return name

  def x_MemberExpr(self, n):
    p = self.peel(n["inner"][0])
    if p.get("kind") == "DeclRefExpr" and p["referencedDecl"].get("id") in self.split:
      return N("%s__%s" % (self.var(p["referencedDecl"]["name"]), n["name"]))
    b = self.expr(n["inner"][0])
    return A(b, n["name"])

  def x_ArraySubscriptExpr(self, n):
    a, b = n["inner"]
    return ast.Subscript(value=self.expr(a), slice=self.expr(b), ctx=ast.Load())

  def arith(self, op, n):
    if op == "/":
      t = self.real(bare(qtype(n)))
      return ast.FloorDiv() if t in INTS else ast.Div()
    if op not in BIN:
      raise Unsupported("operator " + op)
    return BIN[op]()

  def x_BinaryOperator(self, n):
    op = n["opcode"]
    if op == "=":
      l, r = [self.expr(x) for x in n["inner"]]
      if isinstance(l, ast.Name):
        return ast.NamedExpr(target=store(l), value=r)
    if op in ("=", ","):
      raise Unsupported("assignment inside an expression")
    l, r = [self.expr(x) for x in n["inner"]]
    if op in ("&&", "||"):
      return ast.BoolOp(op=ast.And() if op == "&&" else ast.Or(), values=[l, r])
    if op in CMP:
      c = CMP[op]()
      if isinstance(r, ast.Constant) and r.value is None:
        c = ast.Is() if op == "==" else ast.IsNot()
      return ast.Compare(left=l, ops=[c], comparators=[r])
    return ast.BinOp(left=l, op=self.arith(op, n), right=r)

  def x_CompoundAssignOperator(self, n):
    raise Unsupported("assignment inside an expression")

  def x_UnaryOperator(self, n):
    op = n["opcode"]
    if op in ("++", "--"):
      e = self.expr(n["inner"][0])
      if self.post is None or not n.get("isPostfix") or not isinstance(e, ast.Name):
        raise Unsupported("increment inside an expression")
      self.post.append((e.id, ast.Add() if op == "++" else ast.Sub()))
      return e
    e = self.expr(n["inner"][0])
    if op in ("*", "&", "+"):
      return e
    if op == "-":
      return K(-e.value) if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) else ast.UnaryOp(op=ast.USub(), operand=e)
    if op == "!":
      return ast.UnaryOp(op=ast.Not(), operand=e)
    if op == "~":
      return ast.UnaryOp(op=ast.Invert(), operand=e)
    raise Unsupported("operator " + op)

  def x_ConditionalOperator(self, n):
    c, a, b = [self.expr(x) for x in n["inner"]]
    return ast.IfExp(test=c, body=a, orelse=b)

  def operator(self, n):
    f = self.peel(n["inner"][0])
    name = f.get("referencedDecl", {}).get("name", "")
    return name[len("operator"):], n["inner"][1:]

  def x_CXXOperatorCallExpr(self, n):
    op, args = self.operator(n)
    if op == "[]":
      return ast.Subscript(value=self.expr(args[0]), slice=self.expr(args[1]), ctx=ast.Load())
    if op in ("*", "->") and len(args) == 1:
      return self.expr(args[0])
    if op in CMP:
      l, r = [self.expr(x) for x in args]
      c = CMP[op]()
      if isinstance(r, ast.Constant) and r.value is None:
        c = ast.Is() if op == "==" else ast.IsNot()
      return ast.Compare(left=l, ops=[c], comparators=[r])
    if op in ("+", "-", "|", "&") and len(args) == 2:
      return ast.BinOp(left=self.expr(args[0]), op=BIN[op](), right=self.expr(args[1]))
    if op == "!" and len(args) == 1:
      return ast.UnaryOp(op=ast.Not(), operand=self.expr(args[0]))
    if op == "bool":
      return self.expr(args[0])
    if op == "=" and len(args) == 2:
      l = self.expr(args[0])
      if isinstance(l, ast.Name) and not is_ref(qtype(self.peel(args[0]))) :
        return ast.NamedExpr(target=store(l), value=self.expr(args[1]))
    if op == "()":
      return call(self.expr(args[0]), *[self.expr(x) for x in args[1:]])
    raise Unsupported("operator " + op)

  def callee(self, n):
    f = self.peel(n["inner"][0])
    if f.get("kind") == "DeclRefExpr":
      return f["referencedDecl"]["name"]
    return None

  def args(self, ns):
    return [self.expr(x) for x in ns if x.get("kind") != "CXXDefaultArgExpr"]

  def x_CallExpr(self, n):
    f = self.callee(n)
    if f is None:
      raise Unsupported("indirect call")
    d = self.peel(n["inner"][0])["referencedDecl"]
    a = self.args(n["inner"][1:])
    if f in ("min", "max") and len(a) == 2:
      return call(f, *a)
    if f in ("abs", "labs", "llabs"):
      return call("abs", *a)
    if f == "to_string":
      return call("str", *a)
    if f in ("move", "forward", "ref", "cref") and len(a) == 1:
      return a[0]
    if f == "getline":
      if not isinstance(a[1], ast.Name):
        raise Unsupported("getline")
      return ast.Compare(left=ast.NamedExpr(target=ast.Name(id=a[1].id, ctx=ast.Store()), value=call("getline", a[0])), ops=[ast.IsNot()], comparators=[K(None)])
    if f in ("make_unique", "make_shared"):
      t = bare(qtype(n))
      t = t.split("<", 1)[1].rsplit(">", 1)[0] if "<" in t else t
      return self.construct(name_of(t.split(",")[0]), a, [bare(qtype(self.peel(x))) for x in n["inner"][1:]])
    if f in ("size", "ssize") and len(a) == 1:
      return call("len", a[0])
    if (None, f) not in self.u.overloads and f not in LIBRARY:
      raise Unsupported("function " + f)
    return call(self.fname(d), *a)

  def x_CXXMemberCallExpr(self, n):
    m = n["inner"][0]
    if m.get("kind") != "MemberExpr":
      raise Unsupported("call through a member pointer")
    name = m["name"]
    base = m["inner"][0]
    pb = self.peel(base)
    tn = name_of(qtype(pb))
    a = self.args(n["inner"][1:])
    b = self.expr(base)
    if tn not in self.u.classes:
      if name in ("size", "length") and not a:
        return call("len", b)
      if name == "empty" and not a:
        return ast.Compare(left=call("len", b), ops=[ast.Eq()], comparators=[K(0)])
      if name in ("top", "back") and not a:
        return ast.Subscript(value=b, slice=K(-1), ctx=ast.Load())
      if name == "front" and not a:
        return ast.Subscript(value=b, slice=K(0), ctx=ast.Load())
      if name == "at" and len(a) == 1:
        return ast.Subscript(value=b, slice=a[0], ctx=ast.Load())
      if name in ("count", "contains") and len(a) == 1 and tn in ("set", "unordered_set", "map"):
        c = ast.Compare(left=a[0], ops=[ast.In()], comparators=[b])
        return c if name == "contains" else call("int", c)
      if name in ("get", "release", "c_str", "data", "value") and not a:
        return b
      if name == "substr" and len(a) in (1, 2):
        up = None if len(a) == 1 else ast.BinOp(left=a[0], op=ast.Add(), right=a[1])
        return ast.Subscript(value=b, slice=ast.Slice(lower=a[0], upper=up, step=None), ctx=ast.Load())
      if name == "operator bool" and tn in ("unique_ptr", "shared_ptr"):
        return ast.Compare(left=b, ops=[ast.IsNot()], comparators=[K(None)])
      if name.startswith("operator "):     # conversions
        return b
      if name in ("push_back", "emplace_back", "insert", "pop", "push", "erase", "resize", "reset", "append", "clear", "emplace", "pop_back"):
        if name == "append":
          raise Unsupported("append inside an expression")
        if name not in ("insert",):
          raise Unsupported(name + " inside an expression")
      if name not in METHODS:
        raise Unsupported("method " + name)
    else:
      cls = self.owner(tn, name)
      o = self.u.overloads.get((cls, name), ())
      if len(o) > 1:
        name = self.choose(cls, name, None, len(n["inner"]) - 1)
    return call(A(b, name), *a)

  def choose(self, cls, name, types, n):
    """the overload for parameter types, or for n arguments when they are not known"""
    o = sorted(self.u.overloads.get((cls, name), ()))
    c = [s for s in o if types is not None and [same(x) for x in s] == [same(x) for x in types]]
    if len(c) != 1:
      c = [s for s in o if len(s) == n]
    if len(c) > 1 and types:
      c = [s for s in c if all(name_of(x) == name_of(y) for x, y in zip(s, types))]
    if len(c) != 1:
      raise Unsupported("overload of " + name)
    return self.p.mangled(cls, name, c[0])

  def owner(self, cls, name):
    while cls:
      if (cls, name) in self.u.overloads:
        return cls
      bs = self.u.classes.get(cls, {}).get("bases", ())
      cls = bs[0] if bs else None
    return None

  def construct(self, t, a, types):
    """an object of a class of the program"""
    if t in self.u.classes:
      if len(a) == 1 and types and name_of(types[0]) == t:
        return call(A(a[0], "copy"))
      if (t, t) in self.u.overloads:
        return call("new_" + self.choose(t, t, types, len(types)), *a)
      if not a:
        return self.struct(t, [])
    raise Unsupported("construction of " + t)

  def x_CXXConstructExpr(self, n):
    t = bare(qtype(n))
    tn = name_of(t)
    inner = [x for x in n.get("inner", ()) if x.get("kind")]
    real = [x for x in inner if x["kind"] != "CXXDefaultArgExpr"]
    if tn in self.u.classes:
      c = self.u.classes[tn]
      if (tn, tn) in self.u.overloads or tn in CONTENT:
        # arguments left to their default count too
        a = [self.expr(x) for x in real]
        if len(a) == 1 and name_of(qtype(self.peel(real[0]))) == tn:
          return call(A(a[0], "copy"))
        return call("new_" + self.choose(tn, tn, split_params(n.get("ctorType", {}).get("qualType", "")), len(inner)), *a)
      if len(real) == 1:
        return self.expr(real[0])       # copy of a plain struct
      return self.struct(tn, [])
    if tn in ("unique_ptr", "shared_ptr"):
      return self.expr(real[0]) if real else K(None)
    if "string" in tn and "stream" not in tn and "view" not in tn:
      if not real:
        return K("")
      if len(real) == 1:
        return self.expr(real[0])
      if len(real) == 2 and bare(qtype(self.peel(real[1]))) in ("char", "int"):
        return ast.BinOp(left=call("chr", self.expr(real[1])), op=ast.Mult(), right=self.expr(real[0]))
    if tn in ("vector", "deque", "stack", "queue"):
      if not real:
        return ast.List(elts=[], ctx=ast.Load())
      p = self.peel(real[0])
      if len(real) == 1 and (name_of(qtype(p)) == tn or p["kind"] == "InitListExpr"):
        e = self.expr(real[0])
        return e if isinstance(e, ast.List) else call("list", e)
      if len(real) == 2:
        return ast.BinOp(left=ast.List(elts=[self.expr(real[1])], ctx=ast.Load()), op=ast.Mult(), right=self.expr(real[0]))
    if tn in ("set", "unordered_set"):
      if not real:
        return call("set")
      return call("set", self.expr(real[0]))
    if tn == "initializer_list" and len(real) == 1:
      return self.expr(real[0])
    if len(real) == 1 and name_of(qtype(self.peel(real[0]))) == tn:
      return self.expr(real[0])
    if len(real) == 1 and tn.endswith(("iterator", "_string_view")):
      return self.expr(real[0])
    return call(tn, *[self.expr(x) for x in real])

  x_CXXTemporaryObjectExpr = x_CXXConstructExpr

  def x_CXXNewExpr(self, n):
    i = [x for x in n.get("inner", ()) if x.get("kind")]
    if not i:
      raise Unsupported("new")
    return self.expr(i[0])

  def struct(self, tn, vals):
    fs = self.u.classes[tn]["fields"]
    kw = []
    for i, f in enumerate(fs):
      if i < len(vals) and vals[i] is not None:
        v = vals[i]
      else:
        d = [x for x in f.get("inner", ()) if x.get("kind") and not x["kind"].endswith(("Attr", "Comment"))]
        if not d:
          v = N("uninitialised")
        else:
          v = self.expr(d[0])
      kw.append(ast.keyword(arg=f["name"], value=v))
    return ast.Call(func=N(tn), args=[], keywords=kw)

  def x_InitListExpr(self, n):
    t = bare(qtype(n))
    tn = name_of(t)
    inner = [x for x in n.get("inner", ())]
    if tn in self.u.classes:
      vals = []
      for x in inner:
        vals.append(None if x.get("kind") in ("CXXDefaultInitExpr", "ImplicitValueInitExpr") and x.get("kind") == "CXXDefaultInitExpr" else self.expr(x))
      return self.struct(tn, vals)
    return ast.List(elts=[self.expr(x) for x in inner if x.get("kind")], ctx=ast.Load())

  def x_ImplicitValueInitExpr(self, n):
    t = bare(qtype(n))
    if t == "bool":
      return K(False)
    if self.real(t) in INTS:
      return K(0)
    raise Unsupported("value initialisation of " + t)

  def x_CXXDefaultInitExpr(self, n):
    raise Unsupported("default initialiser")

  def x_CXXDefaultArgExpr(self, n):
    raise Unsupported("default argument")

  def x_SubstNonTypeTemplateParmExpr(self, n):
    return self.expr(n["inner"][-1])

  # -- constructors --
  def inits(self, n, cls):
    out = []
    fields = {f["name"]: f for f in self.u.classes[cls]["fields"]}
    for x in n.get("inner", ()):
      if x.get("kind") != "CXXCtorInitializer":
        continue
      if "baseInit" in x:
        base = name_of(x["baseInit"]["qualType"])
        c = self.peel(x["inner"][0])
        a = [self.expr(y) for y in c.get("inner", ()) if y.get("kind") != "CXXDefaultArgExpr"]
        out.append(ast.Expr(value=call(A(N("self"), "init_" + base), *a)))
        continue
      if "anyInit" not in x:
        raise Unsupported("delegating constructor")
      f = x["anyInit"]["name"]
      e = x["inner"][0]
      if e["kind"] == "CXXDefaultInitExpr":
        d = [y for y in fields[f].get("inner", ()) if y.get("kind") and not y["kind"].endswith(("Attr", "Comment"))]
        v = self.expr(d[0])
      else:
        v = self.expr(e)
      out.append(self.at(ast.Assign(targets=[ast.Attribute(value=N("self"), attr=f, ctx=ast.Store())], value=v), e))
    return out


def has(n, kind):
  return isinstance(n, dict) and (n.get("kind") == kind or any(has(x, kind) for x in n.get("inner", ())))


def is_size(n):
  """size() of a container"""
  while n.get("kind") in TRANSPARENT and n.get("inner"):
    n = n["inner"][-1]
  return n.get("kind") == "CXXMemberCallExpr" and n["inner"][0].get("name") in ("size", "length")


def split_params(t):
  """parameter types of a function type"""
  i = t.find("(")
  if i < 0:
    return []
  depth, cur, out = 0, "", []
  for ch in t[i + 1:]:
    if ch in "<(":
      depth += 1
    if ch in ">)":
      if ch == ")" and depth == 0:
        break
      depth -= 1
    if ch == "," and depth == 0:
      out.append(cur.strip())
      cur = ""
    else:
      cur += ch
  if cur.strip():
    out.append(cur.strip())
  return out


def same(t):
  t = bare(t).replace("std::", "").replace("TuringMachine::", "")
  return {"std::string": "basic_string<char>", "std::basic_string<char>": "basic_string<char>", "string": "basic_string<char>",
          "std::istream": "basic_istream<char>", "std::basic_istream<char>": "basic_istream<char>", "istream": "basic_istream<char>"}.get(t, t)


def load(root, flags=()):
  src = os.path.join(root, "cpp", "src")
  sets = []
  names = [f for f in FILES if os.path.exists(os.path.join(src, f + ".cpp"))]
  names += sorted(f[:-4] for f in os.listdir(src) if f.endswith(".cpp") and f[:-4] not in FILES)
  from concurrent.futures import ThreadPoolExecutor
  with ThreadPoolExecutor(8) as ex:
    res = ex.map(lambda f: dump(os.path.join(src, f + ".cpp"), src, list(flags), "busy_beaver"), names)
    has_main = [f for f in names if " main(" in open(os.path.join(src, f + ".cpp")).read()]
    mains = ex.map(lambda f: dump(os.path.join(src, f + ".cpp"), src, list(flags), "main"), has_main)
    res, mains = list(res), list(mains)
  for f, objs in zip(names, res):
    number_lines(objs, os.path.join(src, f + ".cpp"))
    sets.append(objs)
  for f, objs in zip(has_main, mains):
    number_lines(objs, os.path.join(src, f + ".cpp"))
    objs = [o for o in objs if o.get("kind") == "FunctionDecl" and o.get("name") == "main"]
    for o in objs:
      o["name"] = "main_" + f
    sets.append(objs)
  p = Program(sets)
  m = p.module()
  return p, m


def program(root, flags=()):
  """the C++ program as module "cpp" of a program model; unsupported functions; narrowing conversions"""
  from . import pyprog
  p, tree = load(root, flags)
  g = pyprog.Program.__new__(pyprog.Program)
  g.root, g.sub, g.modules = root, "cpp", {}
  g.extra, g.extra_methods = {}, {}
  m = pyprog.Module("cpp", "cpp/src", tree)
  g._scan(m, tree.body)
  g.modules["cpp"] = m
  import builtins
  for n in ast.walk(tree):      # everything else comes from the library
    if isinstance(n, ast.Name) and g.lookup(m, n.id) is None and not hasattr(builtins, n.id):
      m.imports[n.id] = ("sym", "std", n.id)
  for c in m.classes.values():
    for b in c.node.bases:
      t = g.resolve_expr(m, b)
      c.bases.append(t[1] if t and t[0] == "cls" else ast.unparse(b))
  for f in g.all_funcs():
    path = getattr(f.node, "cppfile", "")
    if path:
      f.loc = lambda node=None, f=f, path=path: "%s:%d" % (os.path.relpath(path, root), getattr(node or f.node, "lineno", 0))
  widths = {"%s.%s" % (c, f["name"]): (Fn(p, c).real(bare(qtype(f))), f.get("@", ("", 0))) for c, d in p.u.classes.items() for f in d["fields"]}
  return g, p.u.unsupported, p.u.narrow, widths


if __name__ == "__main__":
  import sys
  p, m = load(sys.argv[1] if len(sys.argv) > 1 else "/repo")
  print(ast.unparse(m))
  print("# unsupported:", p.u.unsupported)
  print("# narrowing:", [(q, a, b, l[1]) for q, (a, b, l, _) in p.u.narrow])
