"""Which functions of the repository have no effect but console output.

A function is harmless if it stores nothing outside its own local variables
and calls only harmless things; silent if, in addition, it returns nothing.
The inference is over the syntax tree and the call graph (methods by name:
every method of that name must be harmless)."""
import ast

from .pyprog import walk_own

STR_METHODS = {"WhichOneof", "HasField", "ByteSize", "SerializeToString", "ListFields", "replace", "splitlines", "zfill", "title", "isalpha", "find", "ljust", "rjust", "center", "format", "join",
               "split", "strip", "rstrip", "lstrip", "upper", "lower", "startswith", "endswith", "isdigit", "count", "index",
               "keys", "items", "values", "get", "copy", "bit_length", "HasField", "WhichOneof", "ByteSize",
               "SerializeToString", "union", "intersection", "difference", "issubset", "total_seconds", "hex", "partition"}
FOREIGN = {"read", "write", "flush", "seek", "close", "send", "recv", "put", "readline", "acquire", "release", "start", "run", "step",
           "next", "open", "update", "append", "add", "pop", "clear", "remove", "insert", "extend", "copy"}
ALIEN = {"shuffle", "SerializeToString", "ByteSize", "HasField", "send", "recv", "Iprobe", "probe", "isend", "bcast", "Get_rank", "Get_source", "Get_tag"}
LOCAL_MUT = {"append", "extend", "add", "update", "insert", "reverse", "sort", "remove", "discard", "pop"}
BUILTINS = {"len", "range", "min", "max", "abs", "int", "isinstance", "enumerate", "zip", "sum", "any", "all", "list", "tuple",
            "hex", "bin", "oct", "divmod", "round", "sorted", "set", "dict", "str", "repr", "float", "bool", "reversed", "map", "filter", "ord", "chr", "print", "type",
            "hash", "frozenset", "round", "pow", "divmod", "getattr", "hasattr", "bytes", "callable", "issubclass", "bytearray", "slice",
            "ValueError", "TypeError", "Exception", "NotImplementedError", "KeyError", "IndexError"}
EXTERN = ("math.", "string.", "time.time", "collections.", "sys.stdout.", "sys.stderr.", "os.path.", "fractions.", "itertools.", "copy.", "textwrap.", "operator.", "functools.reduce", "pickle.loads", "pickle.dumps")

MUT_ALL = LOCAL_MUT | {"clear", "popleft", "appendleft", "setdefault"}


class Effects:
  def __init__(self, prog):
    self.prog = prog
    self.cache = None
    self.why = {}
    self.inners = {}
    self.modtab = None
    self.touchtab = {}

  def solve(self):
    """greatest fixed point"""
    fs = list(self.prog.all_funcs())
    self.cache = {f.qual: True for f in fs}
    self.selfish = {f.qual: True for f in fs if f.cls is not None}     # stores only in its own object
    pend = []
    for f in fs:
      fresh = self.locals_of(f)
      nodes = list(walk_own(f.node))
      # functions defined inside count as part of the body
      for n in list(nodes):
        if isinstance(n, ast.FunctionDef):
          nodes.extend(x for x in ast.walk(n) if x is not n)
      calls = [n for n in nodes if isinstance(n, ast.Call)]
      for own in (False, True):
        table = self.selfish if own else self.cache
        if f.qual not in table:
          continue
        if not self.local_ok(f, nodes, fresh, own):
          table[f.qual] = False
          continue
        pend.append((f, calls, fresh, own))
    change = True
    while change:
      change = False
      rest = []
      for x in pend:
        f, calls, fresh, own = x
        if all(self.call_ok(f, n, fresh, own) for n in calls):
          rest.append(x)
        else:
          (self.selfish if own else self.cache)[f.qual] = False
          if not own:
            self.why[f.qual] = [ast.unparse(n)[:80] for n in calls if not self.call_ok(f, n, fresh)][0]
          change = True
      pend = rest

  def harmless(self, f):
    if self.cache is None:
      self.solve()
    return self.cache.get(f.qual, False)

  def silent(self, f):
    if f.is_generator or not self.harmless(f):
      return False
    return not any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)
                   or isinstance(n, (ast.Raise, ast.Assert)) for n in walk_own(f.node))

  def named(self, name):
    """every method of that name is harmless (None: there is none)"""
    fs = self.prog.methods_named(name)
    if not fs:
      return None
    if name in FOREIGN:
      return False
    return all(self.harmless(f) for f in fs)

  def named_silent(self, name):
    fs = self.prog.methods_named(name)
    return bool(fs) and all(self.silent(f) for f in fs)

  def locals_of(self, f):
    """local variables bound only to fresh containers or constants"""
    node = f.node
    fresh, other = set(), set()
    for n in walk_own(node):
      if isinstance(n, ast.Assign):
        for t in n.targets:
          if isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            v = n.value
            name = ast.unparse(t)
            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "dict", "set", "bytearray", "frozenset")):
              fresh.add(name)
            else:
              other.add(name)
    return fresh - other

  def call_ok(self, f, n, fresh, own=False):
    c = n.func
    if (own or f.name == "__init__") and f.cls is not None and isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name):
      a = f.node.args.args
      if a and c.value.id == a[0].arg:
        g = self.prog.find_method(f.cls.qual, c.attr)
        if g is not None and self.selfish.get(g.qual):
          return True
    if isinstance(c, ast.Name):
      if c.id in self.inner(f):
        return True
      r = self.prog.lookup(f.module, c.id)
      if r is None and c.id in BUILTINS:
        if c.id == "print":
          for k in n.keywords:
            if k.arg == "file" and not ast.unparse(k.value).startswith("sys."):
              return False
        return True
      if r and r[0] == "ext" and any(str(r[1]).startswith(x) for x in EXTERN):
        return True
      if r and r[0] == "fn":
        g = self.prog.by_qual(r[1])
        return g is not None and not g.is_generator and self.harmless(g)
      if r and r[0] == "cls":
        return self.init_ok(r[1])
      return False
    if isinstance(c, ast.Attribute):
      t = ast.unparse(c)
      root = t.split(".")[0]
      imp = self.prog.lookup(f.module, root)
      if (any(t.startswith(x) for x in EXTERN) or t.startswith("io_pb2.") and t.count(".") == 1) and not (imp and imp[0] == "mod"):
        return True
      if isinstance(c.value, ast.Name) and imp and imp[0] == "mod":
        m = self.prog.modules.get(imp[1])
        if m and c.attr in m.classes:
          return self.init_ok(m.classes[c.attr].qual)
        g = m.funcs.get(c.attr) if m else None
        return g is not None and not g.is_generator and self.harmless(g)
      if c.attr in LOCAL_MUT and isinstance(c.value, (ast.Name, ast.Attribute)) and ast.unparse(c.value) in fresh:
        return True
      if c.attr == "copy":
        return True
      own = self.named(c.attr)
      if own is not None:
        return own
      return c.attr in STR_METHODS
    return False

  def inner(self, f):
    """names of the functions defined inside"""
    r = self.inners.get(f.qual)
    if r is None:
      r = self.inners[f.qual] = {x.name for x in walk_own(f.node) if isinstance(x, ast.FunctionDef)}
    return r

  def init_ok(self, cq):
    g = self.prog.find_method(cq, "__init__")
    return g is None or self.harmless(g)

  def local_ok(self, f, nodes, fresh, own=False):
    if f.is_generator:
      return False
    a = f.node.args
    params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    me = a.args[0].arg if (own or f.name == "__init__") and f.cls is not None and a.args else None
    if me and any(isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store) for n in nodes):
      me = None
    for n in nodes:
      if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
          continue
        if not (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in fresh):
          return False
      if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.With, ast.Import, ast.ImportFrom, ast.Delete,
                        ast.AsyncFunctionDef, ast.ClassDef)):
        return False
      if isinstance(n, ast.FunctionDef):
        params |= {x.arg for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
      if isinstance(n, ast.AugAssign):
        t = n.target
        if isinstance(t, ast.Name) and t.id in params:
          return False
        if isinstance(t, ast.Attribute) and not (isinstance(t.value, ast.Name) and t.value.id == me):
          return False
    return True


  def first_only(self, f):
    """a call changes nothing but (parts of) its first argument"""
    tab = self.__dict__.setdefault("_firsts", {})
    if f.qual in tab:
      return tab[f.qual]
    tab[f.qual] = True      # recursion: assume, then check
    tab[f.qual] = self._first_only(f)
    return tab[f.qual]

  def _first_only(self, f):
    a = f.node.args.args
    if not a or f.is_generator or f.cls is not None:
      return False
    me = a[0].arg
    def root(e):
      while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
      return e.id if isinstance(e, ast.Name) else None
    fresh = self.locals_of(f)
    for n in walk_own(f.node):
      if isinstance(n, (ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef)):
        return False
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == me:
        return False
      if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and root(n) != me:
        return False
      if isinstance(n, ast.Call):
        if self.call_ok(f, n, fresh):
          continue
        c = n.func
        if isinstance(c, ast.Attribute) and root(c) == me:
          continue
        if isinstance(c, ast.Name) and c.id[:1].isupper() and self.prog.lookup(f.module, c.id) is None:
          continue            # a built-in exception
        r = self.prog.resolve_expr(f.module, c)
        g = self.prog.by_qual(r[1]) if r and r[0] == "fn" else None
        if g is not None and n.args and root(n.args[0]) == me and self.first_only(g):
          continue
        return False
    return True

  # --- which fields a call can change ------------------------------------------
  def mods(self, f):
    """names of the fields a call of f can change (contents included), None: anything"""
    if self.modtab is None:
      self.solve_mods()
    return self.modtab.get(f.qual)

  def touched(self, f):
    """(fields looked at or changed, fields stored to) by a call of f, each with the field it is part of ("": none)"""
    if f.qual not in self.touchtab:
      seen, todo, out, put = set(), [f], set(), set()
      while todo:
        g = todo.pop()
        if g.qual in seen:
          continue
        seen.add(g.qual)
        inner = {id(n.value) for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}
        changed = set()
        for n in ast.walk(g.node):
          if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) or \
              isinstance(n, ast.Attribute) and n.attr in MUT_ALL:
            x = n.value
            while isinstance(x, ast.Subscript):
              x = x.value
            changed.add(id(x))
        for n in ast.walk(g.node):
          if isinstance(n, ast.Attribute) and (id(n) not in inner or id(n) in changed):
            k = (n.value.attr if isinstance(n.value, ast.Attribute) else "", n.attr)
            out.add(k)
            if isinstance(n.ctx, (ast.Store, ast.Del)) or id(n) in changed:
              put.add(k)
          if isinstance(n, ast.Call):
            ts = self.targets(g, n)
            if ts is None:
              # reaches no further than what it is handed
              own = [n.func.value] if isinstance(n.func, ast.Attribute) else []
              put |= {(x.value.attr if isinstance(x.value, ast.Attribute) else "", x.attr)
                      for x in own + list(n.args) + [k.value for k in n.keywords] if isinstance(x, ast.Attribute)}
              continue
            for t, _ in ts:
              todo.append(t)
              if self.mods(t) != frozenset():
                put |= {(x.value.attr if isinstance(x.value, ast.Attribute) else "", x.attr)
                        for x in list(n.args) + [k.value for k in n.keywords] if isinstance(x, ast.Attribute)}
      self.touchtab[f.qual] = frozenset(out | put), frozenset(put)
    return self.touchtab[f.qual]

  def interferes(self, f, g):
    """can f change something g looks at?"""
    w = self.mods(f)
    if w is not None and not w:
      return False
    tf, tg = self.touched(f), self.touched(g)
    for p, a in tf[1]:
      if w is None or a in w:
        for q, b in tg[0]:
          if a == b and (p == q or not p or not q) or p and b == p:
            return True
    return False

  def mods_named(self, name):
    fs = self.prog.methods_named(name)
    if not fs or name in FOREIGN:
      return None
    out = set()
    for f in fs:
      m = self.mods(f)
      if m is None:
        return None
      out |= m
    return frozenset(out)

  def solve_mods(self):
    fs = list(self.prog.all_funcs())
    own, calls = {}, {}
    for f in fs:
      own[f.qual], calls[f.qual] = self.direct_mods(f)
    tab = {q: v for q, v in own.items()}
    change = True
    while change:
      change = False
      for f in fs:
        q = f.qual
        if tab[q] is None:
          continue
        new = set(tab[q])
        for c in calls[q]:
          ts = self.targets(f, c)
          if ts is None:
            new = None
            break
          for t, fresh in ts:
            m = tab.get(t.qual)
            if m is None:
              new = None
              break
            new |= m
          if new is None:
            break
        new = frozenset(new) if new is not None else None
        if new != tab[q]:
          tab[q] = new
          change = True
    self.modtab = tab

  def direct_mods(self, f):
    """(fields stored in the body or None, calls)"""
    fresh = self.locals_of(f)
    out, calls = set(), []
    me = f.node.args.args[0].arg if f.cls is not None and f.name == "__init__" and f.node.args.args else None
    nodes = list(walk_own(f.node))
    for n in list(nodes):
      if isinstance(n, ast.FunctionDef):
        nodes.extend(x for x in ast.walk(n) if x is not n)
    if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.Lambda, ast.Await)) for n in nodes):
      return None, []
    for n in nodes:
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
        if not (me and isinstance(n.value, ast.Name) and n.value.id == me):
          out.add(n.attr)
      elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
        b = n.value
        while isinstance(b, ast.Subscript):
          b = b.value
        if isinstance(b, ast.Name) and b.id in fresh:
          continue
        if isinstance(b, ast.Attribute):
          out.add(b.attr)
          continue
        return None, []
      elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
        a = f.node.args
        if isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)):
          continue
        if n.target.id in {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}:
          return None, []
      elif isinstance(n, ast.Call):
        c = n.func
        if isinstance(c, ast.Attribute) and c.attr in MUT_ALL:
          b = c.value
          while isinstance(b, ast.Subscript):
            b = b.value
          if isinstance(b, ast.Name) and b.id in fresh:
            continue
          if isinstance(b, ast.Attribute) and not self.prog.methods_named(c.attr):
            out.add(b.attr)
            continue
          if isinstance(b, ast.Attribute):
            out.add(b.attr)
          else:
            return None, []
        if self.alien(c):
          # not one of ours: it can reach what it is handed
          for a in list(n.args) + [k.value for k in n.keywords]:
            out |= {x.attr for x in ast.walk(a) if isinstance(x, ast.Attribute)}
        calls.append(n)
    return frozenset(out), calls

  def alien(self, c):
    return isinstance(c, ast.Attribute) and c.attr in ALIEN and not self.prog.methods_named(c.attr)

  def targets(self, f, n):
    """functions a call can reach: [(function, its object is new)], None: unknown"""
    c = n.func
    if isinstance(c, ast.Name):
      if c.id in self.inner(f):
        return []
      r = self.prog.lookup(f.module, c.id)
      if r is None:
        return [] if c.id in BUILTINS or c.id in ("super", "next", "iter", "open", "deque") else None
      if r[0] == "ext":
        return [] if any(str(r[1]).startswith(x) for x in EXTERN) else None
      if r[0] == "fn":
        g = self.prog.by_qual(r[1])
        return [(g, False)] if g is not None else None
      if r[0] == "cls":
        g = self.prog.find_method(r[1], "__init__")
        return [(g, True)] if g is not None else []
      return None
    if isinstance(c, ast.Attribute):
      t = ast.unparse(c)
      root = t.split(".")[0]
      imp = self.prog.lookup(f.module, root)
      if (any(t.startswith(x) for x in EXTERN) or t.startswith("io_pb2.") and t.count(".") == 1) and not (imp and imp[0] == "mod"):
        return []
      if isinstance(c.value, ast.Name) and imp and imp[0] == "mod":
        m = self.prog.modules.get(imp[1])
        if m and c.attr in m.classes:
          g = self.prog.find_method(m.classes[c.attr].qual, "__init__")
          return [(g, True)] if g is not None else []
        g = m.funcs.get(c.attr) if m else None
        return [(g, False)] if g is not None else None
      ms = self.prog.methods_named(c.attr)
      if c.attr in MUT_ALL:
        return [(g, False) for g in ms]
      if ms and c.attr not in FOREIGN:
        return [(g, False) for g in ms]
      if c.attr in ("write", "flush"):
        # a file, or one of ours
        return [(g, False) for g in ms]
      if c.attr in STR_METHODS or self.alien(c):
        return []
      return None
    return None
