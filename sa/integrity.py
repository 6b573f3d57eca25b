"""Definitions mean what they say.

The summaries take a function for what its body computes and an object for what
its class is known to be.  That is only right while nothing wraps, replaces or
re-interprets the definitions: no foreign decorator around an analysed
function, no later assignment to its name, and no change in the special
methods through which Python gives truth, equality, copies and field access a
meaning of their own.  sa/classes.json lists the special methods, foreign
bases and decorators the specifications were written against.
"""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

# defining one of these gives a new meaning to code that does not mention it
MEANING = {"__eq__", "__ne__", "__bool__", "__getattribute__", "__setattr__", "__delattr__", "__new__", "__copy__", "__deepcopy__",
           "__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__getnewargs__", "__getnewargs_ex__"}
# whatever prints or documents
FREE = {"__init__", "__repr__", "__str__", "__doc__", "__module__", "__slots__", "__format__", "__annotations__", "__match_args__", "__class_getitem__"}
HARMLESS = {"staticmethod", "classmethod", "property", "total_ordering", "override", "final", "abstractmethod", "wraps", "contextmanager",
            "overload", "no_type_check", "dataclass", "unique", "runtime_checkable"}
CACHES = {"lru_cache", "cache", "cached_property"}
ORDER = {"__lt__", "__le__", "__gt__", "__ge__"}
KIN = {"dict": {"dict", "defaultdict", "OrderedDict", "Counter"}, "tuple": {"tuple", "NamedTuple", "namedtuple"}, "int": {"int", "IntEnum", "bool"},
       "list": {"list"}, "set": {"set"}, "Exception": {"Exception", "RuntimeError", "ValueError"}}


def last(name):
  return name.split("(")[0].split(".")[-1]


def decorators(node):
  return sorted(last(ast.unparse(d)) for d in node.decorator_list)


def facts(prog, c):
  own, deco, ext = set(), set(), set()
  for k in prog.mro(c):
    own |= {x for x in list(k.methods) + list(k.consts) if x.startswith("__") and x.endswith("__")}
    deco |= set(decorators(k.node))
    ext |= {last(b) for b in k.bases if ":" not in b and b != "object"}
  if "total_ordering" in deco and own & ORDER:
    own |= ORDER
  return own, deco, ext


def describe(prog):
  out = {}
  for m in prog.modules.values():
    for c in m.classes.values():
      own, deco, ext = facts(prog, c)
      out[c.qual] = {"special": sorted(own - FREE), "bases": sorted(ext), "decorators": sorted(deco)}
  return out


def known():
  return json.load(open(os.path.join(HERE, "classes.json")))


def tested(prog):
  """classes whose objects stand next to None: what their truth is, matters"""
  from . import terms
  out = set()
  for q in terms.MAYBE:
    f = prog.by_qual(q)
    for x in ast.walk(f.node.returns):
      if isinstance(x, (ast.Name, ast.Attribute)):
        r = prog.resolve_expr(f.module, x)
        if r and r[0] == "cls":
          out.add(r[1])
  return out


def class_findings(prog, c, base):
  """[(what, node)]"""
  own, deco, ext = facts(prog, c)
  was, wext = set(base["special"]), set(base["bases"])
  node = c.node
  for x in sorted((own & MEANING) - was):
    # a method that only says what Python does anyway changes nothing
    yield "%s gets a %s of its own" % (c.qual, x), prog.find_method(c.qual, x)
  if "__len__" in own - was and "__bool__" not in own and base.get("tested"):
    yield "%s gets a __len__, which makes empty objects false" % c.qual, prog.find_method(c.qual, "__len__")
  synth = ext - wext or "dataclass" in deco
  if not synth:
    for x in sorted(was - own):
      if x not in ("__enter__", "__exit__", "__iter__", "__next__", "__call__"):
        yield "%s no longer has %s" % (c.qual, x), None
  for b in sorted(wext):
    if b in KIN and not ext & KIN[b]:
      yield "%s is no longer a %s" % (c.qual, b), None
  for k in prog.mro(c):
    # a field with an accessor behind it
    for name, f in k.methods.items():
      if any(last(ast.unparse(d)) == "setter" for d in f.node.decorator_list):
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        plain = len(body) == 1 and isinstance(body[0], ast.Assign) and isinstance(body[0].targets[0], ast.Attribute) \
          and isinstance(body[0].value, ast.Name) and body[0].value.id == f.node.args.args[-1].arg
        if not plain:
          yield "writing %s.%s runs other code" % (c.qual, name), f


def mutable_reads(prog, f):
  """fields the method reads that are written after construction"""
  if f.cls is None or not f.node.args.args:
    return set()
  me = f.node.args.args[0].arg
  reads = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load)}
  out = set()
  for m in prog.modules.values():
    for n in ast.walk(m.tree):
      if isinstance(n, ast.FunctionDef) and n.name != "__init__":
        for x in ast.walk(n):
          if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in reads:
            out.add(x.attr)
          elif isinstance(x, (ast.Subscript,)) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and x.value.attr in reads:
            out.add(x.value.attr)
  return out


def function_findings(prog, f):
  """(violation or None, reason to leave it undecided or None)"""
  if f.qual in getattr(prog, "rebound", {}):
    where = getattr(prog, "rebound", {})[f.qual]
    if isinstance(where, str):
      return "%s is replaced from outside at %s" % (f.qual, where), None
    return None, "%s is bound again in line %d" % (f.qual, where)
  for d in f.node.decorator_list:
    n = last(ast.unparse(d))
    if n in HARMLESS or n in ("setter", "getter", "deleter"):
      continue
    if n in CACHES:
      r = mutable_reads(prog, f)
      if r:
        return "%s is cached although it depends on %s, which changes" % (f.qual, ", ".join(sorted(r))), None
      if any(isinstance(x, (ast.Global, ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
        return "%s is cached although it is not a function of its arguments" % f.qual, None
      continue
    return None, "%s is wrapped by %s" % (f.qual, n)
  return None, None
