"""Specification functions.

A specification is a set of Python function definitions (never executed) that
state, in the vocabulary of the repository, what a function has to compute.
It is analysed by the same value-flow analysis as the code, in the name space
of the module it describes, and the two summaries must agree (equiv.py).
"""
import ast

from .desugar import desugar
import copy

from .pyprog import Func, Class, Module, AnalysisError
from .flow import Flow, MUTATORS, PLAIN
from .equiv import Agree


class Undecided(Exception):
  """the analysis cannot relate the code to the specification"""


class SpecModule(Module):
  pass


def const_term(prog, module, expr):
  """term of a constant expression in the name space of a module"""
  n = ast.parse("def _():\n  return 0").body[0]
  n.body[0].value = expr
  ps = Flow(prog).analyse(Func(module.name + ":spec const", n, module))
  return ps[0].value if len(ps) == 1 else None


def defaults(func):
  a = func.node.args
  pos = a.posonlyargs + a.args
  d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
  d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
  order = [x.arg for x in pos]
  return order, d


def check_defaults(prog, func, spec):
  """a default value fixed by the specification must be the one of the code"""
  co, cd = defaults(func)
  so, sd = defaults(spec)
  bad = []
  for k, v in sd.items():
    n = k
    if k in so and so.index(k) < len(co):
      n = co[so.index(k)]
    if n not in cd:
      bad.append("parameter %s has no default" % n)
      continue
    a, b = const_term(prog, func.module, cd[n]), const_term(prog, spec.module, v)
    if a != b:
      bad.append("default of parameter %s is %s, must be %s" % (n, ast.unparse(cd[n]), ast.unparse(v)))
  return bad


def spec_funcs(prog, modname, source):
  """qualified name -> Func, resolved like module `modname` plus the imports
  and helpers of the specification itself"""
  base = prog.modules.get(modname)
  if base is None:
    raise AnalysisError("anchor module %s not found" % modname)
  tree = desugar(ast.parse(source))
  m = SpecModule(modname, "spec:" + modname, tree)
  m.funcs = dict(base.funcs)
  m.classes = dict(base.classes)
  m.imports = dict(base.imports)
  m.consts = dict(base.consts)
  m.multi = set(base.multi)
  own = Module(modname, "spec", tree)
  prog._scan(own, [n for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))])
  m.imports.update(own.imports)
  m.req = {}
  out = {}
  for n in tree.body:
    if isinstance(n, ast.FunctionDef):
      f = Func("%s:%s" % (modname, n.name), n, m)
      out[n.name] = f
      if n.name not in m.funcs:
        f.qual = "%s:spec %s" % (modname, n.name)
        m.funcs[n.name] = f
        prog.extra[f.qual] = f
    elif isinstance(n, ast.ClassDef):
      c = base.classes.get(n.name)
      for k in n.body:
        if isinstance(k, ast.FunctionDef):
          f = Func("%s:%s.%s" % (modname, n.name, k.name), k, m, c)
          out["%s.%s" % (n.name, k.name)] = f
          if c is not None and prog.find_method(c.qual, k.name) is None:
            f.qual = "%s:spec %s.%s" % (modname, n.name, k.name)
            prog.extra[f.qual] = f
            prog.extra_methods[(c.qual, k.name)] = f
    elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
      m.req[n.targets[0].id] = n.value
  m.spec = out
  return out


def rename_params(func, spec):
  """terms for the parameters of the code in the names of the specification"""
  a, b = func.node.args, spec.node.args
  pa = [x.arg for x in a.posonlyargs + a.args]
  pb = [x.arg for x in b.posonlyargs + b.args]
  args = {}
  for x, y in zip(pa, pb):
    if x != y:
      args[x] = ("sym", y)
  return args


LOOPY = {"any", "all", "sum", "map", "filter", "reduce", "next", "join", "accumulate", "product", "chain", "extend", "update", "starmap",
         "takewhile", "dropwhile", "fromkeys", "count", "index", "find", "setdefault", "defaultdict", "zip", "repeat", "islice"}


LIBRARY = {("math", "gcd"), ("math", "lcm"), ("math", "isqrt"), ("math", "prod"), ("itertools", "groupby"), ("collections", "Counter")}


def shape(prog, func, inlined):
  """how a function iterates: numbers of for loops, while loops and implicit loops"""
  f = w = c = 0
  nodes = [func.node]
  for q in inlined:
    g = prog.func(q, required=False) or prog.extra.get(q)
    if g is not None and g.node is not func.node:
      nodes.append(g.node)
  for nd in nodes:
    for n in ast.walk(nd):
      if isinstance(n, (ast.For, ast.AsyncFor)):
        f += 1
      elif isinstance(n, ast.While):
        w += 1
      elif isinstance(n, ast.comprehension):
        c += 1
      elif isinstance(n, ast.Call):
        k = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and (n.func.value.id, k) in LIBRARY:
          c += 1
        elif k in LOOPY and not any(isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) for x in n.args):
          c += 1
  return f, w, c


def mentions(t, kinds):
  return isinstance(t, tuple) and bool(t) and (t[0] in kinds or any(mentions(x, kinds) for x in t))


def unclear(mm, p, s):
  """the two sides iterate in different ways and the disagreement involves iteration"""
  if mm.what == "different loop structure":
    return True
  for x in (p, s):
    if x is not None:
      if any(e.kind in ("loop", "loopbreak", "loopret", "loopexc") for e in x.events):
        return True
      if mentions(x.value, ("comp", "lv", "last", "idx", "concat")) or any(mentions(c[0], ("comp", "lv", "last", "idx")) for c in x.conds):
        return True
  return False


def mutated_params(func, spec):
  """parameters whose object is changed in place: [(name in the code, name in the specification)]"""
  def names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
  def changed(f):
    out, bound = set(), set()
    for n in ast.walk(f.node):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        bound.add(n.id)
      elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
        out.add(n.value.id)
      elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
        out.add(n.func.value.id)
    return out, bound
  cn, sn = names(func), names(spec)
  (cc, cb), (sc, sb) = changed(func), changed(spec)
  return [(c, s) for c, s in zip(cn, sn) if (c in cc or s in sc) and c not in cb and s not in sb]


def rotates(node):
  return any(isinstance(n, ast.While) and isinstance(n.test, ast.Constant) for n in ast.walk(node))


def check_spec(prog, func, spec, flow=None, agree=None, pre=None):
  """(disagreements, stats)"""
  return _check(prog, func, spec, flow, agree, pre, True)


def spread(vf, n, names):
  """the function with its *args as that many parameters"""
  node = copy.deepcopy(vf.node)
  var = node.args.vararg.arg
  node.args.vararg = None
  node.args.args = node.args.args + [ast.arg(x) for x in names]
  tup = ast.Assign([ast.Name(var, ast.Store())], ast.Tuple([ast.Name(x, ast.Load()) for x in names], ast.Load()))
  node.body = [ast.copy_location(tup, node.body[0])] + node.body
  ast.fix_missing_locations(node)
  return Func(vf.qual, node, vf.module, vf.cls)


def same_arity(func, spec):
  """a function that takes *args next to one with as many parameters of its own"""
  a, b = func.node.args, spec.node.args
  na, nb = len(a.posonlyargs + a.args), len(b.posonlyargs + b.args)
  if any(x.kwonlyargs or x.kwarg or x.defaults for x in (a, b)):
    return func, spec
  if a.vararg and not b.vararg and nb > na:
    return spread(func, nb - na, [x.arg for x in b.args[na:]]), spec
  if b.vararg and not a.vararg and na > nb:
    return func, spread(spec, na - nb, [x.arg for x in a.args[nb:]])
  return func, spec


def _check(prog, func, spec, flow, agree, pre, again):
  if func.cls is not None and spec.cls is not None and func.cls.qual != spec.cls.qual and any(k.qual == func.cls.qual for k in prog.mro(spec.cls)):
    # an inherited method, seen as the method of the class it serves
    func = Func(func.qual, func.node, func.module, spec.cls)
  func, spec = same_arity(func, spec)
  flow = dict(flow or {})
  flow.setdefault("asserts", False)
  cf = Flow(prog, **flow)
  sf = Flow(prog, **flow)
  sf.loop_prefix = "S"
  code = cf.analyse(func, args=rename_params(func, spec), pre=pre)
  sp = sf.analyse(spec, pre=pre)
  ag = Agree(**(agree or {}))
  ag.boolish = lambda t: cf.boolish(t) or sf.boolish(t)
  ag.params = mutated_params(func, spec)
  bad = ag.paths(code, sp)
  more = cf.left ^ sf.left if bad and again else ()
  if more and len(more) <= 4:
    # one side calls a known function and the other does not: compare with the calls written out
    try:
      r = _check(prog, func, spec, dict(flow, inline=set(flow.get("inline", ())) | more), agree, pre, False)
      if not r[0]:
        return r
    except (AnalysisError, Undecided, RecursionError, KeyError):
      pass
  if bad and again and rotates(func.node):
    PLAIN[0] = True
    try:
      r = _check(prog, func, spec, flow, agree, pre, False)
      if not r[0]:
        return r
    except (AnalysisError, Undecided, RecursionError, KeyError):
      pass
    finally:
      PLAIN[0] = False
  if bad:
    a, b = shape(prog, func, cf.inlined), shape(prog, spec, sf.inlined)
    if a != b and sum(a) >= sum(b):
      soft = [x for x in bad if unclear(*x)]
      if soft:
        raise Undecided("iterates in another way than the specification (%s, %s): %s" % (a, b, soft[0][0].what[:200]))
  return bad, {"paths": len(code), "spec_paths": len(sp), "pairs": ag.pairs, "obligations": ag.obligations, "inlined": sorted(cf.inlined)}
