"""Runs the rules of one property and writes evidence and findings."""
import ast
import importlib
import json
import os
import re
import sys
import time
import traceback

from .pyprog import program, AnalysisError, REPO
from .spec import spec_funcs, check_spec, check_defaults, const_term, Undecided
from .terms import show_lit, show
from . import integrity

WIDE = int(os.environ.get("SA_WIDE", "600"))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
  def __init__(self, pid, tier="quick"):
    self.pid = pid
    self.tier = tier
    self._prog = None
    self.findings = []
    self.notes = []
    self.analysed = []      # functions looked at
    self.rules = {}         # rule -> instances checked
    self.stats = {"paths": 0, "pairs": 0, "obligations": 0}
    self.assumptions = []
    self.undecided = {}     # construct -> why no answer

  @property
  def prog(self):
    if self._prog is None:
      self._prog = program()
    return self._prog

  # --- bookkeeping ----------------------------------------------------------
  def ok(self, rule, n=1):
    self.rules[rule] = self.rules.get(rule, 0) + n

  def saw(self, func):
    q = func if isinstance(func, str) else func.qual
    if q not in self.analysed:
      self.analysed.append(q)

  def violate(self, rule, where, construct, msg, detail=None):
    """construct: stable key (function or call site), never a line number"""
    self.rules.setdefault(rule, 0)
    f = {"property": self.pid, "rule": rule, "construct": construct, "where": where, "message": msg}
    if detail:
      f["detail"] = detail
    if f not in self.findings:
      self.findings.append(f)

  def options(self, *modules):
    """options mean what the rest of the program takes them for"""
    from . import options
    bad, n = options.findings(self.prog, modules)
    self.ok("options", n)
    self.stats["obligations"] += n
    for name, dest, msg, node in bad:
      self.violate("options", "%s:%d" % (self.prog.modules[name].path, node.lineno), "%s:%s" % (name, dest), "%s: %s" % (name, msg))

  def check(self, rule, cond, where, construct, msg, detail=None):
    self.ok(rule)
    if not cond:
      self.violate(rule, where, construct, msg, detail)
    return cond

  def need(self, rule, n):
    if self.rules.get(rule, 0) < n:
      raise AnalysisError("rule %s applied to %d constructs, expected at least %d" % (rule, self.rules.get(rule, 0), n))

  # --- specification rules -----------------------------------------------------
  def specfile(self, rule, modname, fname, **kw):
    return self.spec(rule, modname, open(os.path.join(VERIF, "specs", fname)).read(), **kw)

  def spec(self, rule, modname, source, flow=None, agree=None, names=None, per=None, minimum=1, alt=None):
    """every function of the specification source must agree with the code.
    Several definitions named f__alt1, f__alt2 are accepted alternatives."""
    prog = self.prog
    fs = spec_funcs(prog, modname, source)
    n = 0
    groups = {}
    base = prog.modules[modname]
    for k, e in (list(fs.values())[0].module.req.items() if fs else []):
      r = prog.lookup(base, k)
      if not r or r[0] != "gvar":
        continue
      m2, e2, multi = prog.gexpr(r[1])
      a, b = const_term(prog, m2, e2), const_term(prog, base, e)
      self.check(rule + " constants", a == b, m2.path, r[1], "constant %s is %s, must be %s" % (r[1], show(a), show(b)))
    classes = integrity.known()
    for cname in sorted({k.split(".")[0] for k in fs if "." in k}):
      r = prog.lookup(base, cname)
      c = prog.cls(r[1]) if r and r[0] == "cls" else None
      q = "%s:%s" % (modname, cname)
      if c is None or q not in classes:
        continue
      self.ok(rule + " classes")
      for what, f in integrity.class_findings(prog, c, classes[q]):
        self.violate(rule + " classes", f.loc() if f is not None else "%s:%d" % (c.module.path, c.node.lineno), c.qual, what)
    for name, sp in fs.items():
      base = re.sub(r"__alt\d+$", "", name)
      groups.setdefault(base, []).append(sp)
    for name, sps in groups.items():
      if names is not None and name not in names:
        continue
      f = prog.func("%s:%s" % (modname, name), required=False)
      if f is None or ":spec " in f.qual:
        continue      # helper of the specification, or merged into its callers
      self.saw(f)
      bad, why = integrity.function_findings(prog, f)
      if bad:
        self.violate(rule, f.loc(), f.qual, bad)
      if why:
        self.undecided[f.qual] = why
        n += 1
        continue
      for w in check_defaults(prog, f, sps[0]):
        self.violate(rule, f.loc(), f.qual, "%s: %s" % (f.qual, w))
      o = (per or {}).get(name, {})
      fl = dict(flow or {})
      fl.update(o.get("flow", {}))
      ag = dict(agree or {})
      ag.update(o.get("agree", {}))
      best = None
      open_ = None
      for sp in sps:
        if set(p for p in sp.params()) and len(sp.params()) > len(f.params()) + (1 if f.node.args.vararg else 0) + len(f.node.args.kwonlyargs):
          pass
        try:
          bad, st = check_spec(prog, f, sp, fl, ag, pre=o.get("pre"))
        except Exception as e:    # an unusual construct leaves the function undecided
          if os.environ.get("SA_DEBUG"): raise
          open_ = "%s: %s" % (type(e).__name__, str(e)[:400])
          continue
        for k in ("paths", "pairs", "obligations"):
          self.stats[k] += st[k]
        if not bad:
          best, open_ = [], None
          break
        if best is None or len(bad) < len(best):
          best = bad
      if best is None and open_:      # (one alternative with the same shape decides)
        self.undecided[f.qual] = open_
      n += 1
      self.ok(rule)
      if best:
        seen = set()
        for mm, p, s in best[:6]:
          key = mm.what
          if key in seen:
            continue
          seen.add(key)
          node = mm.node
          where = f.loc(node) if node is not None and hasattr(node, "lineno") else f.loc()
          d = []
          if p is not None:
            d.append("code path: " + p.show()[:5 * WIDE])
          if s is not None:
            d.append("required: " + s.show()[:5 * WIDE])
          self.violate(rule, where, f.qual, "%s: %s" % (f.qual, mm.what[:WIDE]), d)
          break
    if n < minimum:
      raise AnalysisError("rule %s applied to %d functions only" % (rule, n))
    return n


  def grounded(self, rule, modname, cname):
    """no operator method applies its own operator to its own operands"""
    c = self.prog.modules[modname].classes.get(cname)
    if c is None:
      return
    ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod}
    for name, f in c.methods.items():
      me = [a.arg for a in f.node.args.args]
      bad = None
      if name == "__neg__":
        bad = [n for n in ast.walk(f.node) if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Name) and n.operand.id == me[0]]
      elif name.startswith("__") and len(me) == 2:
        k = name.strip("_")
        left, right = (1, 0) if k not in ops and k[1:] in ops else (0, 1)
        op = ops.get(k) or ops.get(k[1:])
        if op is None:
          continue
        rebound = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        bad = [n for n in ast.walk(f.node) if isinstance(n, ast.BinOp) and isinstance(n.op, op)
               and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Name)
               and n.left.id == me[left] and n.right.id == me[right] and not rebound & set(me)]
      if bad is not None:
        self.check(rule, not bad, f.loc(bad[0]) if bad else f.loc(), f.qual, "%s calls itself with its own operands" % f.qual)

  def alias(self, rule, modname, cname, want):
    """operators of a class that must be other names of one of its methods
    (or methods that do the same)"""
    import ast as _ast
    c = self.prog.modules[modname].classes.get(cname)
    if c is None:
      return
    got = {}
    for n in c.node.body:
      if isinstance(n, _ast.Assign) and isinstance(n.value, _ast.Name):
        for t in n.targets:
          if isinstance(t, _ast.Name):
            got[t.id] = n.value.id
      elif isinstance(n, _ast.FunctionDef):
        got[n.name] = n.name
    for k, v in want.items():
      g = got.get(k)
      while g in got and got[g] != g:
        g = got[g]
      if g == k:
        continue      # a method of its own
      self.check(rule, g == v, c.module.path, "%s.%s" % (c.qual, k), "%s.%s is %s, must be %s" % (cname, k, g, v))


def load_known():
  try:
    return json.load(open(os.path.join(VERIF, "known_findings.json")))
  except FileNotFoundError:
    return {"known": [], "fixed": []}


def main(argv):
  pid = argv[1]
  tier = "quick"
  for a in argv[2:]:
    if a in ("quick", "thorough"):
      tier = a
  t0 = time.time()
  mod = importlib.import_module("rules." + pid)
  ctx = Ctx(pid, tier)
  evdir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
  os.makedirs(evdir, exist_ok=True)
  err = None
  try:
    mod.check(ctx)
  except AnalysisError as e:
    err = str(e)
  except RecursionError as e:
    err = "recursion limit: %s" % e
  except Exception as e:
    err = "internal: %s" % traceback.format_exc()[-600:]
  known = load_known()
  kn = [k for k in known.get("known", []) if k["property"] == pid]
  fresh, listed = [], []
  for f in ctx.findings:
    hit = [k for k in kn if k["rule"] == f["rule"] and k["construct"] == f["construct"]
           and k.get("match", "") in f["message"]]
    (listed if hit else fresh).append(f)
  total = sum(ctx.rules.values())
  ev = {
    "property": pid,
    "tier": tier,
    "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
    "level": getattr(mod, "LEVEL", "other"),
    "coverage": {
      "explanation": getattr(mod, "WHAT", (mod.__doc__ or "").strip()),
      "functions_analysed": len(ctx.analysed),
      "functions": ctx.analysed[:200],
      "rule_instances": total,
      "rules": ctx.rules,
      "paths": ctx.stats["paths"],
      "path_pairs_compared": ctx.stats["pairs"],
      "obligations": ctx.stats["obligations"],
      "undecided": ctx.undecided,
      "notes": ctx.notes,
    },
    "assumptions": getattr(mod, "ASSUME", []) + ctx.assumptions,
    "wall_s": round(time.time() - t0, 3),
    "violations": len(fresh),
  }
  if err:
    ev["coverage"]["error"] = err
  with open(os.path.join(evdir, pid + ".json"), "w") as fo:
    json.dump(ev, fo, indent=1)
  print("%s: %d functions, %d rule instances, %d paths, %d path pairs, %d obligations (%.1fs)" % (
    pid, len(ctx.analysed), total, ctx.stats["paths"], ctx.stats["pairs"], ctx.stats["obligations"], time.time() - t0))
  for k, w in ctx.undecided.items():
    print("undecided: %s: %s" % (k, w[:200]))
  for f in listed:
    print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, f["rule"], f["construct"], f["message"]))
  if fresh:
    d = os.path.join(evdir, "findings")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".json")
    with open(path, "w") as fo:
      json.dump(fresh, fo, indent=1)
    for f in fresh:
      print("%s: [%s] %s" % (f["where"], f["rule"], f["message"][:WIDE + 100]))
      for x in f.get("detail") or []:
        print("    " + x[:WIDE])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
  if err:
    print("ERROR: no answer: %s" % err)
    return 2
  if total == 0:
    print("ERROR: no rule applied")
    return 2
  return 0
