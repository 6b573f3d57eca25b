"""Who may write a verdict."""
WHAT = ("value-flow summaries of the verdict writers and of every function that calls them (simulator driver and the filters) compared "
        "with specification summaries on all paths; effect query over the whole repository: no other function stores into a "
        "halting status")

import ast
from sa.flow import BASELINE
from sa.pyprog import walk_own

FLAGS = {"is_halting", "is_decided", "is_quasihalting"}
SETTERS = {"set_halting", "set_not_halting", "set_not_quasihalting", "set_inf_recur"}


def stores(node):
  """constructs that write a verdict"""
  for n in walk_own(node):
    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
    for t in ts:
      for x in ast.walk(t):
        if isinstance(x, ast.Attribute) and x.attr in FLAGS and isinstance(x.ctx, ast.Store) and "proto" != x.attr:
          yield n, ast.unparse(x)
    if isinstance(n, ast.Call):
      f = n.func
      name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
      if name in SETTERS:
        yield n, ast.unparse(f)
      if name == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value in FLAGS:
        yield n, "setattr"


def query(ctx):
  """no function but the ones compared above writes a verdict"""
  # (Quick_Sim shows the result of one run and writes no record)
  allowed = set(ctx.analysed) | {"Quick_Sim:run"}
  writers = {}
  funcs = [f for f in ctx.prog.all_funcs() if "test" not in f.module.path.lower().split("/")[-1]]
  for f in funcs:
    ctx.ok("verdict stores")
    hits = list(stores(f.node))
    if hits:
      writers[f.qual] = (f, hits)
  new = {}
  for q, (f, hits) in writers.items():
    if q in allowed:
      continue
    if BASELINE is not None and q not in BASELINE:
      new[q] = f          # a helper: judged inside its callers
      continue
    ctx.violate("verdict stores", f.loc(hits[0][0]), q, "%s writes a verdict (%s) but is not one of the deciders" % (q, hits[0][1]))
  todo = list(new.values())
  seen = set(new)
  while todo:
    g = todo.pop()
    short = g.qual.split(":")[-1].split(".")[-1]
    for f in funcs:
      if f.qual in allowed or f is g:
        continue
      for n in walk_own(f.node):
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == short or isinstance(n.func, ast.Attribute) and n.func.attr == short):
          if f.qual in BASELINE:
            ctx.violate("verdict stores", f.loc(n), f.qual, "%s writes a verdict through %s but is not one of the deciders" % (f.qual, g.qual))
          elif f.qual not in seen:
            seen.add(f.qual)
            todo.append(f)
  ctx.note_writers = sorted(writers)


PRED = '''
class TM_Record:
  def is_unknown_halting(self):
    return not self.proto.status.halt_status.is_decided
  def is_halting(self):
    assert self.proto.status.halt_status.is_decided
    return self.proto.status.halt_status.is_halting
  def is_unknown_quasihalting(self):
    return not self.proto.status.quasihalt_status.is_decided
  def is_quasihalting(self):
    assert self.proto.status.quasihalt_status.is_decided
    return self.proto.status.quasihalt_status.is_quasihalting
'''


def check(ctx):
  ctx.specfile("verdict writers", "Halting_Lib", "verdict.py", minimum=3)
  ctx.specfile("simulator verdict", "Macro_Simulator", "verdict_sim.py")
  ctx.specfile("filter verdict", "CTL_Filter", "verdict_ctl.py")
  ctx.specfile("filter verdict", "CPS_Filter", "verdict_cps.py")
  ctx.specfile("filter verdict", "CPS", "cps.py", names={"filter"})
  ctx.specfile("filter verdict", "Reverse_Engineer_Filter", "reveng.py", names={"filter"})
  ctx.specfile("filter verdict", "Backtracking_Filter", "backtrack.py", names={"backtrack"})
  ctx.specfile("filter verdict", "Lin_Recur_Detect", "linrecur.py", names={"lin_detect_not_min", "filter"})
  ctx.spec("verdict predicates", "IO.TM_Record", PRED, minimum=4)
  query(ctx)
  ctx.need("verdict stores", 200)
