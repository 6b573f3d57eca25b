"""Statistics and counts."""
WHAT = ("value-flow summaries of the record statistics (every counter of every category), of the record counter with the values it "
        "prints, of the zero-reflexive split and of the count of machines a normal form stands for, compared with specification "
        "summaries on all paths")

import ast
from sa.pyprog import walk_own

AG = {"ignore": ["add_argument", "ArgumentParser"]}
FL = {"pure": ["add_argument", "Path", "pathlib.Path"]}


def check(ctx):
  ctx.options("TM_Analyze", "Count", "IO_Count", "Zero_Reflexive")
  ctx.specfile("statistics", "TM_Analyze", "analyze.py", agree=AG, flow=dict(FL, prints=True), minimum=11)
  ctx.specfile("record count", "IO_Count", "iocount.py", agree=AG, flow=dict(FL, prints=True))
  ctx.specfile("machine count", "Count", "count.py", agree=AG, flow=dict(FL, prints=True), minimum=3)
  ctx.specfile("zero reflexive", "Zero_Reflexive", "zeroref.py", agree=AG, flow=dict(FL, prints=True), minimum=2)
  formats(ctx)


def formats(ctx):
  """a field that starts as a float (the minimum of nothing is infinite) is not shown with an integer format"""
  m = ctx.prog.modules["TM_Analyze"]
  fields = set()
  for c in m.classes.values():
    init = c.methods.get("__init__")
    for n in walk_own(init.node) if init is not None else ():
      if isinstance(n, ast.Assign) and (ast.unparse(n.value) in ("math.inf", "-math.inf") or ast.unparse(n.value).startswith("float(")
                                        or isinstance(n.value, ast.Constant) and isinstance(n.value.value, float)):
        fields |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}

  def go(n, f, guarded):
    if isinstance(n, (ast.If, ast.IfExp)):
      guarded = True
    if isinstance(n, ast.FormattedValue):
      ctx.ok("number formats")
      spec = n.format_spec
      last = spec.values[-1].value if spec is not None and spec.values and isinstance(spec.values[-1], ast.Constant) else ""
      if isinstance(n.value, ast.Attribute) and n.value.attr in fields and last.endswith(("d", "x", "b", "o", "c")) and not guarded:
        ctx.violate("number formats", f.loc(n.value), f.qual + " " + ast.unparse(n.value),
                    "%s may still be the float it was initialised with, which format code %r rejects" % (ast.unparse(n.value), last))
    for k in ast.iter_child_nodes(n):
      go(k, f, guarded)

  for c in m.classes.values():
    for f in c.methods.values():
      go(f.node, f, False)
