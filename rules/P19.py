"""The C++ tools."""
WHAT = ("the type-checked syntax tree of the C++ sources (from clang) is turned into value-flow summaries of tape, simulator, recurrence "
        "detector, machine tables, reader and writer, enumerators and drivers, which are compared with specification summaries on all "
        "paths; no step count or position is narrowed implicitly")

import os
import ast
from sa import cppfront, flow
from sa.pyprog import REPO, AnalysisError, walk_own


def check(ctx):
  try:
    prog, bad, narrow, widths = cppfront.program(REPO)
  except cppfront.Unsupported as e:
    raise AnalysisError(str(e))
  ctx._prog = prog
  src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "cpp.py")).read()
  # functions the translation cannot express, and those that contain them
  known = flow.BASELINE
  unclear = {"cpp:" + q for q in bad}
  names = {}
  for f in prog.all_funcs():
    names.setdefault(f.name, []).append(f.qual)
  change = True
  while change:
    change = False
    new = {q.split(":")[1].split(".")[-1] for q in unclear if q not in known}
    for f in prog.all_funcs():
      if f.qual not in unclear:
        for n in walk_own(f.node):
          if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")) in new:
            unclear.add(f.qual)
            change = True
            break
  want = []
  for n in ast.parse(src).body:
    if isinstance(n, ast.ClassDef):
      want += ["%s.%s" % (n.name, k.name) for k in n.body]
    elif isinstance(n, ast.FunctionDef):
      want.append(n.name)
  for q in want:
    if "cpp:" + q in unclear:
      ctx.undecided["cpp:" + q] = "not expressible: " + bad.get(q, "calls a function that is not")
  ctx.spec("C++", "cpp", src, names=[q for q in want if "cpp:" + q not in unclear], minimum=20,
           per={q: {"flow": {"prints": True}} for q in want if "Main" in q or "print_stats" in q or q == "EnumerateAll"})
  conversions(ctx, narrow, widths)


WIDE = ["Tape.index_start_", "Tape.index_", "DirectSimulator.step_num_",
        "LinRecurResult.steps_run", "LinRecurResult.lr_start_step", "LinRecurResult.lr_offset", "LinRecurResult.lr_period", "LinRecurResult.max_ref_config_step",
        "LinRecurEnum.max_steps_", "LinRecurEnum.max_period_", "LinRecurEnum.num_tms_total_", "LinRecurEnum.num_tms_halt_", "LinRecurEnum.num_tms_inf_",
        "LinRecurEnum.num_tms_unknown_", "LazyBeaverEnum.num_tms_total_", "LazyBeaverEnum.num_tms_halt_", "LazyBeaverEnum.max_steps_"]


def conversions(ctx, narrow, widths):
  """a 64-bit count is not cut to 32 bits; the size of a table and a letter may be"""
  for q, (a, b, loc, p) in narrow:
    ctx.ok("conversions")
    wide = a in ("long", "unsigned long", "long long", "unsigned long long")
    if wide and not cppfront.is_size(p):
      ctx.violate("conversions", "%s:%d" % (os.path.relpath(loc[0], REPO), loc[1]), "cpp:" + q, "a value of type %s is cut to %s" % (a, b))
  ctx.ok("conversions")
  for f in WIDE:
    if f in widths:
      t, loc = widths[f]
      ctx.check("64-bit counts", cppfront.INTS.get(t, 64) >= 64, "%s:%d" % (os.path.relpath(loc[0], REPO), loc[1]), "cpp:" + f,
                "%s counts steps, cells or machines and is only %d bits wide" % (f, cppfront.INTS.get(t, 0)))
