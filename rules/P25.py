"""Batch tools."""
WHAT = ("value-flow summaries of the record loops of the batch filters, converters and splitters compared with specification "
        "summaries on all paths; options leave the values the program takes them for")

AG = {"ignore": ["add_argument", "ArgumentParser"]}
FL = {"pure": ["add_argument", "Path", "pathlib.Path"]}


def check(ctx):
  ctx.options("CTL_Filter", "CPS_Filter", "Reverse_Engineer_Filter", "Backtracking_Filter", "IO_Convert", "IO_Categorize", "IO_Sort", "IO_Sample", "Re_Sim", "IO_Find", "Find_Record", "Lin_Recur_Detect")
  for m in ("CTL_Filter", "CPS_Filter", "Reverse_Engineer_Filter", "Backtracking_Filter"):
    ctx.specfile("record loop", m, "main_%s.py" % m, agree=AG, flow=FL)
  ctx.specfile("converter", "IO_Convert", "convert.py", agree=AG, flow=FL)
  ctx.specfile("splitter", "IO_Categorize", "categorize.py", agree=AG, flow=FL)
  ctx.specfile("sorter", "IO_Sort", "sortrec.py", agree=AG, flow=FL)
  ctx.specfile("sampler", "IO_Sample", "sample.py", agree=AG, flow=FL)
  ctx.specfile("re-simulation", "Re_Sim", "resim.py", agree=AG, flow=FL, minimum=2)
  ctx.specfile("search", "IO_Find", "iofind.py", agree=AG, flow=dict(FL, prints=True))
  ctx.specfile("search", "Find_Record", "findrec.py", agree=AG, flow=dict(FL, prints=True))
