"""The enumeration driver."""
WHAT = ("value-flow summaries of the enumeration loop, of running, expanding and writing a machine and of the driver's set-up compared with specification summaries on all paths")


def check(ctx):
  ctx.options("Enumerate", "Macro_Simulator", "Macro.Simulator", "Macro.Proof_System", "Macro.Turing_Machine", "Macro.Block_Finder")
  ctx.specfile("driver", "Enumerate", "enumerate.py", agree={"ignore_heap": ["max_sim_time_s"]})
