"""Accelerated simulation."""
WHAT = ("value-flow summary of one accelerated step (and of construction and the seek loops) compared with a specification "
        "summary on all paths: exact step accounting, last visits, classification of the outcome")


def check(ctx):
  ctx.options("Macro.Simulator", "Macro.Proof_System", "Macro.Turing_Machine")
  ctx.specfile("simulator", "Macro.Simulator", "simulator.py", minimum=6)
