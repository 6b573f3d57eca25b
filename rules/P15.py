"""Backtracking."""
WHAT = ("value-flow summaries of the backtracking decider compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("predecessors", "Backtracking_Filter", "backtrack.py")
