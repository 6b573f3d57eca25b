"""Closed position sets."""
WHAT = ("value-flow summaries of the closed-position-set decider compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("closed set", "CPS", "cps.py")
  ctx.specfile("driver", "CPS_Filter", "verdict_cps.py")
