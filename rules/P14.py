"""Unreachable halts."""
WHAT = ("value-flow summaries of the reverse-engineering decider compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("unreachable halt", "Reverse_Engineer_Filter", "reveng.py")
