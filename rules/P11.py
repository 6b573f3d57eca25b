"""Translated cycles."""
WHAT = ("value-flow summaries of the recurrence detector, its comparisons and its start search compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("recurrence", "Lin_Recur_Detect", "linrecur.py")
