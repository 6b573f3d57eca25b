"""Closed tape languages."""
WHAT = ("value-flow summaries of the four closed-tape-language deciders compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("closed language", "CTL1", "ctl1.py")
  ctx.specfile("closed language", "CTL2", "ctl2.py")
  ctx.specfile("closed language", "CTL3", "ctl3.py")
  ctx.specfile("closed language", "CTL4", "ctl4.py")
  ctx.specfile("driver", "CTL_Filter", "verdict_ctl.py")
