"""Stored numbers."""
WHAT = ("value-flow summaries of the number encoders and decoders compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("stored numbers", "Halting_Lib", "bigint.py")
