"""Record files."""
WHAT = ("value-flow summaries of the record writer and reader compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("record file", "IO.Proto", "proto.py")
