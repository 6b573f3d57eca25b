"""Normal forms."""
WHAT = ("value-flow summaries of the renaming functions and of the normal-form searches compared with specification summaries on all paths")


def check(ctx):
  ctx.options("TNF", "LNF", "Permute")
  ctx.specfile("tree normal form", "TNF", "tnf.py")
  ctx.specfile("lexical normal form", "LNF", "lnf.py")
  ctx.specfile("start permutation", "Permute", "permute.py")
