"""Block size search."""
WHAT = ("value-flow summaries of the block size search (trial simulations, sampling of the least compressed tape, compression "
        "measure, multiplier search) compared with specification summaries on all paths, and of the back-symbol/block construction it serves")


def check(ctx):
  ctx.options("Macro.Block_Finder")
  ctx.specfile("block size", "Macro.Block_Finder", "blockfinder.py", minimum=3)
