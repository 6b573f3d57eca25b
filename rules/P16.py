"""Children of a partial machine."""
WHAT = ("value-flow summaries of the tree-normal-form child generator and of the table edits it uses compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("children", "TM_Enum", "tm_enum.py")
