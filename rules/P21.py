"""Text forms."""
WHAT = ("value-flow summaries of text writers and readers and of the format constants compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("table text", "Macro.Turing_Machine", "tm_text.py")
  ctx.specfile("parser", "IO.TM_Record", "parse_tm.py")
  ctx.specfile("standard text", "IO.StdText", "stdtext.py")
  ctx.specfile("seed database", "IO.BBC", "bbc.py")
  ctx.specfile("simulator format", "IO.Morphett", "morphett.py")
  ctx.specfile("format selection", "IO.General", "general.py")
