"""Neighbours of a machine."""
WHAT = ("value-flow summaries of the enumeration of one-cell variants compared with specification summaries on all paths")

AG = {"ignore": ["add_argument", "ArgumentParser"]}
FL = {"pure": ["add_argument", "Path", "pathlib.Path"]}


def check(ctx):
  ctx.options("Adjacent")
  ctx.specfile("one-cell variants", "Adjacent", "adjacent.py", agree=AG, flow=FL, minimum=4)
