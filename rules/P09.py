"""Symbolic expressions, number theory helpers and closed forms."""
import ast
WHAT = ("value-flow summaries of every operation on symbolic expressions, of term and variable merging, of the closed forms of "
        "repeated sums and of the integer helper functions compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("expressions", "Algebraic_Expression", "algebra.py", minimum=30)
  ctx.specfile("integer functions", "Math", "math.py", minimum=4)
  ctx.specfile("constants", "Common", "common.py")
  ctx.specfile("repeated sums", "Macro.Proof_System", "series.py")
  ctx.alias("operators", "Algebraic_Expression", "Expression", {"__floordiv__": "__truediv__"})
  ctx.grounded("operators", "Algebraic_Expression", "Expression")
