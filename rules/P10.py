"""Arithmetic on tower-exponent numbers."""
WHAT = ("value-flow summaries of construction, normalisation, evaluation and every arithmetic operation of tower numbers compared "
        "with specification summaries on all paths; operator aliases; comparisons are compared with their definition by tower "
        "values, whose precision is not judged (P90)")


def check(ctx):
  ctx.specfile("tower numbers", "Exp_Int", "expint.py", minimum=30)
  ctx.specfile("integer functions", "Math", "math.py", minimum=4)
  ctx.alias("operators", "Exp_Int", "ExpInt", {"__radd__": "__add__", "__rmul__": "__mul__"})
  ctx.grounded("operators", "Exp_Int", "ExpInt")
