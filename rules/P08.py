"""Application of acceleration rules."""
WHAT = ("value-flow summaries of rule selection and application and of the repeated functions compared with "
        "specification summaries on all paths")

CONST = """
UNPROVEN_PARITY = "Unproven parity"
NOTHING_TO_DO = "Nothing_To_Do"
APPLY_RULE = "Apply_Rule"
INF_REPEAT = "Inf_Repeat"
"""


def check(ctx):
  ctx.specfile("rule application", "Macro.Proof_System", "rules.py", minimum=8)
  ctx.specfile("repeated functions", "Macro.Rule_Func", "rule_func.py", minimum=6)
