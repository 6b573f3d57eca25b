"""Derivation of acceleration rules."""
WHAT = ("value-flow summaries of rule derivation (general simulation, failure exits, minima, differences, rule kinds) and of the "
        "rule constructors compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("rule derivation", "Macro.Proof_System", "prover.py", minimum=6)
