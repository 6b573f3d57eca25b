"""Macro machines."""
WHAT = ("value-flow summaries of the bounded inner simulation and of the block and back-symbol machines "
        "compared with specification summaries on all paths")

CONST = '''
LEFT = 0
RIGHT = 1
STAY = 2
RUNNING    = "Running"
HALT       = "Halt"
INF_REPEAT = "Inf_Repeat"
UNDEFINED  = "Undefined"
GAVE_UP   = "Gave_Up"
'''


def check(ctx):
  src = CONST
  ctx.specfile("macro machine", "Macro.Turing_Machine", "macro.py", minimum=15)
  ctx.spec("constants", "Macro.Turing_Machine", CONST + "def other_dir(dir):\n  return RIGHT if dir == LEFT else LEFT\n")
