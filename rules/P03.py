"""Direct simulation: one step per step, head position, tape contents, halting."""
WHAT = ("value-flow summaries of every public operation of the direct tape and simulator (private helpers spliced in) "
        "compared with specification summaries on all paths")


def check(ctx):
  ctx.specfile("direct simulation", "Direct_Simulator", "direct.py",
               flow={"inline": ["_pos2index", "_index2pos", "_index_default", "_expand_tape"],
                     "pure": ["get_trans_object", "read", "count_nonzero", "pos_leftmost", "pos_rightmost"]}, minimum=10)
  ctx.spec("constants", "Common", "HALT_STATE = -1\nHALT_TRANS = (1, 1, -1)\ndef is_const(value):\n  try:\n    return value.is_const\n  except AttributeError:\n    return True\n")
