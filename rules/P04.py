"""Run-length tape."""
WHAT = ("value-flow summaries of every operation of the run-length tape compared with specification summaries on all paths: "
        "counts, neighbours merged, infinite end blocks never changed, copies share nothing")


def check(ctx):
  ctx.specfile("tape", "Macro.Tape", "tape.py", agree={"ignore_heap": ["num_copies"]}, minimum=10)
  ctx.spec("constants", "Macro.Tape", "INF = math.inf\ndef reverse(in_list):\n  r = list(in_list)\n  r.reverse()\n  return r\n")
