"""Time limits."""
WHAT = ("value-flow and exception-flow summaries of the timer wrapper and the alarm compared with specification summaries on all paths, including every exceptional exit")


def check(ctx):
  ctx.specfile("timer", "Macro_Simulator", "timer.py")
  ctx.specfile("alarm", "Alarm", "alarm.py")
  ctx.specfile("elapsed time", "IO.Timer", "stopwatch.py", agree={"ignore_heap": ("end_time", "elapsed_s")})
