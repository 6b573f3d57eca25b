"""Work queues."""
WHAT = ("value-flow summaries of the single-process and message-passing queues compared with specification summaries on all paths, message tags pairwise distinct")


def check(ctx):
  ctx.specfile("local queue", "Work_Queue", "queue.py")
  ctx.specfile("distributed queue", "MPI_Work_Queue", "mpi.py")
  # a message is told by its tag
  tags = {}
  for k in ("PUSH_JOBS", "WAITING_FOR_POP", "POP_JOBS", "REPORT_QUEUE_SIZE", "UPDATE_MAX_QUEUE_SIZE"):
    m = ctx.prog.modules.get("MPI_Work_Queue")
    v = m.consts.get(k) if m else None
    if v is None:
      continue
    try:
      v = ctx.prog.const("MPI_Work_Queue:" + k)
    except Exception:
      continue
    ctx.check("message tags", v not in tags, m.path, "MPI_Work_Queue:" + k, "MPI_Work_Queue: %s and %s are sent with the same tag %r" % (k, tags.get(v), v))
    tags.setdefault(v, k)
