class Basic_LIFO_Work_Queue:
  def __init__(self):
    self.queue = []
    self.size_queue = 0
    self.min_queue = 0
    self.max_queue = 0

  def pop_job(self):
    self.save_stats()
    if self.queue:
      return self.queue.pop()
    else:
      return None

  def push_job(self, job):
    self.save_stats()
    return self.queue.append(job)

  def push_jobs(self, jobs):
    self.save_stats()
    return self.queue.extend(jobs)

class Basic_FIFO_Work_Queue:
  def __init__(self):
    self.queue = collections.deque()

  def pop_job(self):
    if self.queue:
      return self.queue.popleft()
    else:
      return None

  def push_job(self, job):
    return self.queue.append(job)

  def push_jobs(self, jobs):
    return self.queue.extend(jobs)

