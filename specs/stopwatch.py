class Timer:
  def __init__(self, message):
    self.message = message

  def __enter__(self):
    self.start_time = time.time()
    return self

  def __exit__(self, *args):
    self.message.elapsed_time_us = int(max(time.time() - self.start_time, 0) * 1_000_000)
