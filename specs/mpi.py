class MPI_Worker_Work_Queue:
  def __getstate__(self):
    d = self.__dict__.copy()
    del d["pout"]
    return d

  def __init__(self, master_proc_num, pout=sys.stdout):
    self.master = master_proc_num
    self.local_queue = []
    self.pout = pout
    self.max_queue_size = DEFAULT_MAX_LOCAL_JOBS
    self.target_queue_size = DEFAULT_TARGET_LOCAL_JOBS
    self.jobs_popped = 0
    self.jobs_pushed = 0
    self.last_report_time = time.time()
    self.report_interval = 10
    self.get_time = 0.0
    self.put_time = 0.0
    self.report_queue_time = 0.0
    self.update_max_queue_size_time = 0.0
    self.end_time = 0.0
    self.compute_time = 0.0
    self.last_stat_time = time.time()

  def pop_job(self):
    if self.local_queue:
      self._report_queue_size()
      self.jobs_popped += 1
      return self.local_queue.pop()
    else:
      self.compute_time += self.time_diff()
      comm.send(None, dest=self.master, tag=WAITING_FOR_POP)
      self.local_queue += comm.recv(source=self.master, tag=POP_JOBS)
      if self.local_queue:
        self.get_time += self.time_diff()
        self.jobs_popped += 1
        return self.local_queue.pop()
      else:
        self.end_time += self.time_diff()
        self.print_stats()
        return None

  def push_job(self, job):
    self.push_jobs([job])

  def push_jobs(self, jobs):
    self.jobs_pushed += len(jobs)
    self.local_queue += jobs
    self._update_max_queue_size()
    self._send_extra()
    self._report_queue_size()

  def _update_max_queue_size(self):
    self.compute_time += self.time_diff()
    while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
      self.max_queue_size = comm.recv(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE)
      self.target_queue_size = self.max_queue_size * 3 // 4
    self.update_max_queue_size_time += self.time_diff()

  def _send_extra(self):
    if len(self.local_queue) > self.max_queue_size:
      self.compute_time += self.time_diff()
      extra_jobs = self.local_queue[:-self.target_queue_size]
      self.local_queue = self.local_queue[-self.target_queue_size:]
      comm.send(extra_jobs, dest=self.master, tag=PUSH_JOBS)
      self.put_time += self.time_diff()

  def _report_queue_size(self):
    if time.time() - self.last_report_time > self.report_interval:
      self.compute_time += self.time_diff()
      comm.send(len(self.local_queue), dest=self.master, tag=REPORT_QUEUE_SIZE)
      self.report_queue_time += self.time_diff()
      self.last_report_time = time.time()

  def time_diff(self):
    now = time.time()
    diff = now - self.last_stat_time
    self.last_stat_time = now
    return diff

class Master:
  def __getstate__(self):
    d = self.__dict__.copy()
    del d["pout"]
    return d

  def __init__(self, pout=sys.stdout):
    self.master_queue = []
    self.pout = pout
    self.last_update_time = 0
    self.update_interval = 10
    self.waiting_time = 0.0
    self.recieving_waiting_for_pop_time = 0.0
    self.recieving_jobs_time = 0.0
    self.recieving_queue_size_time = 0.0
    self.update_max_queue_sizes_time = 0.0
    self.sending_jobs_time = 0.0
    self.last_stat_time = time.time()
    self.last_report_time = time.time()
    self.report_interval = 120

  def push_job(self, job):
    self.master_queue.append(job)

  def run_master(self):
    worker_state = [True] * num_proc
    worker_state[0] = None
    worker_queue_size = [0] * num_proc
    update_requests = [None] * num_proc
    while True:
      comm.Probe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)
      self.waiting_time += self.time_diff()
      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=WAITING_FOR_POP):
        status = MPI.Status()
        comm.recv(source=MPI.ANY_SOURCE, tag=WAITING_FOR_POP, status=status)
        rank_waiting = status.Get_source()
        worker_state[rank_waiting] = False
        worker_queue_size[rank_waiting] = 0
      self.recieving_waiting_for_pop_time += self.time_diff()
      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=PUSH_JOBS):
        self.master_queue += comm.recv(source=MPI.ANY_SOURCE, tag=PUSH_JOBS)
      self.recieving_jobs_time += self.time_diff()
      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=REPORT_QUEUE_SIZE):
        status = MPI.Status()
        size = comm.recv(source=MPI.ANY_SOURCE, tag=REPORT_QUEUE_SIZE, status=status)
        rank = status.Get_source()
        worker_queue_size[rank] = size
      self.recieving_queue_size_time += self.time_diff()
      worker_queue_size[0] = len(self.master_queue)
      max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size), MAX_NUM_JOBS_PER_BATCH)
      target_queue_size = max_queue_size * 3 // 4
      if time.time() - self.last_update_time > self.update_interval:
        for rank in range(1, num_proc):
          if update_requests[rank]:
            update_requests[rank].Cancel()
            update_requests[rank].Wait()
          update_requests[rank] = comm.isend(max_queue_size, dest=rank, tag=UPDATE_MAX_QUEUE_SIZE)
        self.last_update_time = time.time()
      self.update_max_queue_sizes_time += self.time_diff()
      if time.time() - self.last_report_time > self.report_interval:
        self.print_stats()
        self.pout.write('%r\n' % worker_queue_size)
        self.last_report_time = time.time()
      if not self.master_queue and True not in worker_state:
        for n in range(1, num_proc):
          comm.send([], dest=n, tag=POP_JOBS)
        self.print_stats()
        return True
      num_waiting = worker_state.count(False)
      if num_waiting > 0:
        queue_length = len(self.master_queue)
        num_jobs_per_batch = min(max(MIN_NUM_JOBS_PER_BATCH, queue_length // num_waiting), target_queue_size)
        increase_count = (num_jobs_per_batch + 1) * num_waiting - queue_length
        count = 0
        while self.master_queue and False in worker_state:
          jobs_block = self.master_queue[:num_jobs_per_batch]
          self.master_queue = self.master_queue[num_jobs_per_batch:]
          rank_waiting = worker_state.index(False)
          comm.send(jobs_block, dest=rank_waiting, tag=POP_JOBS)
          worker_queue_size[rank_waiting] += len(jobs_block)
          worker_state[rank_waiting] = True
          count += 1
          if count == increase_count:
            num_jobs_per_batch += 1
      self.sending_jobs_time += self.time_diff()

  def time_diff(self):
    now = time.time()
    diff = now - self.last_stat_time
    self.last_stat_time = now
    return diff

