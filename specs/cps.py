def block_to_str(block):
  return ''.join((str(symbol) for symbol in block))

def filter(tm, block_size, window_size, max_steps, max_iters, max_configs, max_edges, cg_result, bb_status):
  cg_result.Clear()
  graph_set = ClosedGraphSim(tm, block_size, window_size, max_steps, max_iters, max_configs, max_edges, cg_result)
  graph_set.run()
  cg_result.block_size = block_size
  cg_result.window_size = window_size
  if cg_result.success:
    Halting_Lib.set_not_halting(bb_status, io_pb2.INF_CLOSED_GRAPH)
  return graph_set

class Config:
  def __init__(self, state, dir, window, block_size, pos=None):
    self.state = state
    self.dir = dir
    self.window = tuple(window)
    self.block_size = block_size
    if pos == None:
      if dir == LEFT:
        pos = block_size - 1
      else:
        assert dir == RIGHT
        pos = len(window) - block_size
    self.pos = pos

  def get_block(self, dir, index):
    start = index * self.block_size
    end = (index + 1) * self.block_size
    if dir == RIGHT:
      start, end = (len(self.window) - end, len(self.window) - start)
    return self.window[start:end]

  def shift_front(self, new_front):
    if self.dir == LEFT:
      new_window = new_front + self.window[:len(self.window) - self.block_size]
    else:
      new_window = self.window[self.block_size:] + new_front
    return Config(self.state, self.dir, new_window, self.block_size)

  def __str__(self):
    if self.dir == LEFT:
      return f'{block_to_str(self.window[:self.pos + 1])} <{self.state} {block_to_str(self.window[self.pos + 1:])}'
    else:
      return f'{block_to_str(self.window[:self.pos])} {self.state}> {block_to_str(self.window[self.pos:])}'

  def __hash__(self):
    return hash((self.state, self.dir, self.window, self.pos))

  def __eq__(self, other):
    return self.state == other.state and self.dir == other.dir and (self.window == other.window) and (self.pos == other.pos)

class ClosedGraphSim:
  def __init__(self, tm, block_size, window_size, max_steps, max_iters, max_configs, max_edges, result):
    self.tm = tm
    self.block_size = block_size
    self.window_size = window_size
    self.max_steps = max_steps
    self.max_iters = max_iters
    self.max_configs = max_configs
    self.max_edges = max_edges
    self.result = result
    blank_block = (tm.init_symbol,) * self.block_size
    blank_window = (tm.init_symbol,) * self.window_size
    self.todo_configs = {Config(tm.init_state, RIGHT, blank_window, self.block_size)}
    self.transitions = {}
    self.continuations = {}
    for dir in DIRS:
      self.continuations[dir] = defaultdict(set)
      self.continuations[dir][blank_block].add(blank_block)

  def run(self):
    self.result.num_iters = 0
    while True:
      self.result.num_iters += 1
      while self.todo_configs:
        configs = self.todo_configs
        self.todo_configs = set()
        for config in configs:
          sim_condition = self.sim_config(config)
          if sim_condition == RUNNING:
            self.update_set(config)
          elif sim_condition != INF_REPEAT:
            self.result.success = False
            return
      was_modified = False
      configs = frozenset(self.transitions.keys())
      for config in configs:
        if self.update_set(config):
          was_modified = True
      if not was_modified:
        self.result.success = True
        return
      if self.result.num_iters >= self.max_iters or self.result.num_configs >= self.max_configs or self.result.num_edges >= self.max_edges:
        self.result.success = False
        return

  def sim_config(self, old_config):
    max_steps = self.max_steps - self.result.num_steps
    trans = Turing_Machine.sim_limited(self.tm, old_config.state, old_config.window, old_config.pos, old_config.dir, max_loops=max_steps)
    if trans.condition == RUNNING:
      if trans.dir_out == LEFT:
        new_pos = -1
      else:
        assert trans.dir_out == RIGHT
        new_pos = len(trans.symbol_out)
      new_config = Config(trans.state_out, trans.dir_out, trans.symbol_out, self.block_size, new_pos)
    else:
      new_config = None
    if trans.condition == INF_REPEAT:
      self.result.found_inf_loop = True
    self.transitions[old_config] = (trans, new_config)
    self.result.num_steps += trans.num_base_steps
    return trans.condition

  def update_set(self, old_config):
    trans, new_config = self.transitions[old_config]
    was_modified = False
    if trans.condition == RUNNING:
      front_dir = trans.dir_out
      behind_dir = other_dir(trans.dir_out)
      new_behind_furthest = new_config.get_block(behind_dir, 0)
      new_behind_second_furthest = new_config.get_block(behind_dir, 1)
      if self.add_edge(behind_dir, new_behind_second_furthest, new_behind_furthest):
        was_modified = True
      old_behind_furthest = old_config.get_block(behind_dir, 0)
      for dst in self.continuations[behind_dir][old_behind_furthest]:
        if self.add_edge(behind_dir, new_behind_furthest, dst):
          was_modified = True
      old_front = old_config.get_block(trans.dir_out, 0)
      for new_front in self.continuations[front_dir][old_front]:
        next_config = new_config.shift_front(new_front)
        if self.add_config(next_config):
          was_modified = True
    return was_modified

  def add_edge(self, dir, src, dst):
    if dst not in self.continuations[dir][src]:
      self.continuations[dir][src].add(dst)
      self.result.num_edges += 1
      return True
    return False

  def add_config(self, config):
    if config not in self.transitions and config not in self.todo_configs:
      self.todo_configs.add(config)
      self.result.num_configs += 1
      return True
    return False



DIRS = (LEFT, RIGHT)
