def get_info(TTable):
  num_states = len(TTable)
  num_symbols = len(TTable[0])
  halts = []
  to_state = [[] for x in range(num_states)]
  dir_to_symbol = [[False, False] for x in range(num_symbols)]
  dir_to_symbol[0] = [True, True]
  for state_in in range(num_states):
    for symbol_in in range(num_symbols):
      symbol_out, dir_out, state_out = cell = TTable[state_in][symbol_in]
      if state_out == HALT_STATE:
        halts.append((state_in, symbol_in))
      else:
        to_state[state_out].append(((state_in, symbol_in), cell))
        dir_to_symbol[symbol_out][not dir_out] = True
  return (halts, to_state, dir_to_symbol)

def is_init_config(config):
  if config.current != 0 or config.state != 0:
    return False
  for side in config.dir:
    for symbol in side:
      if symbol != 0:
        return False
  return True

def is_possible_config(config, dir_to_symbol):
  for dir in range(2):
    for symbol in config.dir[dir]:
      if not dir_to_symbol[symbol][dir]:
        return False
  return True

def backtrack_single_halt(halt_state, halt_symbol, to_state, dir_to_symbol, steps, max_width_allowed):
  pos_configs = [Partial_Config(halt_state, halt_symbol)]
  max_width_seen = len(pos_configs)
  num_nodes = 0
  if is_init_config(pos_configs[0]):
    return BacktrackResult(success=False, halted=True, max_steps=0, max_width=max_width_seen, num_nodes=num_nodes)
  i = -1
  for i in range(steps):
    prev_configs = []
    for config in pos_configs:
      num_nodes += 1
      for addr, cell in to_state[config.state]:
        if config.applies(addr, cell):
          prev_config = config.apply_trans(addr, cell)
          if is_init_config(prev_config):
            return BacktrackResult(success=False, halted=True, max_steps=i + 1, max_width=max_width_seen, num_nodes=num_nodes)
          if is_possible_config(prev_config, dir_to_symbol):
            prev_configs.append(prev_config)
    pos_configs = prev_configs
    max_width_seen = max(max_width_seen, len(pos_configs))
    if len(pos_configs) == 0:
      return BacktrackResult(success=True, halted=False, max_steps=i + 1, max_width=max_width_seen, num_nodes=num_nodes)
    elif max_width_seen > max_width_allowed:
      break
  return BacktrackResult(success=False, halted=False, max_steps=i + 1, max_width=max_width_seen, num_nodes=num_nodes)

def backtrack_ttable(TTable, steps, max_width):
  halts, to_state, dir_to_symbol = get_info(TTable)
  combined_result = BacktrackResult(success=True, halted=False, max_steps=0, max_width=0, num_nodes=0)
  for halt_state, halt_symbol in halts:
    for symbol_out, dir_out, state_out in TTable[halt_state]:
      if state_out == halt_state:
        return BacktrackResult(success=False, halted=False, max_steps=0, max_width=0, num_nodes=0)
    result = backtrack_single_halt(halt_state, halt_symbol, to_state, dir_to_symbol, steps, max_width)
    if not result.success:
      return result
    combined_result.merge(result)
  return combined_result

def backtrack(tm_record, num_steps, max_width):
  info = tm_record.proto.filter.backtrack
  with IO.Timer(info.result):
    TTable = [[(trans.symbol_out, trans.dir_out, trans.state_out) for trans in row] for row in tm_record.tm().trans_table]
    result = backtrack_ttable(TTable, num_steps, max_width)
    info.parameters.num_steps = num_steps
    info.parameters.max_width = max_width
    info.result.success = result.success
    info.result.max_steps = result.max_steps
    info.result.max_width = result.max_width
    info.result.num_nodes = result.num_nodes
    tm_record.proto.status.quasihalt_status.is_decided = False
    if result.success:
      assert not result.halted
      Halting_Lib.set_not_halting(tm_record.proto.status, io_pb2.INF_BACKTRACK)
      return True
  return False

class Partial_Config:
  def __init__(self, state, symbol):
    self.dir = ([], [])
    self.current = symbol
    self.state = state

  def applies(self, addr, cell):
    state_in, symbol_in = addr
    symbol_out, dir_out, state_out = cell
    return len(self.dir[not dir_out]) == 0 or self.dir[not dir_out][0] == symbol_out

  def apply_trans(self, addr, cell):
    state_in, symbol_in = addr
    symbol_out, dir_out, state_out = cell
    new_config = copy.deepcopy(self)
    new_config.dir[dir_out].insert(0, new_config.current)
    if len(new_config.dir[not dir_out]) != 0:
      del new_config.dir[not dir_out][0]
    new_config.current = symbol_in
    new_config.state = state_in
    return new_config

class BacktrackResult:
  def __init__(self, success, halted, max_steps, max_width, num_nodes):
    self.success = success
    self.halted = halted
    self.max_steps = max_steps
    self.max_width = max_width
    self.num_nodes = num_nodes

  def merge(self, other):
    self.success = self.success and other.success
    self.halted = self.halted or other.halted
    self.max_steps = max(self.max_steps, other.max_steps)
    self.max_width = max(self.max_width, other.max_width)
    self.num_nodes += other.num_nodes



HALT_STATE = -1
