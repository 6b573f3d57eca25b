def get_stats(tm):
  halts = []
  to_state = [[] for i in range(tm.num_states)]
  to_symbol = [[] for i in range(tm.num_symbols)]
  for state in range(tm.num_states):
    for symbol in range(tm.num_symbols):
      trans = tm.get_trans_object(symbol, state)
      if trans.condition in [Turing_Machine.HALT, Turing_Machine.UNDEFINED]:
        halts.append((state, symbol))
      else:
        assert trans.condition == Turing_Machine.RUNNING
        to_state[trans.state_out].append(((state, symbol), trans))
        to_symbol[trans.symbol_out].append(((state, symbol), trans))
  return (halts, to_state, to_symbol)

def cannot_reach_halt(halt_state, halt_symbol, to_state, to_symbol):

  def same_direction():
    _, trans = to_state[halt_state][0]
    prehalt_dir = trans.dir_out
    for _, trans in to_state[halt_state]:
      if trans.dir_out != prehalt_dir:
        return False
    for _, trans in to_symbol[halt_symbol]:
      if trans.dir_out != prehalt_dir:
        return False
    return True
  if len(to_state[halt_state]) == 0 and (halt_state, halt_symbol) != (0, 0):
    return True
  if halt_symbol != 0:
    if len(to_symbol[halt_symbol]) == 0:
      return True
    if same_direction():
      return True
  return False

def is_infinite(tm):
  halts, to_state, to_symbol = get_stats(tm)
  for halt in halts:
    if not cannot_reach_halt(*halt, to_state, to_symbol):
      return False
  return True

def filter(tm_record):
  if is_infinite(tm_record.tm()):
    tm_record.proto.filter.reverse_engineer.success = True
    Halting_Lib.set_not_halting(tm_record.proto.status, io_pb2.INF_REVERSE_ENGINEER)
    tm_record.proto.status.quasihalt_status.is_decided = False
  else:
    tm_record.proto.filter.reverse_engineer.success = False

