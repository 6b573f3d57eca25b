def blank_tm_enum(num_states, num_symbols, *, first_1rb, allow_no_halt):
  quints = []
  if first_1rb:
    quints.append((0, 0, 1, 1, 1))
  tm = Turing_Machine.tm_from_quintuples(quints, states=list(range(num_states)), symbols=list(range(num_symbols)))
  return TM_Enum(tm, allow_no_halt=allow_no_halt)

class TM_Enum:
  def __init__(self, tm, *, allow_no_halt):
    self.tm = tm
    self.allow_no_halt = allow_no_halt

  def set_trans(self, *, state_in, symbol_in, symbol_out, dir_out, state_out):
    self.tm.trans_table[state_in][symbol_in] = Turing_Machine.Transition(condition=Turing_Machine.RUNNING, condition_details=None, symbol_out=symbol_out, dir_out=dir_out, state_out=Turing_Machine.Simple_Machine_State(state_out), num_base_steps=1, states_last_seen={state_in: 0})

  def set_halt_trans(self, *, state_in, symbol_in):
    self.tm.trans_table[state_in][symbol_in] = Turing_Machine.Transition(condition=Turing_Machine.HALT, condition_details=[(symbol_in, state_in)], symbol_out=1, dir_out=Turing_Machine.RIGHT, state_out=Turing_Machine.Simple_Machine_State(-1), num_base_steps=1, states_last_seen={state_in: 0})

  def enum_children(self, state_in, symbol_in):
    max_state = 0
    max_symbol = 0
    num_undefined_transitions = 0
    is_a_trans_defined = False
    for state in range(self.tm.num_states):
      for symbol in range(self.tm.num_symbols):
        trans = self.tm.get_trans_object(state_in=state, symbol_in=symbol)
        if trans.condition == Turing_Machine.UNDEFINED:
          num_undefined_transitions += 1
        else:
          is_a_trans_defined = True
          max_state = max(max_state, trans.state_out)
          max_symbol = max(max_symbol, trans.symbol_out)
    if is_a_trans_defined:
      num_dirs = 2
    else:
      num_dirs = 1
    num_states = min(self.tm.num_states, max_state + 2)
    num_symbols = min(self.tm.num_symbols, max_symbol + 2)
    if self.allow_no_halt or num_undefined_transitions > 1:
      for state_out in range(num_states):
        for symbol_out in range(num_symbols):
          for dir_out in range(2 - num_dirs, 2):
            new_tm_enum = copy.deepcopy(self)
            new_tm_enum.set_trans(state_in=state_in, symbol_in=symbol_in, symbol_out=symbol_out, dir_out=dir_out, state_out=state_out)
            yield new_tm_enum

