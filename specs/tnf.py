def permute_table(old_tm, state_order, symbol_order, swap_dirs=False):
  state_old2new = {old: new for new, old in enumerate(state_order)}
  symbol_old2new = {old: new for new, old in enumerate(symbol_order)}
  new_tm = copy.deepcopy(old_tm)
  for new_state, old_state in enumerate(state_order):
    for new_symbol, old_symbol in enumerate(symbol_order):
      old_trans = old_tm.trans_table[old_state][old_symbol]
      if old_trans.condition == Turing_Machine.RUNNING:
        if swap_dirs:
          new_dir = Turing_Machine.other_dir(old_trans.dir_out)
        else:
          new_dir = old_trans.dir_out
        new_tm.trans_table[new_state][new_symbol] = Turing_Machine.Transition(symbol_out=symbol_old2new[old_trans.symbol_out], dir_out=new_dir, state_out=state_old2new[old_trans.state_out], condition=old_trans.condition, condition_details=old_trans.condition_details, num_base_steps=old_trans.num_base_steps, states_last_seen=None)
      else:
        assert old_trans.condition in [Turing_Machine.HALT, Turing_Machine.UNDEFINED]
        new_tm.trans_table[new_state][new_symbol] = Turing_Machine.Transition(condition=old_trans.condition, symbol_out=1, dir_out=Turing_Machine.RIGHT, state_out=Turing_Machine.Simple_Machine_State(-1), num_base_steps=1, states_last_seen=None)
  return new_tm

def to_TNF(tm, max_steps):
  state_order = [0]
  symbol_order = [0]
  unordered_states = set(range(tm.num_states)) - set(state_order)
  unordered_symbols = set(range(tm.num_symbols)) - set(symbol_order)
  swap_dirs = tm.get_trans_object(tm.init_symbol, tm.init_state).dir_out == Turing_Machine.LEFT
  sim = Direct_Simulator.DirectSimulator(tm)
  while unordered_states or unordered_symbols:
    if sim.step_num > max_steps or sim.halted:
      return None
    sim.step()
    if sim.state in unordered_states:
      state_order.append(sim.state)
      unordered_states.remove(sim.state)
    cur_symb = sim.tape.read()
    if cur_symb in unordered_symbols:
      symbol_order.append(cur_symb)
      unordered_symbols.remove(cur_symb)
    if len(unordered_states) == 1:
      state_order.append(unordered_states.pop())
    if len(unordered_symbols) == 1:
      symbol_order.append(unordered_symbols.pop())
  return permute_table(tm, state_order, symbol_order, swap_dirs)

