def try_tnf(tm, tnf_max_steps):
  tnf_tm = TNF.to_TNF(tm, tnf_max_steps)
  if tnf_tm:
    return tnf_tm
  return tm

def permute_start_state(tm, tnf_max_steps):
  old_start_state = 0
  symbol_order = list(range(tm.num_symbols))
  for new_start_state in range(tm.num_states):
    state_order = list(range(tm.num_states))
    state_order[new_start_state] = old_start_state
    state_order[old_start_state] = new_start_state
    perm_tm = TNF.permute_table(tm, state_order, symbol_order)
    yield try_tnf(perm_tm, tnf_max_steps)

def write_perms(tm, writer, tnf_max_steps):
  for perm_tm in permute_start_state(tm, tnf_max_steps):
    writer.write_tm(perm_tm)

