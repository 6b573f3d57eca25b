def permute(old_tm, state_order, symbol_order):
  swap_dirs = old_tm.trans_table[state_order[0]][0].dir_out == Turing_Machine.RIGHT
  perm_tm = TNF.permute_table(old_tm, state_order, symbol_order, swap_dirs)
  new_start_state = state_order.index(0)
  assert new_start_state != -1
  perm_tm.init_state = Turing_Machine.Simple_Machine_State(new_start_state)
  new_start_symb = symbol_order.index(0)
  assert new_start_symb != -1
  perm_tm.init_symbol = new_start_symb
  return perm_tm

def iter_perms(xs):
  if len(xs) <= 1:
    yield xs
  else:
    for i, x in enumerate(xs):
      for sub in iter_perms(xs[:i] + xs[i + 1:]):
        yield ([x] + sub)

def brute_lnf(old_tm):
  best_str = old_tm.ttable_str()
  best_tm = old_tm
  for state_order in iter_perms(list(range(old_tm.num_states))):
    for symbol_order in iter_perms(list(range(old_tm.num_symbols))):
      perm_tm = permute(old_tm, state_order, symbol_order)
      perm_str = perm_tm.ttable_str()
      if perm_str < best_str:
        best_str = perm_str
        best_tm = perm_tm
  return best_tm

