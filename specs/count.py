def fact2(n, m):
  assert n >= m >= 0
  if n == m:
    return 1
  else:
    return n * fact2(n - 1, m)

def count(tm, allow_no_halt):
  num_undefs = 0
  has_halt = False
  max_symbol = 0
  max_state = 0
  for state_in in range(tm.num_states):
    for symbol_in in range(tm.num_symbols):
      trans = tm.get_trans_object(symbol_in=symbol_in, state_in=state_in)
      if trans.condition == Turing_Machine.UNDEFINED:
        num_undefs += 1
      elif trans.condition == Turing_Machine.HALT:
        has_halt = True
      else:
        assert trans.condition == Turing_Machine.RUNNING
        max_symbol = max(max_symbol, trans.symbol_out)
        max_state = max(max_state, trans.state_out)
  num_symbols_used = max_symbol + 1
  num_states_used = max_state + 1
  num_tms = fact2(tm.num_symbols - 2, tm.num_symbols - num_symbols_used) * fact2(tm.num_states - 2, tm.num_states - num_states_used)
  if has_halt:
    num_tms *= (2 * tm.num_states * tm.num_symbols) ** num_undefs
  else:
    this_mult = 0
    if num_undefs >= 1:
      this_mult += num_undefs * (2 * tm.num_states * tm.num_symbols) ** (num_undefs - 1)
    if allow_no_halt:
      this_mult += (2 * tm.num_states * tm.num_symbols) ** num_undefs
    num_tms *= this_mult
  return num_tms

def main():
  parser = argparse.ArgumentParser()
  parser.add_argument('tm_file', nargs='+', type=Path)
  parser.add_argument('--allow-no-halt', action='store_true')
  args = parser.parse_args()
  total = 0
  for filename in args.tm_file:
    with IO.Reader(filename) as reader:
      for tm_record in reader:
        total += count(tm_record.tm(), args.allow_no_halt)
  print(total)

