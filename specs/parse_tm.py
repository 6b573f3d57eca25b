def parse_tm(line):
  assert ' ' not in line
  quints = []
  rows = line.strip().split('_')
  num_states = len(rows)
  max_symbol = 0
  for state_in, row in enumerate(rows):
    for symbol_in, i in enumerate(range(0, len(row), 3)):
      max_symbol = max(max_symbol, symbol_in)
      trans_str = row[i:i + 3]
      assert len(trans_str) == 3
      if trans_str != '---':
        symbol_out = SYMBOLS_DISPLAY.find(trans_str[0])
        dir_out = DIRS_DISPLAY.find(trans_str[1])
        state_out = STATES_DISPLAY.find(trans_str[2])
        if state_out >= num_states:
          state_out = -1
        assert symbol_out >= 0
        assert dir_out in [0, 1]
        assert state_out >= -1
        quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
  return Turing_Machine.tm_from_quintuples(quints, states=list(range(num_states)), symbols=list(range(max_symbol + 1)))

class TM_Record:
  def ttable_str(self):
    return self.tm().ttable_str()


SYMBOLS_DISPLAY = string.digits
DIRS_DISPLAY = "LR"
STATES_DISPLAY = string.ascii_uppercase
