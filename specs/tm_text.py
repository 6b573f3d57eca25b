def tm_from_quintuples(quints, states, symbols):
  ttable = [[None for _ in symbols] for _ in states]
  for state_in, symbol_in, symbol_out, dir_out, state_out in quints:
    if symbol_out != None:
      state_in = states.index(state_in)
      symbol_in = symbols.index(symbol_in)
      symbol_out = symbols.index(symbol_out)
      if state_out == -1:
        condition = HALT
        condition_details = [(symbol_in, state_in)]
      else:
        condition = RUNNING
        condition_details = None
        state_out = states.index(state_out)
      ttable[state_in][symbol_in] = Transition(condition=condition, condition_details=condition_details, symbol_out=symbol_out, state_out=Simple_Machine_State(state_out), dir_out=dir_out, num_base_steps=1, states_last_seen={state_in: 0})
  for state_in in range(len(states)):
    for symbol_in in range(len(symbols)):
      if not ttable[state_in][symbol_in]:
        ttable[state_in][symbol_in] = Transition(condition=UNDEFINED, condition_details=[(symbol_in, state_in)], symbol_out=1, state_out=Simple_Machine_State(-1), dir_out=RIGHT, num_base_steps=1, states_last_seen={state_in: 0})
  return Simple_Machine(ttable, states, symbols)

class Transition:
  def to_ttable_str(self):
    if self.condition == UNDEFINED:
      return '---'
    else:
      symbol = string.digits[self.symbol_out]
      dir = 'LRS'[self.dir_out]
      if self.condition == HALT:
        state = 'Z'
      else:
        state = string.ascii_uppercase[self.state_out]
      return '%c%c%c' % (symbol, dir, state)

  def to_legacy_tuple(self):
    return (tuple([self.condition] + self.condition_details), (self.symbol_out, self.state_out, self.dir_out), self.num_base_steps)

class Simple_Machine:
  def ttable_str(self):
    if self.num_states < 25 and self.num_symbols < 10:
      row_strs = []
      for row in self.trans_table:
        row_strs.append(''.join((trans.to_ttable_str() for trans in row)))
      return '_'.join(row_strs)
    else:
      return ''

  def __init__(self, ttable, states, symbols):
    self.trans_table = ttable
    self.states = states
    self.symbols = symbols
    self.num_states = len(self.states)
    self.num_symbols = len(self.symbols)
    self.init_symbol = 0
    self.init_dir = RIGHT
    self.init_state = Simple_Machine_State(0)


STATES = string.ascii_uppercase + string.ascii_lowercase + string.digits + "!@#$%^&*" + "Z"
SYMBOLS = string.digits + "-"
DIRS = "LRS-"
LEFT = 0
RIGHT = 1
STAY = 2
