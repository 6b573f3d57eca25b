def other_dir(dir):
  if dir == LEFT:
    return RIGHT
  else:
    assert dir == RIGHT
    return LEFT

def sim_limited(tm, state, start_tape, pos, dir, max_loops=10000):
  num_base_steps = 0
  num_loops = 0
  tape = list(start_tape)
  states_last_seen = {}
  old_config = None
  next_config_save = 128
  while True:
    symbol = tape[pos]
    trans = tm.get_trans_object(symbol, state, dir)
    for state, base_last_seen in trans.states_last_seen.items():
      states_last_seen[state] = num_base_steps + base_last_seen
    num_base_steps += trans.num_base_steps
    num_loops += 1
    tape[pos] = trans.symbol_out
    state = trans.state_out
    dir = trans.dir_out
    if dir == RIGHT:
      pos += 1
    elif dir == LEFT:
      pos -= 1
    if (state, dir, pos, tape) == old_config:
      condition = INF_REPEAT
      condition_details = [pos]
      break
    if num_loops >= next_config_save:
      old_config = (state, dir, pos, list(tape))
      next_config_save *= 2
    if num_loops > max_loops:
      condition = GAVE_UP
      condition_details = [num_loops]
      break
    if trans.condition != RUNNING:
      condition = trans.condition
      condition_details = trans.condition_details + [pos]
      break
    if not 0 <= pos < len(tape):
      condition = RUNNING
      condition_details = None
      break
  return Transition(condition=condition, condition_details=condition_details, symbol_out=tape, state_out=state, dir_out=dir, num_base_steps=num_base_steps, states_last_seen=states_last_seen)

def tm_from_quintuples(quints, states, symbols):
  ttable = [[None for _ in symbols] for _ in states]
  for state_in, symbol_in, symbol_out, dir_out, state_out in quints:
    if symbol_out != None:
      state_in = states.index(state_in)
      symbol_in = symbols.index(symbol_in)
      symbol_out = symbols.index(symbol_out)
      if state_out == -1:
        condition = HALT
        condition_details = [(symbol_in, state_in)]
      else:
        condition = RUNNING
        condition_details = None
        state_out = states.index(state_out)
      ttable[state_in][symbol_in] = Transition(condition=condition, condition_details=condition_details, symbol_out=symbol_out, state_out=Simple_Machine_State(state_out), dir_out=dir_out, num_base_steps=1, states_last_seen={state_in: 0})
  for state_in in range(len(states)):
    for symbol_in in range(len(symbols)):
      if not ttable[state_in][symbol_in]:
        ttable[state_in][symbol_in] = Transition(condition=UNDEFINED, condition_details=[(symbol_in, state_in)], symbol_out=1, state_out=Simple_Machine_State(-1), dir_out=RIGHT, num_base_steps=1, states_last_seen={state_in: 0})
  return Simple_Machine(ttable, states, symbols)

class Transition:
  def __init__(self, condition, symbol_out, state_out, dir_out, num_base_steps, states_last_seen, condition_details=None):
    self.condition = condition
    self.condition_details = condition_details if condition_details else []
    self.symbol_out = symbol_out
    self.state_out = state_out
    self.dir_out = dir_out
    self.num_base_steps = num_base_steps
    self.states_last_seen = states_last_seen

  def equals(self, other):
    return self.condition == other.condition and self.symbol_out == other.symbol_out and (self.state_out == other.state_out) and (self.dir_out == other.dir_out)

class Simple_Machine:
  def __init__(self, ttable, states, symbols):
    self.trans_table = ttable
    self.states = states
    self.symbols = symbols
    self.num_states = len(self.states)
    self.num_symbols = len(self.symbols)
    self.init_symbol = 0
    self.init_dir = RIGHT
    self.init_state = Simple_Machine_State(0)

  def get_trans_object(self, symbol_in, state_in, dir_in=None):
    return self.trans_table[state_in][symbol_in]

  def eval_symbol(self, symbol):
    if symbol != self.init_symbol:
      return 1
    else:
      return 0

  def eval_state(self, state):
    return 0

  def list_base_states(self):
    return list(range(self.num_states))

class Block_Macro_Machine:
  def __init__(self, base_machine, block_size, offset=None, max_sim_steps_per_symbol=10000):
    assert block_size > 0
    self.block_size = block_size
    self.base_machine = base_machine
    self.num_states = base_machine.num_states
    self.num_symbols = base_machine.num_symbols ** block_size
    self.trans_table = {}
    self.init_dir = base_machine.init_dir
    self.init_symbol = Block_Symbol((base_machine.init_symbol,) * block_size)
    if offset:
      assert 0 < offset < block_size
      self.init_state = OffsetStartState(base_machine.init_state, offset)
    else:
      self.init_state = base_machine.init_state
    self.max_steps = block_size * self.num_states * self.num_symbols
    self.max_cells = Block_Macro_Machine.MAX_TTABLE_CELLS
    self.max_sim_steps_per_symbol = max_sim_steps_per_symbol

  def eval_symbol(self, macro_symbol):
    return sum(map(self.base_machine.eval_symbol, macro_symbol))

  def eval_state(self, state):
    return self.base_machine.eval_state(state)

  def list_base_states(self):
    return self.base_machine.list_base_states()

  def get_trans_object(self, *args):
    if args not in self.trans_table:
      if len(self.trans_table) >= self.max_cells:
        self.trans_table.clear()
      self.trans_table[args] = self.eval_trans(*args)
    return self.trans_table[args]

  def eval_trans(self, macro_symbol_in, macro_state_in, macro_dir_in):
    if isinstance(macro_state_in, OffsetStartState):
      pos = macro_state_in.offset
      macro_state_in = macro_state_in.state
    elif macro_dir_in == RIGHT:
      pos = 0
    else:
      assert macro_dir_in == LEFT
      pos = self.block_size - 1
    trans = sim_limited(self.base_machine, state=macro_state_in, dir=macro_dir_in, start_tape=macro_symbol_in, pos=pos, max_loops=self.max_sim_steps_per_symbol)
    trans.symbol_out = Block_Symbol(trans.symbol_out)
    return trans

class OffsetStartState:
  def __init__(self, state, offset):
    self.state = state
    self.offset = offset

class Backsymbol_Macro_Machine_State:
  def __init__(self, base_state, back_symbol):
    assert isinstance(base_state, (Simple_Machine_State, OffsetStartState))
    self.base_state = base_state
    self.back_symbol = back_symbol

  def __eq__(self, other):
    return self.base_state == other.base_state and self.back_symbol == other.back_symbol

  def __lt__(self, other):
    return (self.base_state, self.back_symbol) < (other.base_state, other.back_symbol)

  def __hash__(self):
    return hash((self.base_state, self.back_symbol))

class Backsymbol_Macro_Machine:
  def __init__(self, base_machine, max_sim_steps_per_symbol=1000):
    self.base_machine = base_machine
    self.num_states = base_machine.num_states
    self.num_symbols = base_machine.num_symbols
    self.trans_table = {}
    self.init_state = Backsymbol_Macro_Machine_State(base_machine.init_state, base_machine.init_symbol)
    self.init_dir = base_machine.init_dir
    self.init_symbol = base_machine.init_symbol
    self.max_steps = 2 * self.num_states * self.num_symbols ** 2
    self.max_cells = Backsymbol_Macro_Machine.MAX_TTABLE_CELLS
    self.max_sim_steps_per_symbol = max_sim_steps_per_symbol

  def eval_symbol(self, symbol):
    return self.base_machine.eval_symbol(symbol)

  def eval_state(self, backsymbol_macro_machine_state):
    return self.base_machine.eval_state(backsymbol_macro_machine_state.base_state) + self.base_machine.eval_symbol(backsymbol_macro_machine_state.back_symbol)

  def list_base_states(self):
    return self.base_machine.list_base_states()

  def get_trans_object(self, *args):
    if args not in self.trans_table:
      if len(self.trans_table) >= self.max_cells:
        self.trans_table.clear()
      self.trans_table[args] = self.eval_trans(*args)
    return self.trans_table[args]

  def eval_trans(self, macro_symbol_in, macro_state_in, macro_dir_in):
    if macro_dir_in == RIGHT:
      tape = [macro_state_in.back_symbol, macro_symbol_in]
      pos = 1
    else:
      assert macro_dir_in == LEFT
      tape = [macro_symbol_in, macro_state_in.back_symbol]
      pos = 0
    trans = sim_limited(self.base_machine, state=macro_state_in.base_state, dir=macro_dir_in, start_tape=tape, pos=pos, max_loops=self.max_sim_steps_per_symbol)
    final_tape = trans.symbol_out
    if trans.dir_out == RIGHT:
      symbol_out, backsymbol = final_tape
    else:
      assert trans.dir_out == LEFT
      backsymbol, symbol_out = final_tape
    trans.symbol_out = symbol_out
    trans.state_out = Backsymbol_Macro_Machine_State(trans.state_out, backsymbol)
    return trans


class Turing_Machine:
  def get_transition(self, symbol_in, state_in, dir_in):
    return self.get_trans_object(symbol_in, state_in, dir_in).to_legacy_tuple()
