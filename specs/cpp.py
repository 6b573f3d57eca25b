"""The C++ tools (in the translation of sa/cppfront.py)."""
BlankSymbol = 0
InitialState = 0
HaltState = -1

class TuringMachine:

  def Lookup(self, state, symbol):
    return self.transitions_[state][symbol]

  def num_states(self):
    return self.num_states_

  def num_symbols(self):
    return self.num_symbols_

  def max_next_state(self):
    return self.max_next_state_

  def max_next_symbol(self):
    return self.max_next_symbol_

  def next_move_left_ok(self):
    return self.next_move_left_ok_

  def num_halts(self):
    return self.num_halts_

  def hereditary_name(self):
    return self.hereditary_name_

  def TuringMachine__2_int(self, num_states, num_symbols):
    self.num_states_ = num_states
    self.num_symbols_ = num_symbols
    self.max_next_state_ = 1
    self.max_next_symbol_ = 1
    self.next_move_left_ok_ = False
    self.num_halts_ = num_states * num_symbols
    self.hereditary_name_ = ''
    self.transitions_ = []
    empty_trans = LookupResult(symbol=1, move=1, state=HaltState, undecided=True)
    for i in range(num_states):
      self.transitions_.append([empty_trans] * num_symbols)

  def TuringMachine__2_vector(self, transitions, base_name):
    self.hereditary_name_ = base_name
    self.transitions_ = list(transitions)
    max_state = 0
    max_symbol = 0
    num_halts = 0
    for row in self.transitions_:
      for trans in row:
        max_state = max(max_state, trans.state)
        max_symbol = max(max_symbol, trans.symbol)
        if trans.state < 0:
          num_halts += 1
    self.num_states_ = len(self.transitions_)
    self.num_symbols_ = len(self.transitions_[0])
    self.max_next_state_ = min(max_state + 1, self.num_states_ - 1)
    self.max_next_symbol_ = min(max_symbol + 1, self.num_symbols_ - 1)
    self.next_move_left_ok_ = True
    self.num_halts_ = num_halts

  def TuringMachine__5(self, old_tm, last_state, last_symbol, next_trans, hereditary_sub_order):
    self.num_states_ = old_tm.num_states_
    self.num_symbols_ = old_tm.num_symbols_
    self.next_move_left_ok_ = True
    self.num_halts_ = old_tm.num_halts_ - 1
    self.hereditary_name_ = ''
    self.transitions_ = []
    self.max_next_state_ = max(old_tm.max_next_state_, min(self.num_states_ - 1, next_trans.state + 1))
    self.max_next_symbol_ = max(old_tm.max_next_symbol_, min(self.num_symbols_ - 1, next_trans.symbol + 1))
    self.hereditary_name_ = old_tm.hereditary_name_
    self.hereditary_name_ += ','
    self.hereditary_name_ += str(hereditary_sub_order)
    self.transitions_.resize(self.num_states_)
    for state in range(self.num_states_):
      self.transitions_[state].resize(self.num_symbols_)
      for symbol in range(self.num_symbols_):
        self.transitions_[state][symbol] = old_tm.transitions_[state][symbol]
    self.transitions_[last_state][last_symbol] = next_trans

  def TuringMachine__5__alt1(self, old_tm, last_state, last_symbol, next_trans, hereditary_sub_order):
    self.num_states_ = old_tm.num_states_
    self.num_symbols_ = old_tm.num_symbols_
    self.next_move_left_ok_ = True
    self.num_halts_ = old_tm.num_halts_ - 1
    self.hereditary_name_ = ''
    self.transitions_ = []
    self.max_next_state_ = max(old_tm.max_next_state_, min(self.num_states_ - 1, next_trans.state + 1))
    self.max_next_symbol_ = max(old_tm.max_next_symbol_, min(self.num_symbols_ - 1, next_trans.symbol + 1))
    self.hereditary_name_ = old_tm.hereditary_name_
    self.hereditary_name_ += ','
    self.hereditary_name_ += str(hereditary_sub_order)
    self.transitions_ = old_tm.transitions_
    self.transitions_[last_state][last_symbol] = next_trans

class Tape:

  def Tape__0(self):
    self.unit_size_ = 100
    self.tape_ = [BlankSymbol] * self.unit_size_
    self.index_start_ = len(self.tape_) // 2
    self.index_ = self.index_start_

  def read__0(self):
    return self.tape_[self.index_]

  def read__1(self, pos):
    index = pos + self.index_start_
    if 0 <= index and index < len(self.tape_):
      return self.tape_[index]
    else:
      return BlankSymbol

  def write(self, symb):
    self.tape_[self.index_] = symb

  def move(self, move_dir):
    self.index_ += move_dir
    if self.index_ < 0:
      self.tape_ = [BlankSymbol] * self.unit_size_ + self.tape_
      self.index_ += self.unit_size_
      self.index_start_ += self.unit_size_
    elif self.index_ >= len(self.tape_):
      self.tape_ = self.tape_ + [BlankSymbol] * self.unit_size_

  def position(self):
    return self.index_ - self.index_start_

  def in_range(self, pos):
    index = pos + self.index_start_
    return 0 <= index and index < len(self.tape_)

class DirectSimulator:

  def DirectSimulator__1(self, tm):
    self.tm_ = tm
    self.tape_ = new_Tape__0()
    self.state_ = InitialState
    self.step_num_ = 0

  def Step(self):
    if not self.is_halted():
      self.StepSafe()

  def Seek(self, step_goal):
    while not self.is_halted() and self.step_num_ < step_goal:
      self.StepSafe()

  def is_halted(self):
    return self.state_ == HaltState

  def tape(self):
    return self.tape_

  def state(self):
    return self.state_

  def step_num(self):
    return self.step_num_

  def last_state(self):
    return self.last_state_

  def last_symbol(self):
    return self.last_symbol_

  def StepSafe(self):
    self.last_state_ = self.state_
    self.last_symbol_ = self.tape_.read__0()
    lookup_res = self.tm_.Lookup(self.last_state_, self.last_symbol_)
    self.tape_.write(lookup_res.symbol)
    self.tape_.move(lookup_res.move)
    self.state_ = lookup_res.state
    self.step_num_ += 1

class BaseEnumerator:

  def BaseEnumerator__1(self, allow_no_halt):
    self.allow_no_halt_ = allow_no_halt

  def enumerate(self, init_tm):
    todos = []
    todos.append(init_tm)
    while not len(todos) == 0:
      tm = todos[-1]
      todos.pop()
      result = self.filter_tm(tm)
      if result.reached_undecided:
        self.expand_tm(tm, result, todos)

  def expand_tm(self, tm, result, todos):
    if self.allow_no_halt_ or tm.num_halts() > 1:
      order = 0
      for next_state in range(tm.max_next_state() + 1):
        for next_symbol in range(tm.max_next_symbol() + 1):
          for next_move in [1, -1]:
            if next_move == 1 or tm.next_move_left_ok():
              next = LookupResult(symbol=next_symbol, move=next_move, state=next_state, undecided=False)
              todos.append(new_TuringMachine__5(tm, result.last_state, result.last_symbol, next, order))
              order += 1

class LinRecurEnum:

  def LinRecurEnum__8(self, allow_no_halt, max_steps, out_halt_filename, out_inf_filename, out_unknown_filename, proc_id, compress_output, only_unknown_in):
    self.init_BaseEnumerator(allow_no_halt)
    self.max_steps_ = max_steps
    self.only_unknown = only_unknown_in
    self.out_halt_stream_ = basic_ofstream()
    self.out_inf_stream_ = basic_ofstream()
    self.out_unknown_stream_ = basic_ofstream()
    self.proc_id_ = proc_id
    self.timer_ = new_Timer__0()
    self.last_print_ = new_Timer__0()
    self.num_tms_total_ = 0
    self.num_tms_halt_ = 0
    self.num_tms_inf_ = 0
    self.num_tms_unknown_ = 0
    self.max_period_ = 0
    self.max_period_tm_ = None
    if compress_output:
      raise SystemExit()
    self.out_halt_stream_.open(out_halt_filename, out | binary)
    self.out_inf_stream_.open(out_inf_filename, out | binary)
    self.out_unknown_stream_.open(out_unknown_filename, out | binary)

  def print_stats(self, prefix):
    print(prefix, ' ', self.proc_id_, ': Total: ', str(self.num_tms_total_), '  Halt: ', str(self.num_tms_halt_), '  Infinite: ', str(self.num_tms_inf_), '  Unknown: ', str(self.num_tms_unknown_), '  Max Period: ', str(self.max_period_), ' : ')
    if self.max_period_tm_ is not None:
      WriteTuringMachine(self.max_period_tm_, cout)
    print(' (', str(self.timer_.time_elapsed_s()), 's)', '\n')

  def filter_tm(self, tm):
    if self.last_print_.time_elapsed_s() > 60.0:
      self.print_stats('Progress')
      self.last_print_.restart_timer()
    result = LinRecurDetect(tm, self.max_steps_)
    self.num_tms_total_ += 1
    if result.is_halted:
      self.num_tms_halt_ += 1
      if not self.only_unknown:
        WriteTuringMachine(tm, self.out_halt_stream_)
        self.out_halt_stream_.write(' | Halt ')
        self.out_halt_stream_.write(str(result.steps_run))
        self.out_halt_stream_.write('\n')
    elif result.is_lin_recurrent:
      self.num_tms_inf_ += 1
      if not self.only_unknown:
        WriteTuringMachine(tm, self.out_inf_stream_)
        self.out_inf_stream_.write(' | Lin_Recur ')
        self.out_inf_stream_.write(str(result.lr_period))
        self.out_inf_stream_.write(' ')
        self.out_inf_stream_.write(str(result.lr_offset))
        self.out_inf_stream_.write(' <')
        self.out_inf_stream_.write(str(result.lr_start_step))
        self.out_inf_stream_.write('\n')
        if result.lr_period > self.max_period_:
          self.max_period_ = result.lr_period
          self.max_period_tm_ = tm.copy()
    else:
      self.num_tms_unknown_ += 1
      WriteTuringMachine(tm, self.out_unknown_stream_)
      self.out_unknown_stream_.write('\n')
    return EnumExpandParams(reached_undecided=result.is_halted, last_state=result.last_state, last_symbol=result.last_symbol)

class LazyBeaverEnum:

  def LazyBeaverEnum__4(self, max_steps, out_witness_filename, out_nonhalt_filename, print_prefix):
    self.init_BaseEnumerator(False)
    self.max_steps_ = max_steps
    self.steps_realized_ = set()
    self.out_witness_stream_ = None
    self.out_nonhalt_stream_ = None
    self.print_prefix_ = print_prefix
    self.num_tms_total_ = 0
    self.num_tms_halt_ = 0
    self.out_witness_stream_ = basic_ofstream(out_witness_filename, out | binary)
    if not len(out_nonhalt_filename) == 0:
      self.out_nonhalt_stream_ = basic_ofstream(out_nonhalt_filename, out | binary)

  def min_missing(self):
    i = 1
    while True:
      if int(i in self.steps_realized_) == 0:
        return i
      i += 1

  def print_stats(self):
    print('Stat ', self.print_prefix_, ': # TMs simulated = ', str(self.num_tms_total_), '\n')
    print('Stat ', self.print_prefix_, ': # TMs halted = ', str(self.num_tms_halt_), '\n')

  def filter_tm(self, tm):
    if self.num_tms_total_ % 10000000 == 0:
      print('Progress ', self.print_prefix_, ':', ' TMs simulated: ', str(self.num_tms_total_), ' Provisional LB: ', str(self.min_missing()), ' Current TM hereditary_order: ', tm.hereditary_name(), '\n')
    sim = new_DirectSimulator__1(tm)
    sim.Seek(self.max_steps_)
    self.num_tms_total_ += 1
    if sim.is_halted():
      self.num_tms_halt_ += 1
      if int(sim.step_num() in self.steps_realized_) == 0:
        self.steps_realized_.add(sim.step_num())
        self.out_witness_stream_.write(str(sim.step_num()))
        self.out_witness_stream_.write('\t')
        WriteTuringMachine(tm, self.out_witness_stream_)
        self.out_witness_stream_.write('\n')
    elif self.out_nonhalt_stream_ is not None:
      WriteTuringMachine(tm, self.out_nonhalt_stream_)
      self.out_nonhalt_stream_.write('\n')
    return EnumExpandParams(reached_undecided=sim.is_halted(), last_state=sim.last_state(), last_symbol=sim.last_symbol())

def WriteTuringMachine(tm, outstream):
  if not tm.num_states() < 26:
    raise SystemExit()
  if not tm.num_symbols() < 10:
    raise SystemExit()
  for in_state in range(tm.num_states()):
    if in_state != 0:
      outstream.write('_')
    for in_symbol in range(tm.num_symbols()):
      trans = tm.Lookup(in_state, in_symbol)
      if trans.undecided:
        outstream.write('---')
      else:
        outstream.write(str(trans.symbol))
        if trans.move == 1:
          outstream.write('R')
        else:
          if not trans.move == -1:
            raise SystemExit()
          outstream.write('L')
        out_state_char = uninitialised
        if trans.state >= 0:
          out_state_char = trans.state + 65
        else:
          out_state_char = 90
        outstream.write(chr(out_state_char))

def ReadTuringMachine__2_istream(instream, base_name):
  line = ''
  if (line := getline(instream)) is not None:
    pos = line.find_first_of(' \n\t,#|')
    if pos != -1:
      line = line[:pos]
    i = 0
    transitions = []
    while i < len(line):
      row = []
      while i < len(line) and line[i] != 95:
        trans__symbol = uninitialised
        trans__move = uninitialised
        trans__state = uninitialised
        trans__undecided = False
        if line[i] == 45:
          trans__symbol = 1
          trans__move = 1
          trans__state = HaltState
          trans__undecided = True
        else:
          if not not trans__undecided:
            raise SystemExit()
          trans__symbol = line[i] - 48
          if not (0 <= trans__symbol and trans__symbol <= 9):
            raise SystemExit()
          if line[i + 1] == 82:
            trans__move = 1
          else:
            if not line[i + 1] == 76:
              raise SystemExit()
            trans__move = -1
          state_char = line[i + 2]
          if state_char == 90:
            trans__state = -1
          else:
            trans__state = state_char - 65
            if not (0 <= trans__state and trans__state < 26):
              raise SystemExit()
        row.append(LookupResult(symbol=trans__symbol, move=trans__move, state=trans__state, undecided=trans__undecided))
        i += 3
      transitions.append(row)
      i += 1
    return new_TuringMachine__2_vector(transitions, base_name)
  else:
    return None

def ReadTuringMachine__2_string(filename, line_num):
  instream = basic_ifstream(filename, in_v)
  i = line_num
  while i > 1:
    line = ''
    line = getline(instream)
    i -= 1
  return ReadTuringMachine__2_istream(instream, '')

def LinRecurDetect(tm, max_steps):
  sim = new_DirectSimulator__1(tm)
  sim.Step()
  init_step_num = sim.step_num()
  while sim.step_num() < max_steps:
    init_step_num = sim.step_num()
    steps_reset = 2 * init_step_num
    init_state = sim.state()
    init_tape = sim.tape().copy()
    init_pos = init_tape.position()
    most_left_pos = init_pos
    most_right_pos = init_pos
    while sim.step_num() < steps_reset:
      sim.Step()
      if sim.is_halted():
        return LinRecurResult(is_halted=True, is_lin_recurrent=False, lr_start_step=0, lr_period=0, lr_offset=0, last_state=sim.last_state(), last_symbol=sim.last_symbol(), max_ref_config_step=init_step_num, steps_run=sim.step_num())
      most_left_pos = min(most_left_pos, sim.tape().position())
      most_right_pos = max(most_right_pos, sim.tape().position())
      if sim.state() == init_state:
        offset = sim.tape().position() - init_pos
        success = False
        if offset > 0:
          if are_half_tapes_equal(init_tape, most_left_pos, sim.tape(), most_left_pos + offset, 1):
            success = True
        elif offset < 0:
          if are_half_tapes_equal(init_tape, most_right_pos, sim.tape(), most_right_pos + offset, -1):
            success = True
        elif are_sections_equal(init_tape, sim.tape(), most_left_pos, most_right_pos):
          success = True
        if success:
          period = sim.step_num() - init_step_num
          return LinRecurResult(is_halted=False, is_lin_recurrent=True, lr_start_step=init_step_num, lr_period=period, lr_offset=offset, last_state=0, last_symbol=0, max_ref_config_step=init_step_num, steps_run=sim.step_num())
  return LinRecurResult(is_halted=False, is_lin_recurrent=False, lr_start_step=0, lr_period=0, lr_offset=0, last_state=0, last_symbol=0, max_ref_config_step=init_step_num, steps_run=sim.step_num())

def are_half_tapes_equal(tape1, start_pos1, tape2, start_pos2, dir_offset):
  pos1 = start_pos1
  pos2 = start_pos2
  while tape1.in_range(pos1) or tape2.in_range(pos2):
    if tape1.read__1(pos1) != tape2.read__1(pos2):
      return False
    pos1 += dir_offset
    pos2 += dir_offset
  return True

def are_sections_equal(start_tape, end_tape, most_left_pos, most_right_pos):
  for pos in range(most_left_pos, most_right_pos + 1):
    if start_tape.read__1(pos) != end_tape.read__1(pos):
      return False
  return True

def LinRecurEnumerate(num_states, num_symbols, max_steps, allow_no_halt, first_1rb, out_halt_filename, out_inf_filename, out_unknown_filename, compress_output, only_unknown):
  print('Start: ', str(num_states), 'x', str(num_symbols), '\n')
  enumerator = new_LinRecurEnum__8(allow_no_halt, max_steps, out_halt_filename, out_inf_filename, out_unknown_filename, '', compress_output, only_unknown)
  init_tm = new_TuringMachine__2_int(num_states, num_symbols)
  if first_1rb:
    next = LookupResult(symbol=1, move=1, state=1, undecided=False)
    init_tm = new_TuringMachine__5(init_tm, InitialState, BlankSymbol, next, 0)
  enumerator.enumerate(init_tm)
  enumerator.print_stats('Final')

def ContinueLinRecurEnumerate(in_tms_filename, max_steps, allow_no_halt, first_1rb, out_halt_filename, out_inf_filename, out_unknown_filename, proc_id, compress_output, only_unknown):
  print('Start ', proc_id, '\n')
  enumerator = new_LinRecurEnum__8(allow_no_halt, max_steps, out_halt_filename, out_inf_filename, out_unknown_filename, proc_id, compress_output, only_unknown)
  in_tms_stream = basic_ifstream(in_tms_filename, in_v | binary)
  while True:
    tm = ReadTuringMachine__2_istream(in_tms_stream, '')
    if tm is None:
      break
    else:
      enumerator.enumerate(tm)
  enumerator.print_stats('Final')

def EnumerateAll(num_states, num_symbols, max_steps, out_witness_filename, out_nonhalt_filename):
  timer = new_Timer__0()
  print('\n')
  print('Start: ', str(num_states), 'x', str(num_symbols), ' : ', chr(NowTimestamp()), '\n')
  enumerator = new_LazyBeaverEnum__4(max_steps, out_witness_filename, out_nonhalt_filename)
  enumerator.enumerate(new_TuringMachine__2_int(num_states, num_symbols))
  enumerator.print_stats()
  print('Stat : Runtime = ', str(timer.time_elapsed_s()), '\n')
  print('\n')
  lb = enumerator.min_missing()
  if lb < max_steps:
    print('LB(', str(num_states), ', ', str(num_symbols), ') = ', str(lb), '\n')
  else:
    print('Inconclusive: max_steps too small.', '\n')

def ContinueEnumerateFromFile(in_tms_filename, max_steps, out_witness_filename, proc_num):
  timer = new_Timer__0()
  enumerator = new_LazyBeaverEnum__4(max_steps, out_witness_filename, '', str(proc_num))
  in_tms_stream = basic_ifstream(in_tms_filename, in_v | binary)
  i = 0
  while True:
    tm_base_name = '('
    tm_base_name += str(i)
    tm_base_name += ')'
    tm = ReadTuringMachine__2_istream(in_tms_stream, tm_base_name)
    if tm is None:
      break
    else:
      enumerator.enumerate(tm)
    i += 1
  enumerator.print_stats()
  print('Stat : Runtime = ', str(timer.time_elapsed_s()), '\n')

def DirectSimMain__3_string_long_long(tm_filename, line_num, num_steps):
  tm = ReadTuringMachine__2_string(tm_filename, line_num)
  if tm is None:
    raise SystemExit()
  print('Starting simulation', '\n')
  timer = new_Timer__0()
  sim = new_DirectSimulator__1(tm)
  sim.Seek(num_steps)
  print('Simulated ', str(sim.step_num()), ' in ', str(timer.time_elapsed_s()), 's', '\n')
  if sim.is_halted():
    print('Halted at step ', str(sim.step_num()), '\n')

def DirectSimMain__3_string_long_string(in_tms_filename, num_steps, out_tms_filename):
  num_total = 0
  num_halted = 0
  num_unknown = 0
  in_tms_stream = basic_ifstream(in_tms_filename, in_v | binary)
  out_tms_stream = basic_ofstream(out_tms_filename, out | binary)
  while True:
    tm = ReadTuringMachine__2_istream(in_tms_stream, '')
    if tm is None:
      break
    else:
      sim = new_DirectSimulator__1(tm)
      sim.Seek(num_steps)
      num_total += 1
      WriteTuringMachine(tm, out_tms_stream)
      if sim.is_halted():
        num_halted += 1
        out_tms_stream.write(' Halt ')
        out_tms_stream.write(str(sim.step_num()))
        out_tms_stream.write('\n')
      else:
        num_unknown += 1
        out_tms_stream.write(' Unknown ')
        out_tms_stream.write(str(sim.step_num()))
        out_tms_stream.write('\n')
  print('Finished simulating ', str(num_steps), ' steps', '  Total: ', str(num_total), '  Halt: ', str(num_halted), '  Unknown: ', str(num_unknown), '\n')

def LinRecurMain(tm_filename, line_num, max_steps):
  tm = ReadTuringMachine__2_string(tm_filename, line_num)
  if tm is None:
    raise SystemExit()
  print('Running Lin Recur Detection', '\n')
  timer = new_Timer__0()
  result = LinRecurDetect(tm, max_steps)
  print('Finished Lin Recur Detection in ', str(timer.time_elapsed_s()), 's', '\n')
  print('steps_run: ', str(result.steps_run), '\n')
  print('max_ref_config_step: ', str(result.max_ref_config_step), '\n')
  print('is_halted: ', str(result.is_halted), '\n')
  print('is_lin_recurrent: ', str(result.is_lin_recurrent), '\n')
  if result.is_lin_recurrent:
    print('start_step: ', str(result.lr_start_step), '\n')
    print('period: ', str(result.lr_period), '\n')
    print('offset: ', str(result.lr_offset), '\n')
  if result.is_halted:
    print('last_state: ', str(result.last_state), '\n')
    print('last_symbol: ', str(result.last_symbol), '\n')

def main_lr_enum(argc, argv):
  if argc < 8 or argc > 10:
    print('Usage: lr_enum num_states num_symbols max_steps out_halt_filename out_inf_file out_unknown_file allow_no_halt [compress_output [only_unknown]]', '\n')
    return 1
  else:
    num_states = stoi(argv[1])
    num_symbols = stoi(argv[2])
    max_steps = stol(argv[3])
    out_halt_filename = argv[4]
    out_inf_filename = argv[5]
    out_unknown_filename = argv[6]
    allow_no_halt_str = argv[7]
    compress_output_str = 'false'
    only_unknown_str = 'false'
    if argc >= 9:
      compress_output_str = argv[8]
    if argc == 10:
      only_unknown_str = argv[9]
    allow_no_halt = uninitialised
    if allow_no_halt_str == 'true':
      allow_no_halt = True
    elif allow_no_halt_str == 'false':
      allow_no_halt = False
    else:
      print('allow_no_halt must be true/false not [', allow_no_halt_str, ']', '\n')
      return 1
    compress_output = uninitialised
    if compress_output_str == 'true':
      compress_output = True
    elif compress_output_str == 'false':
      compress_output = False
    else:
      print('compress_output must be true/false not [', compress_output_str, ']', '\n')
      return 1
    only_unknown = uninitialised
    if only_unknown_str == 'true':
      only_unknown = True
    elif only_unknown_str == 'false':
      only_unknown = False
    else:
      print('only_unknown must be true/false not [', only_unknown_str, ']', '\n')
      return 1
    LinRecurEnumerate(num_states, num_symbols, max_steps, allow_no_halt, True, out_halt_filename, out_inf_filename, out_unknown_filename, compress_output, only_unknown)

def main_lr_enum_continue(argc, argv):
  if argc < 8 or argc > 10:
    print('Usage: lr_enum_continue in_tm_file max_steps out_halt_file out_inf_file out_unknown_file proc_id allow_no_halt [compress_output [only_unknown]]', '\n')
    return 1
  else:
    in_tms_filename = argv[1]
    max_steps = stol(argv[2])
    out_halt_filename = argv[3]
    out_inf_filename = argv[4]
    out_unknown_filename = argv[5]
    proc_id = argv[6]
    allow_no_halt_str = argv[7]
    compress_output_str = 'false'
    only_unknown_str = 'false'
    if argc >= 9:
      compress_output_str = argv[8]
    if argc == 10:
      only_unknown_str = argv[9]
    allow_no_halt = uninitialised
    if allow_no_halt_str == 'true':
      allow_no_halt = True
    elif allow_no_halt_str == 'false':
      allow_no_halt = False
    else:
      print('allow_no_halt must be true/false not [', allow_no_halt_str, ']', '\n')
      return 1
    compress_output = uninitialised
    if compress_output_str == 'true':
      compress_output = True
    elif compress_output_str == 'false':
      compress_output = False
    else:
      print('compress_output must be true/false not [', compress_output_str, ']', '\n')
      return 1
    only_unknown = uninitialised
    if only_unknown_str == 'true':
      only_unknown = True
    elif only_unknown_str == 'false':
      only_unknown = False
    else:
      print('only_unknown must be true/false not [', only_unknown_str, ']', '\n')
      return 1
    ContinueLinRecurEnumerate(in_tms_filename, max_steps, allow_no_halt, True, out_halt_filename, out_inf_filename, out_unknown_filename, proc_id, compress_output, only_unknown)

def main_lb_enum(argc, argv):
  if argc < 5:
    print('Usage: lb_enum num_states num_symbols max_steps out_witness_file [out_nonhalt_file]', '\n')
    return 1
  else:
    num_states = stoi(argv[1])
    num_symbols = stoi(argv[2])
    max_steps = stol(argv[3])
    out_witness_filename = argv[4]
    out_nonhalt_filename = ''
    if argc >= 6:
      out_nonhalt_filename = argv[5]
    EnumerateAll(num_states, num_symbols, max_steps, out_witness_filename, out_nonhalt_filename)

def main_lb_enum_continue(argc, argv):
  if argc != 5:
    print('Usage: lb_enum_continue in_tm_file max_steps out_witness_file proc_num', '\n')
    return 1
  else:
    in_tms_filename = argv[1]
    max_steps = stol(argv[2])
    out_witness_filename = argv[3]
    proc_num = stoi(argv[4])
    ContinueEnumerateFromFile(in_tms_filename, max_steps, out_witness_filename, proc_num)
    return 0

def main_direct_sim(argc, argv):
  if argc != 4:
    print('Usage: direct_sim tm_file line_num num_steps', '\n')
    return 1
  else:
    tm_filename = argv[1]
    line_num = stol(argv[2])
    num_steps = stol(argv[3])
    DirectSimMain__3_string_long_long(tm_filename, line_num, num_steps)
    return 0

def main_direct_sim_all(argc, argv):
  if argc != 4:
    print('Usage: direct_sim_all in_tm_file num_steps out_tm_filename', '\n')
    return 1
  else:
    in_tms_filename = argv[1]
    num_steps = stol(argv[2])
    out_tms_filename = argv[3]
    DirectSimMain__3_string_long_string(in_tms_filename, num_steps, out_tms_filename)
    return 0

def main_lin_recur_main(argc, argv):
  if argc != 4:
    print('Usage: lin_recur tm_file line_num log2(max_steps)', '\n')
    return 1
  else:
    tm_filename = argv[1]
    line_num = stol(argv[2])
    log2_max_steps = stol(argv[3])
    max_steps = 1 << log2_max_steps
    LinRecurMain(tm_filename, line_num, max_steps)
    return 0
