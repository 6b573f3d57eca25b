class Repeated_Symbol:
  def __init__(self, symbol, number_of_repetitions, id=None):
    self.symbol = symbol
    self.num = number_of_repetitions
    self.id = id

  def __eq__(self, other):
    return isinstance(other, self.__class__) and other.symbol == self.symbol and (other.num == self.num) and (other.id == self.id)

  def copy(self):
    return Repeated_Symbol(self.symbol, self.num, self.id)

class Chain_Tape:
  def init(self, init_symbol, init_dir, options):
    self.dir = init_dir
    self.tape = [[], []]
    self.tape[0].append(Repeated_Symbol(init_symbol, INF))
    self.tape[1].append(Repeated_Symbol(init_symbol, INF))
    self.options = options

  def compressed_size(self):
    return len(self.tape[0]) + len(self.tape[1])

  def __eq__(self, other):
    return isinstance(other, self.__class__) and other.dir == self.dir and (other.tape == self.tape)

  def copy(self):
    Chain_Tape.num_copies += 1
    new = Chain_Tape()
    new.dir = self.dir
    s0 = [x.copy() for x in self.tape[0]]
    s1 = [x.copy() for x in self.tape[1]]
    new.tape = [s0, s1]
    new.options = self.options
    return new

  def get_nonzeros(self, eval_symbol, state_value):
    n = state_value
    for dir in range(2):
      for block in self.tape[dir]:
        if block.num is not INF:
          n += eval_symbol(block.symbol) * block.num
    return n

  def get_top_block(self):
    return self.tape[self.dir][-1]

  def get_top_symbol(self):
    return self.tape[self.dir][-1].symbol

  def apply_single_move(self, new_symbol, new_dir):
    half_tape = self.tape[self.dir]
    top = half_tape[-1]
    if top.num is not INF:
      top.num -= 1
      if top.num == 0:
        half_tape.pop()
    half_tape = self.tape[not new_dir]
    top = half_tape[-1]
    if top.symbol == new_symbol:
      if top.num is not INF:
        top.num += 1
    else:
      half_tape.append(Repeated_Symbol(new_symbol, 1))
    self.dir = new_dir

  def apply_single_move__alt1(self, new_symbol, new_dir):
    half_tape = self.tape[self.dir]
    top = half_tape[-1]
    if top.num == 1:
      half_tape.pop()
    elif top.num is not INF:
      top.num -= 1
    half_tape = self.tape[not new_dir]
    top = half_tape[-1]
    if top.symbol == new_symbol:
      if top.num is not INF:
        top.num += 1
    else:
      half_tape.append(Repeated_Symbol(new_symbol, 1))
    self.dir = new_dir

  def apply_chain_move(self, new_symbol):
    num = self.tape[self.dir][-1].num
    if num is INF:
      return INF
    self.tape[self.dir].pop()
    half_tape = self.tape[not self.dir]
    top = half_tape[-1]
    if top.symbol == new_symbol:
      if top.num is not INF:
        top.num += num
    else:
      half_tape.append(Repeated_Symbol(new_symbol, num))
    return num

