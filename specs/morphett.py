def load_record(filename, record_num):
  assert record_num == 0
  with Reader(filename) as reader:
    return reader.read_record()

class Writer:
  def __init__(self, outfilename):
    self.outfilename = Path(outfilename)
    self.outfile = None

  def __enter__(self):
    if '.gz' in self.outfilename.suffixes:
      self.outfile = gzip.open(self.outfilename, 'wt')
    else:
      self.outfile = open(self.outfilename, 'w')
    return self

  def __exit__(self, *args):
    self.outfile.close()

  def write_record(self, tm_record):
    tm = tm_record.tm()
    symbols = ['_'] + list(tm.symbols[1:])
    for state_in in range(tm.num_states):
      for symbol_in in range(tm.num_symbols):
        trans = tm.get_trans_object(symbol_in, state_in)
        if trans.condition != Turing_Machine.UNDEFINED:
          if trans.condition == Turing_Machine.HALT:
            state_out = 'halt'
          else:
            state_out = tm.states[trans.state_out]

class Reader:
  def __init__(self, infilename):
    self.infilename = Path(infilename)
    self.infile = None

  def __enter__(self):
    if '.gz' in self.infilename.suffixes:
      self.infile = gzip.open(self.infilename, 'rt')
    else:
      self.infile = open(self.infilename, 'r')
    return self

  def __exit__(self, *args):
    self.infile.close()

  def read_record(self):
    quints = []
    states = []
    symbols = ['_']
    for line in self.infile:
      line = line.split(';')[0]
      line = line.replace('!', '')
      line = line.strip()
      if line:
        state_in, symbol_in, symbol_out, dir_out, state_out = line.split()
        if state_out.lower().startswith('halt'):
          state_out = -1
        dir_out = DIRS.find(dir_out)
        quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
        if state_in not in states:
          states.append(state_in)
        if symbol_in not in symbols:
          symbols.append(symbol_in)
    for _, _, symbol_out, _, state_out in quints:
      if state_out != -1 and state_out not in states:
        states.append(state_out)
      if symbol_out not in symbols:
        symbols.append(symbol_out)
    tm = Turing_Machine.tm_from_quintuples(quints, states, symbols)
    tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt=False)
    tm_record = TM_Record.TM_Record(tm_enum=tm_enum)
    return tm_record

  def __iter__(self):
    yield self.read_record()


DIRS = "lr"
