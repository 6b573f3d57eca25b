def load_record(filename, record_num):
  with Reader(filename) as reader:
    for _ in range(record_num):
      reader.skip_record()
    rec = reader.read_record()
    if rec:
      return rec
    else:
      raise RecordLocateError(f'File {filename} does not contain record # {record_num}')

class Writer:
  def __init__(self, source):
    if isinstance(source, (Path, str)):
      self.outfilename = Path(source)
      self.outfile = None
    else:
      self.outfile = source
      self.outfilename = None

  def __enter__(self):
    if self.outfilename:
      if '.gz' in self.outfilename.suffixes:
        self.outfile = gzip.open(self.outfilename, 'wt')
      else:
        self.outfile = open(self.outfilename, 'w')
    return self

  def __exit__(self, *args):
    if self.outfilename:
      self.outfile.close()

  def write_record(self, tm_record):
    self.outfile.write(tm_record.tm().ttable_str())
    halt_status = tm_record.proto.status.halt_status
    if halt_status.is_halting:
      steps_str = Halting_Lib.big_int_approx_str(Halting_Lib.get_big_int(halt_status.halt_steps)).replace('_', '')
      score_str = Halting_Lib.big_int_approx_str(Halting_Lib.get_big_int(halt_status.halt_score)).replace('_', '')
      self.outfile.write(f' Halt {steps_str} {score_str}')
    self.outfile.write('\n')

  def write_tm(self, tm):
    self.outfile.write(tm.ttable_str())
    self.outfile.write('\n')

  def flush(self):
    self.outfile.flush()

class Reader:
  def __init__(self, dest):
    if isinstance(dest, (Path, str)):
      self.infilename = Path(dest)
      self.infile = None
    else:
      self.infile = dest
      self.infilename = None

  def __enter__(self):
    if self.infilename:
      if '.gz' in self.infilename.suffixes:
        self.infile = gzip.open(self.infilename, 'rt')
      else:
        self.infile = open(self.infilename, 'r')
    return self

  def __exit__(self, *args):
    if self.infilename:
      self.infile.close()

  def read_record(self):
    line = self.infile.readline()
    line = line.strip()
    if line:
      tm = parse_tm(line.split()[0])
      tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt=False)
      tm_record = TM_Record.TM_Record(tm_enum=tm_enum)
      return tm_record

  def skip_record(self):
    line = self.infile.readline()
    return line != ''

  def __iter__(self):
    tm_record = self.read_record()
    while tm_record:
      yield tm_record
      tm_record = self.read_record()

