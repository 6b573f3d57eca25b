def unpack_trans_ints(trans_bytes : bytes):
  assert len(trans_bytes) == 3
  symbol = int(trans_bytes[0])
  dir_int = int(trans_bytes[1])
  state = int(trans_bytes[2]) - 1
  if dir_int == 0:
    dir = Turing_Machine.RIGHT
  else:
    assert dir_int == 1
    dir = Turing_Machine.LEFT
  if state == -1 and symbol == 0:
    return (None, None, None)
  return (symbol, dir, state)

def unpack_tm(tm_bytes):
  quints = []
  start = 0
  for state_in in range(5):
    for symbol_in in range(2):
      symbol_out, dir_out, state_out = unpack_trans_ints(tm_bytes[start:start + 3])
      quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
      start += 3
  return Turing_Machine.tm_from_quintuples(quints, states=list(range(5)), symbols=list(range(2)))

def load_record(filename, record_num):
  with Reader(filename) as reader:
    for _ in range(record_num):
      reader.skip_record()
    rec = reader.read_record()
    if rec:
      return rec
    else:
      raise RecordLocateError(f'File {filename} does not contain record # {record_num}')

class Reader:
  def __init__(self, infilename):
    self.infilename = infilename
    self.infile = None

  def __enter__(self):
    self.zipfile = zipfile.ZipFile(self.infilename, 'r')
    names = self.zipfile.namelist()
    assert len(names) == 1
    self.infile = self.zipfile.open(names[0])
    self._read_header()
    return self

  def __exit__(self, *args):
    self.infile.close()
    self.zipfile.close()

  def _read_header(self):
    self.infile.seek(_BYTES_HEADER, 0)

  def read_record(self):
    tm_bytes = self.infile.read(_BYTES_PER_RECORD)
    if not tm_bytes:
      return None
    elif len(tm_bytes) != _BYTES_PER_RECORD:
      raise IO_Error(f'Unexpected EOF while reading data block (expected {_BYTES_PER_RECORD}, got {len(tm_bytes)})')
    tm = unpack_tm(tm_bytes)
    tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt=False)
    return TM_Record(tm_enum=tm_enum)

  def skip_record(self):
    tm_bytes = self.infile.read(_BYTES_PER_RECORD)
    return len(tm_bytes) == _BYTES_PER_RECORD

  def get_tm(self, tm_num):
    self.infile.seek(_BYTES_HEADER + tm_num * _BYTES_PER_RECORD, 0)
    return self.read_record()

  def __iter__(self):
    tm_record = self.read_record()
    while tm_record != None:
      yield tm_record
      tm_record = self.read_record()

class IndexReader:
  def __init__(self, db_filename, index_filename):
    self.db_reader = Reader(db_filename)
    self.index_filename = index_filename

  def __enter__(self):
    self.db_reader.__enter__()
    self.index_file = open(self.index_filename, 'rb')
    return self

  def __exit__(self, *args):
    self.db_reader.__exit__(args)
    self.index_file.close()

  def __iter__(self):
    for index in self.indexes():
      yield self.db_reader.get_tm(index)

  def indexes(self):
    while True:
      n_bytes = self.index_file.read(4)
      if not n_bytes:
        return
      elif len(n_bytes) != 4:
        raise IO_Error(f'Unexpected EOF while reading block (expected 4 bytes, got {len(n_bytes)}).')
      yield struct.unpack('>L', n_bytes)[0]

class TextIndexReader:
  def __init__(self, db_filename, index_filename):
    self.db_reader = Reader(db_filename)
    self.index_filename = index_filename

  def __enter__(self):
    self.db_reader.__enter__()
    self.index_file = open(self.index_filename, 'r')
    return self

  def __exit__(self, *args):
    self.db_reader.__exit__(args)
    self.index_file.close()

  def __iter__(self):
    for line in self.index_file:
      index = int(line)
      yield self.db_reader.get_tm(index)


_BYTES_HEADER = 30
_BYTES_PER_RECORD = 30
