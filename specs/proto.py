def load_record(filename, record_num):
  with Reader(filename) as reader:
    for _ in range(record_num):
      reader.skip_record()
    rec = reader.read_record()
    if rec:
      return rec
    else:
      raise RecordLocateError(f'File {filename} does not contain record # {record_num}')

class Writer:
  def __init__(self, outfilename):
    self.outfilename = Path(outfilename)
    self.outfile = None

  def __enter__(self):
    if '.gz' in self.outfilename.suffixes:
      self.outfile = gzip.open(self.outfilename, 'wb')
    else:
      self.outfile = open(self.outfilename, 'wb')
    return self

  def __exit__(self, *args):
    self.outfile.close()

  def write_record(self, tm_record):
    pb_bytes = tm_record.proto.SerializeToString()
    len_bytes = struct.pack('<L', len(pb_bytes))
    self.outfile.write(len_bytes)
    self.outfile.write(pb_bytes)

  def flush(self):
    self.outfile.flush()

class Reader:
  def __init__(self, infilename):
    self.infilename = Path(infilename)
    self.infile = None

  def __enter__(self):
    if '.gz' in self.infilename.suffixes:
      self.infile = gzip.open(self.infilename, 'rb')
    else:
      self.infile = open(self.infilename, 'rb')
    return self

  def __exit__(self, *args):
    self.infile.close()

  def _read_message_len(self):
    len_bytes = self.infile.read(4)
    if len(len_bytes) > 0:
      if len(len_bytes) != 4:
        raise IO_Error(f'Unexpected EOF while reading length block (expected 4 bytes, got {len(len_bytes)}).')
      return struct.unpack('<L', len_bytes)[0]

  def read_record(self):
    pb_len = self._read_message_len()
    if pb_len != None:
      pb_bytes = self.infile.read(pb_len)
      if len(pb_bytes) != pb_len:
        raise IO_Error(f'Unexpected EOF while reading data block (expected {pb_len}, got {len(pb_bytes)})')
      tm_proto = io_pb2.TMRecord()
      tm_proto.ParseFromString(pb_bytes)
      tm_record = TM_Record(proto=tm_proto)
      return tm_record

  def skip_record(self):
    pb_len = self._read_message_len()
    if pb_len != None:
      pb_bytes = self.infile.seek(pb_len, 1)
      return True
    return False

  def __iter__(self):
    tm_record = self.read_record()
    while tm_record != None:
      yield tm_record
      tm_record = self.read_record()

