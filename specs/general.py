def guess_module(filename):
  filename = Path(filename)
  if '.pb' in filename.suffixes:
    return IO.Proto
  elif '.morphett' in filename.suffixes:
    return IO.Morphett
  else:
    return IO.StdText

def Reader(source):
  if isinstance(source, (Path, str)):
    mod = guess_module(source)
  else:
    mod = IO.StdText
  return mod.Reader(source)

def Writer(source):
  if isinstance(source, (Path, str)):
    mod = guess_module(source)
  else:
    mod = IO.StdText
  return mod.Writer(source)

def load_tm(filename, record_num):
  record = guess_module(filename).load_record(filename, record_num)
  return record.tm()

def get_tm(tm):
  if re.fullmatch('([0-9][LR][A-Z]|---|_)+', tm):
    return parse_tm(tm)
  else:
    if ':' in tm:
      parts = tm.split(':')
      filename = Path(parts[0])
      record_num = int(parts[1])
    else:
      filename = Path(tm)
      record_num = 0
    return load_tm(filename, record_num)

