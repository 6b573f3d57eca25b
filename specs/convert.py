def Detect_Format(path):
  if '.pb' in path.suffixes:
    return 'proto'
  elif '.morphett' in path.suffixes:
    return 'morphett'
  elif '.db' in path.suffixes:
    return 'bbc_db'
  elif '.index' in path.suffixes:
    if '.txt' in path.suffixes:
      return 'bbc_index_text'
    else:
      return 'bbc_index'
  elif '.old' in path.suffixes:
    return 'text_old'
  else:
    return 'text'

def get_reader(format, filename, args):
  if format == 'text':
    return IO.StdText.Reader(filename)
  elif format == 'proto':
    return IO.Proto.Reader(filename)
  elif format == 'morphett':
    return IO.Morphett.Reader(filename)
  elif format == 'bbc_db':
    return IO.BBC.Reader(filename)
  elif format == 'bbc_index':
    return IO.BBC.IndexReader(args.bbc_seed_db, filename)
  elif format == 'bbc_index_text':
    return IO.BBC.TextIndexReader(args.bbc_seed_db, filename)
  else:
    raise Exception(f'Unexpected format {format}')

def get_writer(format, filename, args):
  if format == 'text':
    return IO.StdText.Writer(filename)
  elif format == 'proto':
    return IO.Proto.Writer(filename)
  elif format == 'morphett':
    return IO.Morphett.Writer(filename)
  elif format == 'text_old':
    return IO.OldText.Writer(filename)
  elif format == 'bbc_db':
    return IO.BBC.Writer(filename)
  elif format == 'bbc_index':
    return NotImplementedError(f'We do not support writing BBC index files.')
  elif format == 'bbc_index_text':
    return NotImplementedError(f'We do not support writing BBC index files.')
  else:
    raise Exception(f'Unexpected format {format}')

def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  if args.informat == 'auto':
    args.informat = Detect_Format(args.infile)
  if args.outformat == 'auto':
    args.outformat = Detect_Format(args.outfile)
  num_records = 0
  with get_writer(args.outformat, args.outfile, args) as writer:
    with get_reader(args.informat, args.infile, args) as reader:
      for tm_record in reader:
        num_records += 1
        writer.write_record(tm_record)

