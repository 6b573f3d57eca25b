def sorting_func(tm_record):
  val = Halting_Lib.get_big_int(tm_record.proto.status.halt_status.halt_score)
  if not val:
    return 0
  else:
    return val

def sort(in_filename, out_filename):
  start_time = time.time()
  tm_records = []
  try:
    with IO.Reader(in_filename) as reader:
      for tm_record in reader:
        tm_records.append(tm_record)
  except IO.Proto.IO_Error:
    pass
  start_time = time.time()
  tm_records.sort(key=sorting_func, reverse=True)
  start_time = time.time()
  with IO.Proto.Writer(out_filename) as writer:
    for tm_record in tm_records:
      writer.write_record(tm_record)


def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  sort(args.in_file, args.out_file)
