def sample(in_filenames, out_filename, sample_size):
  num_records = 1
  num_read = 0
  sample = []
  for in_filename in in_filenames:
    try:
      with IO.Reader(in_filename) as reader:
        while True:
          if len(sample) < sample_size:
            if not (tm_record := reader.read_record()):
              break
            num_read += 1
            sample.append(tm_record)
          elif random.random() < sample_size / num_records:
            if not (tm_record := reader.read_record()):
              break
            num_read += 1
            i = random.randrange(sample_size)
            sample[i] = tm_record
          elif not reader.skip_record():
            break
          num_records += 1
    except IO.Proto.IO_Error:
      pass
  random.shuffle(sample)
  with IO.Proto.Writer(out_filename) as writer:
    for tm_record in sample:
      writer.write_record(tm_record)


def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  sample(args.in_files, args.out_file, args.sample_size)
