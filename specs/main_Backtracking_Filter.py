def main(argv):
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  with IO.Proto.Writer(args.outfile) as writer:
    with IO.Reader(args.infile) as reader:
      for tm_record in reader:
        backtrack(tm_record, args.steps, args.max_width)
        writer.write_record(tm_record)

