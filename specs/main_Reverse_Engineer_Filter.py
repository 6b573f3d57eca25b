def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  with IO.Proto.Writer(args.outfile) as writer:
    with IO.Reader(args.infile) as reader:
      for tm_record in reader:
        filter(tm_record)
        writer.write_record(tm_record)

