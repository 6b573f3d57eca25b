def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  if args.block_size:
    assert not args.max_window_size
    args.min_block_size = args.block_size
    args.max_block_size = args.block_size
  assert args.max_block_size or args.max_window_size
  with IO.Writer(args.outfile) as writer:
    with IO.Reader(args.infile) as reader:
      for tm_record in reader:
        filter_all(tm_record, args)
        writer.write_record(tm_record)

