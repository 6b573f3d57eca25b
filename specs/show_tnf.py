def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  with IO.StdText.Writer(sys.stdout) as writer:
    if args.tm:
      tm = IO.parse_tm(args.tm)
      new_tm = to_TNF(tm, args.max_steps)
      if new_tm:
        writer.write_tm(new_tm)
      else:
        print(f'Failed to find TNF for {tm.ttable_str()}')
    else:
      with IO.StdText.Reader(sys.stdin) as reader:
        for tm_record in reader:
          new_tm = to_TNF(tm_record.tm(), args.max_steps)
          if new_tm:
            writer.write_tm(new_tm)
          else:
            print(f'Failed to find TNF for {tm_record.tm().ttable_str()}')

