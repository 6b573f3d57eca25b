def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  with IO.StdText.Writer(sys.stdout) as writer:
    if args.tm:
      tm = IO.parse_tm(args.tm)
      write_perms(tm, writer, args.tnf_max_steps)
    else:
      with IO.StdText.Reader(sys.stdin) as reader:
        for tm_record in reader:
          write_perms(tm_record.tm(), writer, args.tnf_max_steps)

