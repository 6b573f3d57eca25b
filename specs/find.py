def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  for infile in args.infiles:
    with Reader(infile) as reader:
      for tm_record in reader:
        if tm_record.tm().ttable_str() == args.tm:
          if tm_record.proto.status.halt_status.is_halting:
            score_str = Halting_Lib.big_int_approx_and_full_str(Halting_Lib.get_big_int(tm_record.proto.status.halt_status.halt_score))
          return

