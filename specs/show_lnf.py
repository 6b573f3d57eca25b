def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  with IO.Reader(args.tm_file) as reader:
    for tm_record in reader:
      new_tm = brute_lnf(tm_record.tm())
      print(f'{new_tm.init_state}{new_tm.init_symbol}: {new_tm.ttable_str()}')

