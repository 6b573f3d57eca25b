def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  tm = IO.get_tm(args.tm)
  success, num_iters = test_CTL(tm, cutoff=args.cutoff, block_size=args.block_size, offset=args.offset, use_backsymbol=not args.no_backsymbol, verbose=True)
  print()
  if success:
    print('Success :) in', num_iters, 'iterations')
  else:
    print('Failure :( in', num_iters, 'iterations')

