def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  if not args.window_size:
    args.window_size = 3 * args.block_size
  assert args.window_size >= 2 * args.block_size
  cg_result = io_pb2.ClosedGraphFilterResult()
  bb_status = io_pb2.BBStatus()
  tm = IO.get_tm(args.tm)
  print(tm.ttable_str())
  graph_set = filter(tm, args.block_size, args.window_size, args.max_steps, args.max_iters, args.max_configs, args.max_edges, cg_result, bb_status)
  if args.verbose:
    graph_set.print_debug()
  if args.savask_cert:
    print()
    print(tm.ttable_str(), graph_set.savask_cert())
  print()
  print(cg_result)
  print(bb_status)

