def filter(tm_record, block_size, window_size, max_steps, max_iters, max_configs, max_edges):
  CPS.filter(tm_record.tm(), block_size, window_size, max_steps, max_iters, max_configs, max_edges, tm_record.proto.filter.closed_graph.result, tm_record.proto.status)

def filter_all(tm_record, args):
  tm_record.clear_proto()
  info = tm_record.proto.filter.closed_graph
  with IO.Timer(info.result):
    if args.max_block_size:
      info.parameters.min_block_size = args.min_block_size
      info.parameters.max_block_size = args.max_block_size
    info.parameters.search_all_windows = bool(args.max_window_size)
    info.parameters.max_steps = args.max_steps
    info.parameters.max_iters = args.max_iters
    info.parameters.max_configs = args.max_configs
    info.parameters.max_edges = args.max_edges
    if not args.max_window_size:
      for block_size in range(args.min_block_size, args.max_block_size + 1):
        window_size = 3 * block_size
        filter(tm_record, block_size, window_size, args.max_steps, args.max_iters, args.max_configs, args.max_edges)
        if info.result.success:
          return
    else:
      for window_size in range(2, args.max_window_size + 1):
        max_block_size = window_size // 2
        for block_size in range(1, max_block_size + 1):
          filter(tm_record, block_size, window_size, args.max_steps, args.max_iters, args.max_configs, args.max_edges)
          if info.result.success:
            return

