def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  lr_info = io_pb2.LinRecurFilterInfo()
  lr_info.parameters.max_steps = args.max_steps
  lr_info.parameters.find_min_start_step = args.min_start_step
  bb_status = io_pb2.BBStatus()
  tm = IO.get_tm(args.tm)
  filter(tm, lr_info, bb_status)
  print(lr_info)
  print(bb_status)

