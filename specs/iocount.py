def main():
  parser = argparse.ArgumentParser()
  parser.add_argument('tm_file', type=Path, nargs='+')
  parser.add_argument('--print-freq', type=int, default=1000000)
  parser.add_argument('--summary', '-s', action='store_true', help='Only show total across all input files. Not individual files sizes.')
  args = parser.parse_args()
  count = 0
  start_time = time.time()
  for filename in args.tm_file:
    file_count = 0
    try:
      with IO.Proto.Reader(filename) as reader:
        while reader.skip_record():
          file_count += 1
          if args.print_freq and file_count % args.print_freq == 0:
            print(f' ... {file_count:_} ({time.time() - start_time:_.2f}s)')
    except IO.Proto.IO_Error:
      print(f'ERROR: {filename} has unexpected EOF. Moving on.')
    if not args.summary:
      print(f'# TMs {filename}: {file_count:_} ({time.time() - start_time:_.2f}s)')
    count += file_count
  print(f'Total # TMs: {count:_} ({time.time() - start_time:_.2f}s)')

