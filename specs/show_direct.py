def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  tm = IO.get_tm(args.tm)
  print(tm.ttable_str())
  sim = DirectSimulator(tm)
  start_time = time.time()
  sim.seek(args.num_steps)
  print(f'Simulated {sim.step_num:_} steps in {time.time() - start_time:_.1f}s')
  if sim.halted:
    print(f'Halted with score {sim.halt_score:_} at step {sim.step_num:_}')

