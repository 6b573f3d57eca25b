def tm_to_markdown(tm):
  result = ''
  result += '|     |'
  for symbol in range(tm.num_symbols):
    result += '  %d  |' % symbol
  result += '\n'
  result += '| :-: ' * (tm.num_symbols + 1) + '|\n'
  for state_in in range(tm.num_states):
    result += '|  %c  |' % Turing_Machine.STATES[state_in]
    for symbol_in in range(tm.num_symbols):
      trans = tm.get_trans_object(state_in=state_in, symbol_in=symbol_in)
      if trans.condition == Turing_Machine.UNDEFINED:
        result += ' --- |'
      else:
        result += ' %c%c%c |' % (Turing_Machine.SYMBOLS[trans.symbol_out], Turing_Machine.DIRS[trans.dir_out], Turing_Machine.STATES[trans.state_out])
    result += '\n'
  return result

def main():
  parser = argparse.ArgumentParser()
  args = parser.parse_args()
  tm = IO.get_tm(args.tm)
  if args.format == 'markdown':
    print(tm_to_markdown(tm))
  else:
    raise Exception('Unexpected value for --format: %s' % (args.format,))

