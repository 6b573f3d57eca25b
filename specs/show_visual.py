def parse_config(config_str):
  left = []
  right = []
  in_left = True
  dir_left = None
  state = None
  for block in config_str.split():
    if (m := re.fullmatch('<([A-Za-z])', block)):
      dir_left = True
      state = STATES.index(m.group(1))
      in_left = False
    elif (m := re.fullmatch('([A-Za-z])>', block)):
      dir_left = False
      state = STATES.index(m.group(1))
      in_left = False
    else:
      assert (m := re.fullmatch('(\\d+)(\\^(\\d+))?', block))
      base = [int(x) for x in m.group(1)]
      if m.group(3):
        exp = int(m.group(3))
      else:
        exp = 1
      if in_left:
        left += base * exp
      else:
        right += base * exp
  if dir_left:
    top = left.pop() if left else 0
    right.insert(0, top)
  return (state, left, right)

def should_print(sim, print_ops):
  if 'a' in print_ops:
    return True
  if 'l' in print_ops and sim.tape.pos_leftmost() == sim.tape.position:
    return True
  if 'r' in print_ops and sim.tape.pos_rightmost() == sim.tape.position:
    return True
  return False

def print_tape(sim, args):
  if should_print(sim, args.print):
    half_width = args.print_width // 2 - 10
    if args.relative:
      print_range = range(sim.tape.position - half_width, sim.tape.position + half_width + 1)
    else:
      print_range = range(-half_width, half_width + 1)
    sys.stdout.write('\x1b[0m%10d: ' % sim.step_num)
    for pos in print_range:
      value = sim.tape.read_pos(pos)
      if sim.tape.position == pos:
        sys.stdout.write('\x1b[1;%dm%c' % (COLOR[value], STATES[sim.state]))
      else:
        sys.stdout.write('\x1b[%dm ' % COLOR[value])
    state_str = sim.tm.states[sim.state] if not sim.halted else 'HALT'
    sys.stdout.write(f'\x1b[0m{state_str:4}')
    sys.stdout.write(' \x1b[%dm%2d\x1b[0m\n' % (COLOR[sim.tape.read()], sim.tape.read()))
    sys.stdout.flush()

def run_visual(sim, args):
  print_tape(sim, args)
  while not sim.halted:
    sim.step()
    print_tape(sim, args)
  print('TM Halted on step', sim.step_num)

