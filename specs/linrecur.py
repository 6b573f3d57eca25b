def in_range(tape, pos):
  return tape.pos_leftmost() <= pos <= tape.pos_rightmost()

def are_half_tapes_equal(tape1, start_pos1, tape2, start_pos2, dir_offset):
  pos1 = start_pos1
  pos2 = start_pos2
  while in_range(tape1, pos1) or in_range(tape2, pos2):
    if tape1.read_pos(pos1) != tape2.read_pos(pos2):
      return False
    pos1 += dir_offset
    pos2 += dir_offset
  return True

def are_sections_equal(start_tape, end_tape, most_left_pos, most_right_pos, offset):
  for start_pos in range(most_left_pos, most_right_pos + 1):
    end_pos = start_pos + offset
    if start_tape.read_pos(start_pos) != end_tape.read_pos(end_pos):
      return False
  return True

def lin_detect_not_min(tm, max_steps, result, bb_status):
  sim = Direct_Simulator.DirectSimulator(tm)
  states_last_seen = {sim.state: sim.step_num}
  sim.step()
  while (not max_steps or sim.step_num < max_steps) and (not result.success):
    init_step_num = sim.step_num
    steps_reset = 2 * init_step_num
    init_pos = sim.tape.position
    most_left_pos = most_right_pos = init_pos
    init_state = sim.state
    init_tape = sim.tape.copy()
    states_used = set()
    while sim.step_num < steps_reset and (not result.success):
      states_last_seen[sim.state] = sim.step_num
      states_used.add(sim.state)
      sim.step()
      if sim.halted:
        result.success = False
        Halting_Lib.set_halting(bb_status, halt_steps=sim.step_num, halt_score=sim.halt_score, from_state=sim.halt_from_state, from_symbol=sim.halt_from_symbol)
        return
      most_left_pos = min(most_left_pos, sim.tape.position)
      most_right_pos = max(most_right_pos, sim.tape.position)
      if sim.state == init_state:
        offset = sim.tape.position - init_pos
        if offset > 0:
          if are_half_tapes_equal(init_tape, most_left_pos, sim.tape, most_left_pos + offset, dir_offset=+1):
            result.success = True
        elif offset < 0:
          if are_half_tapes_equal(init_tape, most_right_pos, sim.tape, most_right_pos + offset, dir_offset=-1):
            result.success = True
        elif are_sections_equal(init_tape, sim.tape, most_left_pos, most_right_pos, offset):
          result.success = True
  if result.success:
    result.start_step = init_step_num
    result.period = sim.step_num - init_step_num
    result.offset = offset
    Halting_Lib.set_inf_recur(bb_status, states_to_ignore=states_used, states_last_seen=states_last_seen)
    Halting_Lib.set_not_halting(bb_status, io_pb2.INF_LIN_RECUR)
    return
  else:
    result.success = False
    return

def check_recur(tm, init_step, period):
  sim = Direct_Simulator.DirectSimulator(tm)
  sim.seek(init_step)
  init_pos = sim.tape.position
  most_left_pos = most_right_pos = init_pos
  init_state = sim.state
  init_tape = sim.tape.copy()
  for _ in range(period):
    sim.step()
    most_left_pos = min(most_left_pos, sim.tape.position)
    most_right_pos = max(most_right_pos, sim.tape.position)
  if sim.state == init_state:
    offset = sim.tape.position - init_pos
    if offset > 0:
      if are_half_tapes_equal(init_tape, most_left_pos, sim.tape, most_left_pos + offset, dir_offset=+1):
        return True
    elif offset < 0:
      if are_half_tapes_equal(init_tape, most_right_pos, sim.tape, most_right_pos + offset, dir_offset=-1):
        return True
    elif are_sections_equal(init_tape, sim.tape, most_left_pos, most_right_pos, offset):
      return True
  return False

def period_search(tm, init_step, period):
  low = -1
  high = init_step
  while high - low > 1:
    mid = (high + low) // 2
    if check_recur(tm, mid, period):
      high = mid
    else:
      low = mid
  return high

def filter(tm, lr_info, bb_status):
  with IO.Timer(lr_info.result):
    lin_detect_not_min(tm, max_steps=lr_info.parameters.max_steps, result=lr_info.result, bb_status=bb_status)
    if lr_info.result.success and lr_info.parameters.find_min_start_step:
      lr_info.result.start_step = period_search(tm, lr_info.result.start_step, lr_info.result.period)

