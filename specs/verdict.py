def set_halting(tm_status, halt_steps, halt_score, from_state, from_symbol):
  tm_status.halt_status.is_halting = True
  set_big_int(tm_status.halt_status.halt_steps, halt_steps)
  if halt_score is not None:
    set_big_int(tm_status.halt_status.halt_score, halt_score)
  if from_state is not None:
    tm_status.halt_status.from_state = from_state
  if from_symbol is not None:
    tm_status.halt_status.from_symbol = from_symbol
  tm_status.halt_status.is_decided = True
  set_not_quasihalting(tm_status)

def set_not_halting(tm_status, inf_reason):
  tm_status.halt_status.is_halting = False
  tm_status.halt_status.inf_reason = inf_reason
  tm_status.halt_status.is_decided = True

def set_not_quasihalting(tm_status):
  tm_status.quasihalt_status.is_quasihalting = False
  tm_status.quasihalt_status.is_decided = True

def set_inf_recur(tm_status, states_to_ignore, states_last_seen):
  if states_last_seen is None or states_to_ignore is None:
    tm_status.quasihalt_status.is_decided = False
    return
  q_state = None
  q_last_seen = -1
  for state, last_seen in states_last_seen.items():
    if state not in states_to_ignore:
      if last_seen > q_last_seen:
        q_state = state
        q_last_seen = states_last_seen[state]
  if q_state == None:
    tm_status.quasihalt_status.is_quasihalting = False
  else:
    tm_status.quasihalt_status.is_quasihalting = True
    set_big_int(tm_status.quasihalt_status.quasihalt_steps, q_last_seen + 1)
    tm_status.quasihalt_status.quasihalt_state = q_state
  tm_status.quasihalt_status.is_decided = True

