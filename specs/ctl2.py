def CTL(machine, config, end_time=None, verbose=False):
  new_table = CTL_Table()
  for d in range(2):
    for symb in config.tape[d][:-1]:
      new_table[config.state, config.dir][d][0].add(symb)
    if len(config.tape[d]) == 0:
      new_table[config.state, config.dir][d][1].add(machine.init_symbol)
    else:
      new_table[config.state, config.dir][d][1].add(config.tape[d][-1])
  table = None
  num_iters = 0
  while table != new_table:
    if end_time and time.time() >= end_time:
      return (False, num_iters)
    if verbose:
      for term in new_table:
        pass
    table, new_table = (new_table, CTL_Table())
    for state, dir in table:
      for symb in table[state, dir][dir][0]:
        trans = machine.get_trans_object(symb, state, dir)
        if trans.condition != Turing_Machine.RUNNING:
          return (False, num_iters)
        pass
        for d in range(2):
          for s in range(2):
            new_table[trans.state_out, trans.dir_out][d][s].update(table[state, dir][d][s])
        new_table[trans.state_out, trans.dir_out][not trans.dir_out][0].add(trans.symbol_out)
      for symb in table[state, dir][dir][1]:
        trans = machine.get_trans_object(symb, state, dir)
        if trans.condition != Turing_Machine.RUNNING:
          return (False, num_iters)
        pass
        for s in range(2):
          new_table[trans.state_out, trans.dir_out][not dir][s].update(table[state, dir][not dir][s])
        if trans.dir_out == dir:
          new_table[trans.state_out, trans.dir_out][not trans.dir_out][0].add(trans.symbol_out)
          new_table[trans.state_out, trans.dir_out][trans.dir_out][1].add(machine.init_symbol)
        else:
          new_table[trans.state_out, trans.dir_out][not trans.dir_out][1].add(trans.symbol_out)
    for x in table:
      for d in range(2):
        for s in range(2):
          new_table[x][d][s].update(table[x][d][s])
    num_iters += 1
  return (True, num_iters)

def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, verbose=False):
  m = base_tm
  if block_size != 1:
    m = Turing_Machine.Block_Macro_Machine(m, block_size, offset)
  if use_backsymbol:
    m = Turing_Machine.Backsymbol_Macro_Machine(m)
  options = Simulator.create_default_options()
  options.prover = False
  sim = Simulator.Simulator(m, options)
  sim.seek(cutoff)
  if sim.op_state != Turing_Machine.RUNNING:
    return (False, 0)
  tape = [None, None]
  for d in range(2):
    tape[d] = [block.symbol for block in reversed(sim.tape.tape[d][1:])]
    if len(sim.tape.tape[d]) >= 2 and sim.tape.tape[d][1].num > 1:
      tape[d].append(sim.tape.tape[d][1].symbol)
  config = GenContainer(state=sim.state, dir=sim.dir, tape=tape)
  return CTL(m, config, verbose=verbose)

class CTL_Table:
  def __getitem__(self, key):
    if key not in self:
      self[key] = ((set(), set()), (set(), set()))
    return dict.__getitem__(self, key)

class GenContainer:
  def __init__(self, **args):
    for atr in args:
      self.__dict__[atr] = args[atr]

