def CTL(machine, config, end_time=None, verbose=False):
  new_table = CTL_Table()
  for d in range(2):
    new_table[config.state, config.dir]
    for symb in config.tape[d]:
      new_table[config.state, config.dir][d].add(symb)
  table = None
  num_iters = 0
  while table != new_table:
    if end_time and time.time() >= end_time:
      return (False, num_iters)
    if verbose:
      for term in new_table:
        pass
    table, new_table = (new_table, CTL_Table())
    for state, dir in table:
      for symb in table[state, dir][dir]:
        trans = machine.get_trans_object(symb, state, dir)
        if trans.condition != Turing_Machine.RUNNING:
          return (False, num_iters)
        pass
        for d in range(2):
          new_table[trans.state_out, trans.dir_out][d].update(table[state, dir][d])
        new_table[trans.state_out, trans.dir_out][not trans.dir_out].add(trans.symbol_out)
      symb = machine.init_symbol
      trans = machine.get_trans_object(symb, state, dir)
      if trans.condition != Turing_Machine.RUNNING:
        return (False, num_iters)
      new_table[trans.state_out, trans.dir_out][not dir].update(table[state, dir][not dir])
      new_table[trans.state_out, trans.dir_out][not trans.dir_out].add(trans.symbol_out)
    for x in table:
      for d in range(2):
        new_table[x][d].update(table[x][d])
    num_iters += 1
  return (True, num_iters)

def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, verbose=False):
  m = base_tm
  if block_size != 1:
    m = Turing_Machine.Block_Macro_Machine(m, block_size, offset)
  if use_backsymbol:
    m = Turing_Machine.Backsymbol_Macro_Machine(m)
  options = Simulator.create_default_options()
  options.prover = False
  sim = Simulator.Simulator(m, options)
  sim.seek(cutoff)
  if sim.op_state != Turing_Machine.RUNNING:
    return (False, 0)
  tape = [None, None]
  for d in range(2):
    tape[d] = [block.symbol for block in reversed(sim.tape.tape[d]) if block.num != 'Inf']
  config = GenContainer(state=sim.state, dir=sim.dir, tape=tape)
  return CTL(m, config, verbose=verbose)

class CTL_Table:
  def __getitem__(self, key):
    if key not in self:
      self[key] = (set(), set())
    return dict.__getitem__(self, key)

class GenContainer:
  def __init__(self, **args):
    for atr in args:
      self.__dict__[atr] = args[atr]

