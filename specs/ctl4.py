def CTL(machine, config, verbose=False):
  new_table = CTL_Table()
  new_table[config.state, config.dir] = config.init_sets
  table = None
  num_iters = 0
  while table != new_table:
    if verbose:
      for term in new_table:
        pass
    table, new_table = (new_table, CTL_Table())
    for state, dir in table:
      for symb in table[state, dir][dir][0]:
        cond, trans, steps = machine.get_transition(symb, state, dir)
        if cond[0] != Turing_Machine.RUNNING:
          return (False, num_iters)
        new_symb, new_state, new_dir = trans
        for d in range(2):
          for s in range(3):
            new_table[new_state, new_dir][d][s].update(table[state, dir][d][s])
        new_table[new_state, new_dir][not new_dir][0].add(new_symb)
      for symb in table[state, dir][dir][1]:
        cond, trans, steps = machine.get_transition(symb, state, dir)
        if cond[0] != Turing_Machine.RUNNING:
          return (False, num_iters)
        new_symb, new_state, new_dir = trans
        for s in range(3):
          new_table[new_state, new_dir][not dir][s].update(table[state, dir][not dir][s])
        if new_dir == dir:
          new_table[new_state, new_dir][not new_dir][0].add(new_symb)
          new_table[new_state, new_dir][new_dir][1].update(table[state, dir][new_dir][2])
          new_table[new_state, new_dir][new_dir][2].add(machine.init_symbol)
        else:
          new_table[new_state, new_dir][not new_dir][1].add(new_symb)
          new_table[new_state, new_dir][not new_dir][2].update(table[state, dir][not new_dir][2])
    for x in table:
      for d in range(2):
        for s in range(3):
          new_table[x][d][s].update(table[x][d][s])
  return (True, num_iters)

def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, verbose=False):
  m = base_tm
  if block_size != 1:
    m = Turing_Machine.Block_Macro_Machine(m, block_size, offset)
  if use_backsymbol:
    m = Turing_Machine.Backsymbol_Macro_Machine(m)
  options = Simulator.create_default_options()
  options.prover = False
  sim = Simulator.Simulator(m, options)
  sim.seek(cutoff)
  if sim.op_state != Turing_Machine.RUNNING:
    return (False, 0)
  sets = [None, None]
  for d in range(2):
    A = set([block.symbol for block in sim.tape.tape[d][2:]])
    if len(sim.tape.tape[d]) >= 3 or (len(sim.tape.tape[d]) == 2 and sim.tape.tape[d][1].num > 1):
      C = set([sim.tape.tape[d][1].symbol])
      if sim.tape.tape[d][1].num > 1:
        B = set([sim.tape.tape[d][1].symbol])
        if len(sim.tape.tape[d]) >= 3:
          A.add(sim.tape.tape[d][2].symbol)
        if sim.tape.tape[d][1].num > 2:
          A.add(sim.tape.tape[d][1].symbol)
      else:
        B = set([sim.tape.tape[d][2].symbol])
        if sim.tape.tape[d][-3].num > 1:
          A.add(sim.tape.tape[d][2].symbol)
    elif len(sim.tape.tape[d]) == 2:
      C = set([sim.tape.tape[d][0].symbol])
      B = set([sim.tape.tape[d][1].symbol])
    else:
      C = set([sim.tape.tape[d][0].symbol])
      B = set([sim.tape.tape[d][0].symbol])
    sets[d] = (A, B, C)
  config = GenContainer(state=sim.state, dir=sim.dir, init_sets=tuple(sets))
  return CTL(m, config, verbose=verbose)

class CTL_Table:
  def __getitem__(self, key):
    if key not in self:
      self[key] = ((set(), set(), set()), (set(), set(), set()))
    return dict.__getitem__(self, key)

class GenContainer:
  def __init__(self, **args):
    for atr in args:
      self.__dict__[atr] = args[atr]

