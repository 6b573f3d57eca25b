def CTL(machine, config, verbose=False):
  new_table = CTL_Table()
  new_table[config.state, config.dir] = config.init_sets
  table = None
  num_iters = 0
  while table != new_table:
    if verbose:
      for term in new_table:
        pass
    table, new_table = (new_table, CTL_Table())
    for state, dir in table:
      for symb in table[state, dir][dir][0]:
        cond, trans, steps = machine.get_transition(symb, state, dir)
        if cond[0] != Turing_Machine.RUNNING:
          return (False, num_iters)
        new_symb, new_state, new_dir = trans
        new_sets = new_table[new_state, new_dir]
        old_sets = table[state, dir]
        if new_dir != dir:
          new_sets[new_dir][0].update(old_sets[new_dir][0])
          new_sets[new_dir][1].update(old_sets[new_dir][1])
          new_sets[not new_dir][0].add(new_symb)
          new_sets[not new_dir][1].update(old_sets[not new_dir][1])
        else:
          new_sets[new_dir][0].update(old_sets[new_dir][1])
          new_sets[new_dir][0].add(machine.init_symbol)
          new_sets[new_dir][1].update(old_sets[new_dir][1])
          new_sets[not new_dir][0].add(new_symb)
          new_sets[not new_dir][1].update(old_sets[not new_dir][0])
          new_sets[not new_dir][1].update(old_sets[not new_dir][1])
    for x in table:
      for d in range(2):
        for s in range(2):
          new_table[x][d][s].update(table[x][d][s])
  return (True, num_iters)

def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, verbose=False):
  m = base_tm
  if block_size != 1:
    m = Turing_Machine.Block_Macro_Machine(m, block_size, offset)
  if use_backsymbol:
    m = Turing_Machine.Backsymbol_Macro_Machine(m)
  options = Simulator.create_default_options()
  options.prover = False
  sim = Simulator.Simulator(m, options)
  sim.seek(cutoff)
  if sim.op_state != Turing_Machine.RUNNING:
    return (False, 0)
  sets = [None, None]
  for d in range(2):
    A = set([sim.tape.tape[d][-1].symbol])
    B = set([block.symbol for block in reversed(sim.tape.tape[d][1:-1])])
    if sim.tape.tape[d][-1].num >= 2 and sim.tape.tape[d][-1] != 'Inf':
      B.add(sim.tape.tape[d][-1].symbol)
    sets[d] = (A, B)
  config = GenContainer(state=sim.state, dir=sim.dir, init_sets=tuple(sets))
  return CTL(m, config, verbose=verbose)

class CTL_Table:
  def __getitem__(self, key):
    if key not in self:
      self[key] = ((set(), set()), (set(), set()))
    return dict.__getitem__(self, key)

class GenContainer:
  def __init__(self, **args):
    for atr in args:
      self.__dict__[atr] = args[atr]

