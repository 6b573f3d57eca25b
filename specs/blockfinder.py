def block_finder(machine, options, params, result):
  if params.max_block_size:
    max_block_size = params.max_block_size
  else:
    max_block_size = math.inf
  with IO.Timer(result):
    new_options = copy.copy(options)
    new_options.compute_steps = True
    new_options.prover = False
    new_options.verbose_simulator = False
    pass
    if params.compression_search_loops:
      sim = Simulator(machine, new_options)
      max_length = len(sim.tape.tape[0]) + len(sim.tape.tape[1])
      worst_loop = 0
      for i in range(params.compression_search_loops):
        sim.step()
        tape_length = len(sim.tape.tape[0]) + len(sim.tape.tape[1])
        if tape_length > max_length:
          max_length = tape_length
          worst_loop = sim.num_loops
        if sim.op_state != Turing_Machine.RUNNING:
          result.best_block_size = 1
          return
      result.least_compressed_loop = worst_loop
      result.least_compressed_tape_size_chain = max_length
      sim = Simulator(machine, new_options)
      sim.loop_seek(worst_loop)
      assert len(sim.tape.tape[0]) + len(sim.tape.tape[1]) == max_length
      tape = uncompress_tape(sim.tape.tape)
      result.least_compressed_tape_size_raw = len(tape)
      if options.verbose_block_finder:
        tape_str = ''.join((str(symb) for symb in tape))
      min_compr = len(tape) + 1
      opt_size = 1
      for block_size in range(1, len(tape) // 2):
        compr_size = compression_efficiency(tape, block_size)
        if compr_size < min_compr:
          if block_size <= max_block_size:
            min_compr = compr_size
            opt_size = block_size
          else:
            break
      result.best_compression_block_size = opt_size
      result.best_compression_tape_size = min_compr
    else:
      opt_size = 1
    if params.block_mult:
      result.best_block_size = params.block_mult * opt_size
      if options.verbose_block_finder:
        sys.stdout.flush()
      return
    if params.mult_sim_loops <= 0:
      result.best_block_size = opt_size
      return
    pass
    max_chain_factor = 0
    opt_mult = 1
    mult = 1
    while mult <= opt_mult + params.max_block_mult and mult * opt_size <= max_block_size:
      block_machine = Turing_Machine.Block_Macro_Machine(machine, mult * opt_size)
      back_machine = Turing_Machine.Backsymbol_Macro_Machine(block_machine)
      sim = Simulator(back_machine, new_options)
      sim.loop_seek(params.mult_sim_loops)
      if sim.op_state != Turing_Machine.RUNNING:
        result.best_block_size = mult * opt_size
        return
      chain_factor = sim.steps_from_chain / sim.steps_from_macro
      pass
      if chain_factor > 2 * max_chain_factor:
        max_chain_factor = chain_factor
        opt_mult = mult
      mult += 1
    result.best_mult = opt_mult
    result.best_chain_factor = max_chain_factor
    result.best_block_size = opt_mult * opt_size
  if options.verbose_block_finder:
    sys.stdout.flush()

def uncompress_tape(compr_tape):
  tape_out = []
  left_tape = compr_tape[0][1:]
  right_tape = compr_tape[1][1:]
  right_tape.reverse()
  for seq in left_tape + right_tape:
    tape_out += [seq.symbol] * seq.num
  return tape_out

def compression_efficiency(tape, k):
  compr_size = len(tape)
  for i in range(0, len(tape) - 2 * k, k):
    if tape[i:i + k] == tape[i + k:i + 2 * k]:
      compr_size -= k
  return compr_size

