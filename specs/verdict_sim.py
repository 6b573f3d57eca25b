def run_options(tm_record, options):
  base_tm = tm_record.tm()
  with IO.Timer(tm_record.proto):
    if options.reverse_engineer:
      with IO.Timer(tm_record.proto.filter.reverse_engineer):
        tm_record.proto.filter.reverse_engineer.tested = True
        if Reverse_Engineer_Filter.is_infinite(base_tm):
          tm_record.proto.filter.reverse_engineer.success = True
          Halting_Lib.set_not_halting(tm_record.proto.status, io_pb2.INF_REVERSE_ENGINEER)
          tm_record.proto.status.quasihalt_status.is_decided = False
          return
        else:
          tm_record.proto.filter.reverse_engineer.success = False
    if options.lin_steps:
      lr_info = tm_record.proto.filter.lin_recur
      lr_info.parameters.max_steps = options.lin_steps
      lr_info.parameters.find_min_start_step = options.lin_min
      Lin_Recur_Detect.filter(base_tm, lr_info, tm_record.proto.status)
      if tm_record.proto.status.halt_status.is_decided:
        return
    if options.run_sim:
      block_size = options.block_size
      if not block_size:
        if options.max_loops:
          bf_loops = options.max_loops // 100
        else:
          bf_loops = 100
        bf_info = tm_record.proto.filter.block_finder
        bf_info.parameters.compression_search_loops = bf_loops
        bf_info.parameters.mult_sim_loops = bf_loops
        bf_info.parameters.max_block_mult = options.max_block_mult
        bf_info.parameters.block_mult = options.block_mult
        bf_info.parameters.max_block_size = options.max_block_size
        Block_Finder.block_finder(base_tm, options, bf_info.parameters, bf_info.result)
        block_size = bf_info.result.best_block_size
      machine = base_tm
      if block_size != 1:
        machine = Turing_Machine.Block_Macro_Machine(machine, block_size)
      if options.backsymbol:
        machine = Turing_Machine.Backsymbol_Macro_Machine(machine)
      if options.ctl:
        if options.max_loops:
          ctl_init_step = options.max_loops // 10
        else:
          ctl_init_step = 1000
        if CTL_Filter.filter(tm_record, 'CTL2', block_size, offset=0, cutoff=ctl_init_step, use_backsymbol=True):
          return
      sim_info = tm_record.proto.filter.simulator
      sim_info.parameters.block_size = block_size
      sim_info.parameters.has_blocksymbol_macro = options.backsymbol
      simulate_machine(machine, options, sim_info, tm_record.proto.status)

def simulate_machine(machine, options, sim_info, bb_status):
  with IO.Timer(sim_info.result):
    sim_info.parameters.max_loops = options.max_loops
    sim_info.parameters.max_time_sec = options.time
    sim_info.parameters.max_tape_blocks = options.tape_limit
    sim_info.parameters.use_prover = options.prover
    sim_info.parameters.use_limited_rules = options.limited_rules
    sim_info.parameters.use_recursive_rules = options.recursive
    if options.exp_linear_rules:
      options.compute_steps = False
    sim = Simulator.Simulator(machine, options)
    try:
      while (sim_info.parameters.max_loops == 0 or sim.num_loops < sim_info.parameters.max_loops) and sim.op_state == Turing_Machine.RUNNING and (sim.tape.compressed_size() <= sim_info.parameters.max_tape_blocks):
        sim.step()
    finally:
      sim_info.result.num_loops = sim.num_loops
      sim_info.result.num_macro_moves = sim.num_macro_moves
      sim_info.result.num_chain_moves = sim.num_chain_moves
      sim_info.result.num_rule_moves = sim.num_rule_moves
      if sim.step_num > 0:
        sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
      if sim.prover:
        sim_info.result.num_rules_proven = sim.prover.num_rules
        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
    if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
      sim_info.result.unknown_info.over_tape.compressed_tape_size = sim.tape.compressed_size()
    elif sim.op_state == Turing_Machine.RUNNING:
      sim_info.result.unknown_info.over_loops.num_loops = sim.num_loops
    elif sim.op_state == Turing_Machine.GAVE_UP:
      over_steps_in_macro_info = sim_info.result.unknown_info.over_steps_in_macro
      over_steps_in_macro_info.macro_symbol = str(sim.tape.get_top_symbol())
      over_steps_in_macro_info.macro_state = str(sim.state)
      over_steps_in_macro_info.macro_dir_is_right = sim.dir == Turing_Machine.RIGHT
    elif sim.op_state == Turing_Machine.INF_REPEAT:
      Halting_Lib.set_not_halting(bb_status, sim.inf_reason)
      if sim.states_last_seen is None:
        bb_status.quasihalt_status.is_decided = False
      else:
        Halting_Lib.set_inf_recur(bb_status, states_to_ignore=sim.inf_recur_states, states_last_seen=sim.states_last_seen)
      inf_info = sim_info.result.infinite_info
      if sim.inf_reason == io_pb2.INF_MACRO_STEP:
        inf_info.macro_repeat.macro_symbol = str(sim.tape.get_top_symbol())
        inf_info.macro_repeat.macro_state = str(sim.state)
        inf_info.macro_repeat.macro_dir_is_right = sim.dir == Turing_Machine.RIGHT
      elif sim.inf_reason == io_pb2.INF_CHAIN_STEP:
        inf_info.chain_move.macro_state = str(sim.state)
        inf_info.chain_move.dir_is_right = sim.dir == Turing_Machine.RIGHT
      elif sim.inf_reason == io_pb2.INF_PROOF_SYSTEM:
        inf_info.proof_system.rule = '?'
      else:
        raise Exception(sim.inf_reason)
    elif sim.op_state in (Turing_Machine.UNDEFINED, Turing_Machine.HALT):
      from_symbol, from_state = sim.op_details[0][:2]
      halt_info = sim_info.result.halt_info.is_halting = True
      Halting_Lib.set_halting(bb_status, halt_steps=sim.step_num, halt_score=sim.get_nonzeros(), from_state=from_state, from_symbol=from_symbol)
    else:
      raise Exception(sim.op_state, sim)

