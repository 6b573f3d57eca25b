class Simulator:
  def __init__(self, machine, options, verbose_prefix='', init_tape=True, is_base_simulator=True):
    assert isinstance(options, optparse.Values)
    self.machine = machine
    self.options = options
    self.verbose = options.verbose_simulator
    self.verbose_prefix = verbose_prefix
    self.is_base_simulator = is_base_simulator
    self.compute_steps = options.compute_steps
    self.state = machine.init_state
    self.dir = machine.init_dir
    self.old_step_num = 0
    self.step_num = 0
    if init_tape:
      self.tape = Tape.Chain_Tape()
      self.tape.init(self.machine.init_symbol, self.machine.init_dir, options)
    if options.prover:
      self.prover = Proof_System.Proof_System(machine=self.machine, options=options, verbose_prefix=self.verbose_prefix + '  ')
    else:
      self.prover = None
    self.op_state = Turing_Machine.RUNNING
    self.op_details = ()
    self.start_time = time.time()
    self.num_loops = 0
    self.num_macro_moves = 0
    self.num_chain_moves = 0
    self.num_rule_moves = 0
    if self.compute_steps:
      self.steps_from_macro = 0
      self.steps_from_chain = 0
      self.steps_from_rule = 0
      self.states_last_seen = {}
    else:
      self.steps_from_macro = None
      self.steps_from_chain = None
      self.steps_from_rule = None
      self.states_last_seen = None

  def run(self, steps):
    self.seek(self.step_num + steps)

  def seek(self, cutoff):
    while self.step_num < cutoff and self.op_state == Turing_Machine.RUNNING:
      self.step()

  def loop_run(self, loops):
    self.loop_seek(self.num_loops + loops)

  def loop_seek(self, cutoff):
    while self.num_loops < cutoff and self.op_state == Turing_Machine.RUNNING:
      self.step()

  def step(self):
    if self.op_state != Turing_Machine.RUNNING:
      return
    if self.compute_steps:
      self.old_step_num = self.step_num
    self.num_loops += 1
    if self.prover:
      prover_result = self.prover.log_and_apply(self.tape, self.state, self.step_num, self.num_loops - 1)
      if prover_result.condition == Proof_System.INF_REPEAT:
        self.op_state = Turing_Machine.INF_REPEAT
        self.inf_reason = io_pb2.INF_PROOF_SYSTEM
        if prover_result.states_last_seen:
          self.inf_recur_states = list(prover_result.states_last_seen.keys())
        else:
          self.inf_recur_states = None
        self.verbose_print()
        return
      elif prover_result.condition == Proof_System.APPLY_RULE:
        if self.is_base_simulator and prover_result.states_last_seen:
          assert not isinstance(list(prover_result.states_last_seen.values())[0], Algebraic_Expression)
        self.tape = prover_result.new_tape
        self.num_rule_moves += 1
        if prover_result.num_base_steps is None:
          self.compute_steps = False
        if self.compute_steps:
          if self.states_last_seen is not None and prover_result.states_last_seen:
            for state, prover_last_seen in prover_result.states_last_seen.items():
              self.states_last_seen[state] = self.step_num + prover_last_seen
          else:
            self.states_last_seen = None
          self.step_num += prover_result.num_base_steps
          self.steps_from_rule += prover_result.num_base_steps
        self.verbose_print()
        return
    cur_symbol = self.tape.get_top_symbol()
    trans = self.machine.get_trans_object(cur_symbol, self.state, self.dir)
    self.op_state = trans.condition
    self.op_details = trans.condition_details
    if self.op_state == Turing_Machine.INF_REPEAT:
      self.inf_reason = io_pb2.INF_MACRO_STEP
      self.inf_recur_states = list(trans.states_last_seen.keys())
    elif trans.state_out == self.state and trans.dir_out == self.dir and (self.op_state == Turing_Machine.RUNNING):
      num_reps = self.tape.apply_chain_move(trans.symbol_out)
      if num_reps == math.inf:
        self.op_state = Turing_Machine.INF_REPEAT
        self.inf_reason = io_pb2.INF_CHAIN_STEP
        self.inf_recur_states = list(trans.states_last_seen.keys())
        return
      self.num_chain_moves += 1
      if self.compute_steps:
        if self.states_last_seen is not None:
          for state, trans_last_seen in trans.states_last_seen.items():
            self.states_last_seen[state] = self.step_num + trans.num_base_steps * (num_reps - 1) + trans_last_seen
        self.step_num += trans.num_base_steps * num_reps
        self.steps_from_chain += trans.num_base_steps * num_reps
    elif self.op_state != Turing_Machine.GAVE_UP:
      self.tape.apply_single_move(trans.symbol_out, trans.dir_out)
      self.state = trans.state_out
      self.dir = trans.dir_out
      self.num_macro_moves += 1
      if self.compute_steps:
        if self.states_last_seen is not None:
          for state, trans_last_seen in trans.states_last_seen.items():
            self.states_last_seen[state] = self.step_num + trans_last_seen
        self.step_num += trans.num_base_steps
        self.steps_from_macro += trans.num_base_steps
    if self.op_state != Turing_Machine.UNDEFINED:
      self.verbose_print()

  def get_nonzeros(self):
    return self.tape.get_nonzeros(self.machine.eval_symbol, self.machine.eval_state(self.state))

