def config_fits_min(var_list, min_list, current_list, assignment=None):
  for var, min_val, current_val in zip(var_list, min_list, current_list):
    if var:
      if not always_ge(current_val, min_val):
        return False
      if assignment != None:
        assignment[var] = current_val
  return True

class Proof_System:
  def log_and_apply(self, tape, state, step_num, loop_num):
    stripped_config = strip_config(state, tape.dir, tape.tape)
    full_config = (state, tape, step_num, loop_num)
    result = self.try_apply_a_rule(stripped_config, full_config)
    if result:
      return result
    if self.past_configs is None or self.frozen:
      return ProverResult(NOTHING_TO_DO)
    past_config = self.past_configs[stripped_config]
    if past_config.log_config(step_num, loop_num):
      rule = self.prove_rule(stripped_config, full_config, loop_num - past_config.last_loop_num)
      if not rule:
        self.num_failed_proofs += 1
      else:
        self.add_rule(rule, stripped_config)
        is_good, res = self.apply_rule(rule, full_config)
        if is_good:
          result, large_delta = res
          rule.num_uses += 1
          assert isinstance(result, ProverResult)
          return result
    elif len(self.past_configs) > self.options.max_prover_configs:
      self.past_configs.clear()
    return ProverResult(NOTHING_TO_DO)

  def try_apply_a_rule(self, stripped_config, full_config):
    if self.options.limited_rules:
      return self.try_apply_a_limited_rule(stripped_config, full_config)
    elif stripped_config in self.rules:
      rule = self.rules[stripped_config]
      is_good, res = self.apply_rule(rule, full_config)
      if is_good:
        result, large_delta = res
        if not self.recursive or large_delta:
          if self.past_configs is not None:
            self.past_configs.clear()
        rule.num_uses += 1
        assert isinstance(result, ProverResult)
        return result
      if res != UNPROVEN_PARITY:
        return ProverResult(NOTHING_TO_DO)

  def try_apply_a_limited_rule(self, stripped_config, full_config):
    state, dir, stripped_tape_left, stripped_tape_right = stripped_config
    stripped_tape_left = (Tape.Repeated_Symbol(0, -1),) + stripped_tape_left
    stripped_configs_left = [(0, state, dir, stripped_tape_left[-i:], i) for i in range(1, len(stripped_tape_left) + 1)]
    list_left = [rule for config in stripped_configs_left if config in self.rules for rule in self.rules[config]]
    stripped_tape_right = (Tape.Repeated_Symbol(0, -1),) + stripped_tape_right
    stripped_configs_right = [(1, state, dir, stripped_tape_right[-i:], i) for i in range(1, len(stripped_tape_right) + 1)]
    list_right = [rule for config in stripped_configs_right if config in self.rules for rule in self.rules[config]]
    rules = list(set(list_left) & set(list_right))
    for rule in rules:
      is_good, res = self.apply_rule(rule, full_config)
      if is_good:
        result, large_delta = res
        if not self.recursive or large_delta:
          if self.past_configs is not None:
            self.past_configs.clear()
        rule.num_uses += 1
        assert isinstance(result, ProverResult)
        return result

  def add_rule(self, rule, stripped_config):
    if isinstance(rule, Limited_Diff_Rule):
      state, dir, stripped_tape_left, stripped_tape_right = stripped_config
      stripped_tape_left = (Tape.Repeated_Symbol(0, -1),) + stripped_tape_left
      stripped_config_left = (0, state, dir, stripped_tape_left[-rule.left_dist:], rule.left_dist)
      stripped_tape_right = (Tape.Repeated_Symbol(0, -1),) + stripped_tape_right
      stripped_config_right = (1, state, dir, stripped_tape_right[-rule.right_dist:], rule.right_dist)
      if stripped_config_left in self.rules:
        self.rules[stripped_config_left].append(rule)
      else:
        self.rules[stripped_config_left] = [rule]
      if stripped_config_right in self.rules:
        self.rules[stripped_config_right].append(rule)
      else:
        self.rules[stripped_config_right] = [rule]
    else:
      self.rules[stripped_config] = rule
    self.num_rules += 1
    if isinstance(rule, Diff_Rule) and rule.is_meta_rule:
      self.num_meta_diff_rules += 1
    saved = self.past_configs[stripped_config]
    self.past_configs.clear()
    saved.last_loop_num = None
    self.past_configs[stripped_config] = saved

  def apply_rule(self, rule, start_config):
    if self.verbose:
      start_state, start_tape, start_step_num, start_loop_num = start_config
      self.print_this('++ Applying Rule ++')
      self.print_this('Loop:', start_loop_num, 'Rule ID:', rule.name)
      self.print_this('Rule:', str(rule).replace('\n', '\n' + self.verbose_prefix + '     '))
      self.print_this('Config:', start_tape.print_with_state(start_state))
    if isinstance(rule, Diff_Rule):
      return self.apply_diff_rule(rule, start_config)
    elif isinstance(rule, Linear_Rule):
      return self.apply_linear_rule(rule, start_config)
    elif isinstance(rule, Exponential_Rule):
      return self.apply_exponential_rule(rule, start_config)
    elif isinstance(rule, General_Rule):
      return self.apply_general_rule(rule, start_config)
    elif isinstance(rule, Limited_Diff_Rule):
      start_state, start_tape, start_step_num, start_loop_num = start_config
      limited_start_tape = start_tape.copy()
      save_left = limited_start_tape.tape[0][:-rule.left_dist]
      save_right = limited_start_tape.tape[1][:-rule.right_dist]
      limited_start_tape.tape[0] = limited_start_tape.tape[0][-rule.left_dist:]
      limited_start_tape.tape[1] = limited_start_tape.tape[1][-rule.right_dist:]
      limited_start_config = (start_state, limited_start_tape, start_step_num, start_loop_num)
      success, other = self.apply_diff_rule(rule, limited_start_config)
      if success:
        prover_result, large_delta = other
        if prover_result.condition == APPLY_RULE:
          prover_result.new_tape.tape[0] = save_left + prover_result.new_tape.tape[0]
          prover_result.new_tape.tape[1] = save_right + prover_result.new_tape.tape[1]
        return (success, (prover_result, large_delta))
      return (success, other)
    else:
      raise NotImplementedError(f'Cannot apply rule of type {type(rule)}')

  def apply_diff_rule(self, rule, start_config):
    new_state, new_tape, new_step_num, new_loop_num = start_config
    new_tape = new_tape.copy()
    num_reps = None
    limit_dir = None
    limit_index = None
    limit_final = None
    init_value = {}
    delta_value = {}
    large_delta = False
    has_variable = False
    for dir in range(2):
      for i, (init_block, diff_block, new_block) in enumerate(zip(rule.initial_tape.tape[dir], rule.diff_tape.tape[dir], new_tape.tape[dir])):
        if isinstance(init_block.num, Algebraic_Expression):
          x = init_block.num.variable_restricted()
          init_value[x] = new_block.num - init_block.num.const
          if not always_ge(init_value[x], 0):
            return (False, None)
          delta_value[x] = Exp_Int.try_simplify(diff_block.num)
          assert isinstance(delta_value[x], int)
          if delta_value[x] < 0:
            if delta_value[x] != -1:
              large_delta = True
            if num_reps is None:
              if isinstance(init_value[x], Algebraic_Expression) and delta_value[x] != -1:
                return (False, None)
              else:
                this_reps, this_final = Rule_Func.Subtract_Func(var=x, min=init_block.num.const, const=-delta_value[x]).max_reps(new_block.num)
                num_reps = this_reps
                limit_dir = dir
                limit_index = i
                limit_final = this_final
            elif not isinstance(init_value[x], Algebraic_Expression) and (not isinstance(num_reps, Algebraic_Expression)):
              this_reps, this_final = Rule_Func.Subtract_Func(var=x, min=init_block.num.const, const=-delta_value[x]).max_reps(new_block.num)
              if this_reps < num_reps:
                num_reps = this_reps
                limit_dir = dir
                limit_index = i
                limit_final = this_final
            else:
              return (False, None)
    if num_reps is None:
      states_last_seen = None
      if rule.states_last_seen:
        states_last_seen = {state: math.inf for state in rule.states_last_seen}
      return (True, (ProverResult(INF_REPEAT, states_last_seen=states_last_seen), large_delta))
    if is_const(num_reps) and num_reps <= 0:
      return (False, None)
    if self.compute_steps:
      k = NewVariableExpression()
      this_num_steps = substitute(rule.num_steps, {x: init_value[x] + delta_value[x] * k for x in init_value})
      diff_steps = series_sum(this_num_steps, k.variable(), num_reps)
      last_value = {var: init_value[var] + delta_value[var] * (num_reps - 1) for var in init_value}
      states_last_seen = {}
      for state, last_seen in rule.states_last_seen.items():
        last_seen_ago = rule.num_steps - last_seen
        states_last_seen[state] = substitute(diff_steps - last_seen_ago, last_value)
    else:
      diff_steps = 0
      states_last_seen = None
    return_tape = new_tape.copy()
    for dir in range(2):
      for i, (diff_block, return_block) in enumerate(zip(rule.diff_tape.tape[dir], return_tape.tape[dir])):
        if return_block.num is not math.inf:
          if dir == limit_dir and i == limit_index:
            return_block.num = limit_final
          else:
            return_block.num += num_reps * diff_block.num
          if isinstance(return_block.num, Algebraic_Expression) and return_block.num.is_const:
            return_block.num = return_block.num.const
      return_tape.tape[dir] = [x for x in return_tape.tape[dir] if x.num != 0]
    return (True, (ProverResult(APPLY_RULE, new_tape=return_tape, num_base_steps=diff_steps, states_last_seen=states_last_seen), large_delta))

  def apply_linear_rule(self, rule, start_config):
    if not self.exp_linear_rules:
      return self.apply_general_rule(rule.gen_rule, start_config)
    start_state, start_tape, start_step_num, start_loop_num = start_config
    current_list = [block.num for block in start_tape.tape[0] + start_tape.tape[1]]
    assert len(current_list) == len(rule.var_list)
    if self.exp_meta_linear_rules:
      disallow_in_meta_rule = rule.has_collatz_decrease
    else:
      disallow_in_meta_rule = True
    if not config_fits_min(rule.var_list, rule.min_list, current_list):
      return (False, None)
    if rule.infinite:
      if rule.states_last_seen:
        states_last_seen = {state: math.inf for state in rule.states_last_seen}
      else:
        states_last_seen = None
      return (True, (ProverResult(INF_REPEAT, states_last_seen=states_last_seen), disallow_in_meta_rule))
    num_reps = None
    limit_index = None
    limit_final = None
    for i, (cur, func) in enumerate(zip(current_list, rule.func_list)):
      if func and func.is_decreasing:
        this_reps, this_final = func.max_reps(cur)
        if not num_reps or this_reps < num_reps:
          num_reps = this_reps
          limit_index = i
          limit_final = this_final
    assert always_ge(num_reps, 0)
    new_tape = start_tape.copy()
    for i, new_block in enumerate(new_tape.tape[0] + new_tape.tape[1]):
      if i == limit_index:
        new_block.num = limit_final
      elif rule.func_list[i]:
        new_block.num = rule.func_list[i].apply_rep(new_block.num, num_reps)
    return (True, (ProverResult(APPLY_RULE, new_tape=new_tape), disallow_in_meta_rule))

  def apply_exponential_rule(self, rule, start_config):
    start_state, start_tape, start_step_num, start_loop_num = start_config
    current_list = [block.num for block in start_tape.tape[0] + start_tape.tape[1]]
    assert len(current_list) == len(rule.var_list)
    if not config_fits_min(rule.var_list, rule.min_list, current_list):
      return (False, None)
    if rule.infinite:
      if rule.states_last_seen:
        states_last_seen = {state: math.inf for state in rule.states_last_seen}
      else:
        states_last_seen = None
      return (True, (ProverResult(INF_REPEAT, states_last_seen=states_last_seen), True))
    return self.apply_general_rule(rule.gen_rule, start_config)

  def apply_general_rule(self, rule, start_config):
    if self.max_num_reps == 0:
      raise Exception('Not simulating General_Rule')
    start_state, start_tape, start_step_num, start_loop_num = start_config
    large_delta = True
    current_list = [block.num for block in start_tape.tape[0] + start_tape.tape[1]]
    if rule.infinite and config_fits_min(rule.var_list, rule.min_list, current_list):
      if rule.states_last_seen:
        states_last_seen = {state: math.inf for state in rule.states_last_seen}
      else:
        states_last_seen = None
      return (True, (ProverResult(INF_REPEAT, states_last_seen=states_last_seen), large_delta))
    success = False
    num_reps = 0
    diff_steps = 0
    assignment = {}
    while config_fits_min(rule.var_list, rule.min_list, current_list, assignment) and num_reps < self.max_num_reps:
      pass
      if self.compute_steps:
        diff_steps += substitute(rule.num_steps, assignment)
      next_list = [substitute(val, assignment) for val in rule.result_list]
      if next_list == current_list:
        states_last_seen = None
        if rule.states_last_seen:
          states_last_seen = {state: math.inf for state in rule.states_last_seen}
        return (True, (ProverResult(INF_REPEAT, states_last_seen=states_last_seen), large_delta))
      else:
        current_list = next_list
      num_reps += 1
      success = True
      last_assignment = assignment
      assignment = {}
    if success:
      tape = start_tape.copy()
      for block, current_val in zip(tape.tape[0] + tape.tape[1], current_list):
        block.num = current_val
      for dir in range(2):
        tape.tape[dir] = [x for x in tape.tape[dir] if x.num != 0]
      if rule.states_last_seen:
        states_last_seen = {}
        for state, last_seen in rule.states_last_seen.items():
          last_seen_ago = rule.num_steps - last_seen
          states_last_seen[state] = substitute(diff_steps - last_seen_ago, last_assignment)
      else:
        states_last_seen = None
      return (True, (ProverResult(APPLY_RULE, new_tape=tape, num_base_steps=diff_steps, states_last_seen=states_last_seen), large_delta))
    else:
      return (False, None)

class ProverResult:
  def __init__(self, condition, *, new_tape=None, num_base_steps=None, states_last_seen=None):
    self.condition = condition
    self.new_tape = new_tape
    self.num_base_steps = num_base_steps
    self.states_last_seen = states_last_seen

