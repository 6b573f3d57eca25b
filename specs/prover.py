def stripped_info(block):
  if block.num == 1:
    return (block.symbol, 1)
  else:
    return block.symbol

def strip_config(state, dir, tape):
  return (state, dir, tuple(map(stripped_info, tape[0][1:])), tuple(map(stripped_info, tape[1][1:])))

class Past_Config:
  def __init__(self):
    self.times_seen = 0
    self.last_loop_num = None
    self.last_delta = None

  def log_config(self, step_num, loop_num):
    if self.last_loop_num == None:
      self.last_loop_num = loop_num
      self.times_seen += 1
      return False
    delta = loop_num - self.last_loop_num
    if not self.last_delta or self.last_delta != delta:
      self.last_delta = delta
      self.last_loop_num = loop_num
      self.times_seen += 1
      return False
    return True

class Proof_System:
  def __init__(self, machine, options, verbose_prefix):
    assert isinstance(options, optparse.Values)
    self.machine = machine
    self.options = options
    self.frozen = False
    self.recursive = options.recursive
    self.exp_linear_rules = options.exp_linear_rules
    self.exp_meta_linear_rules = options.exp_meta_linear_rules
    self.compute_steps = options.compute_steps
    self.verbose = options.verbose_prover
    self.verbose_prefix = verbose_prefix
    self.past_configs = defaultdict(Past_Config)
    self.rules = {}
    self.max_num_reps = options.max_num_reps
    self.num_rules = 0
    self.num_meta_diff_rules = 0
    self.num_linear_rules = 0
    self.num_exponential_rules = 0
    self.num_gen_rules = 0
    self.num_collatz_rules = 0
    self.num_failed_proofs = 0
    self.num_loops = 0

  def prove_rule(self, stripped_config, full_config, delta_loop):
    new_state, new_tape, new_step_num, new_loop_num = full_config
    new_options = copy.copy(self.options)
    new_options.recursive = False
    new_options.prover = False
    new_options.verbose_prover = False
    new_options.verbose_simulator = self.verbose
    gen_sim = Simulator.Simulator(self.machine, new_options, init_tape=False, verbose_prefix=self.verbose_prefix + '  ', is_base_simulator=False)
    gen_sim.state = new_state
    gen_sim.step_num = ConstantToExpression(0)
    if self.recursive:
      gen_sim.prover = copy.copy(self)
      gen_sim.prover.frozen = True
      gen_sim.prover.past_configs = None
      gen_sim.prover.verbose_prefix = gen_sim.verbose_prefix + '  '
    gen_sim.tape = new_tape.copy()
    min_val = {}
    for direction in range(2):
      offset = len(gen_sim.tape.tape[direction])
      for block in gen_sim.tape.tape[direction]:
        block.id = offset
        offset -= 1
        if block.num not in (math.inf, 1):
          x = Variable()
          init_count = Exp_Int.try_eval(block.num)
          if not init_count or init_count > 2 ** 20:
            init_count = 2 ** 20
            assert block.num > init_count
          assert isinstance(init_count, int)
          x_init = VarPlusConstExpression(x, init_count)
          block.num = x_init
          min_val[x] = block.num.const
    initial_tape = gen_sim.tape.copy()
    gen_sim.dir = gen_sim.tape.dir
    max_offset_touched = {LEFT: 0, RIGHT: 0}
    gen_sim.verbose_print()
    while gen_sim.num_loops < delta_loop:
      block = gen_sim.tape.get_top_block()
      if ae.min_val(block.num) <= 0:
        return False
      cur_dir = gen_sim.tape.dir
      facing_offset = gen_sim.tape.get_top_block().id
      if facing_offset:
        max_offset_touched[cur_dir] = max(max_offset_touched[cur_dir], facing_offset)
      gen_sim.step()
      back_dir = Turing_Machine.other_dir(gen_sim.tape.dir)
      wrote_offset = gen_sim.tape.tape[back_dir][-1].id
      if wrote_offset:
        max_offset_touched[back_dir] = max(max_offset_touched[back_dir], wrote_offset)
      self.num_loops += 1
      if gen_sim.op_state is not Turing_Machine.RUNNING:
        return False
      for dir in range(2):
        for block in gen_sim.tape.tape[dir]:
          vars = variables(block.num)
          if len(vars) > 1:
            return False
          elif len(vars) == 1:
            x = list(vars)[0]
            min_val[x] = min(min_val[x], ae.min_val(block.num))
    gen_stripped_config = strip_config(gen_sim.state, gen_sim.tape.dir, gen_sim.tape.tape)
    if gen_stripped_config != stripped_config:
      return False
    is_diff_rule = True
    diff_tape = gen_sim.tape.copy()
    for dir in range(2):
      for diff_block, initial_block in zip(diff_tape.tape[dir], initial_tape.tape[dir]):
        if diff_block.num != math.inf:
          diff_block.num -= initial_block.num
          if isinstance(diff_block.num, Algebraic_Expression):
            if diff_block.num.is_const:
              diff_block.num = diff_block.num.const
            else:
              is_diff_rule = False
    if not is_diff_rule:
      var_list = []
      min_list = []
      assignment = {}
      for init_block in initial_tape.tape[0] + initial_tape.tape[1]:
        if isinstance(init_block.num, Algebraic_Expression):
          x = init_block.num.variable_restricted()
          var_list.append(x)
          min_list.append(init_block.num.const - min_val[x] + 1)
          assignment[x] = init_block.num - 2 * init_block.num.const
        else:
          var_list.append(None)
          min_list.append(init_block.num)
      result_tape = gen_sim.tape
      for result_block in result_tape.tape[0] + result_tape.tape[1]:
        result_block.num = substitute(result_block.num, assignment)
      if self.compute_steps:
        num_steps = substitute(gen_sim.step_num, assignment)
        states_last_seen = {state: substitute(last_seen, assignment) for state, last_seen in gen_sim.states_last_seen.items()}
      else:
        num_steps = 0
        states_last_seen = None
      rule = Linear_Rule.try_gen(var_list, min_list, result_tape, num_steps, gen_sim.num_loops, self.num_rules, states_last_seen)
      if rule:
        self.num_linear_rules += 1
        if rule.has_collatz_decrease:
          self.num_collatz_rules += 1
      if not rule:
        rule = Exponential_Rule.try_gen(var_list, min_list, result_tape, num_steps, gen_sim.num_loops, self.num_rules, states_last_seen)
        if rule:
          self.num_exponential_rules += 1
          if rule.has_collatz_decrease:
            self.num_collatz_rules += 1
      if not rule:
        rule = General_Rule(var_list, min_list, result_tape, num_steps, gen_sim.num_loops, self.num_rules, states_last_seen=states_last_seen)
        self.num_gen_rules += 1
      return rule
    else:
      assert is_diff_rule
      is_meta_rule = gen_sim.num_rule_moves > 0
      if not is_meta_rule:
        replaces = {}
        for dir in range(2):
          for init_block in initial_tape.tape[dir]:
            if isinstance(init_block.num, Algebraic_Expression):
              x = init_block.num.variable_restricted()
              new_value = VariableToExpression(x) - min_val[x] + 1
              init_block.num = init_block.num.substitute({x: new_value})
              replaces[x] = new_value
            else:
              assert is_const(init_block.num)
        for dir in range(2):
          for diff_block in diff_tape.tape[dir]:
            diff_block.num = substitute(diff_block.num, replaces)
        if self.compute_steps:
          num_steps = substitute(gen_sim.step_num, replaces)
          states_last_seen = {state: substitute(last_seen, replaces) for state, last_seen in gen_sim.states_last_seen.items()}
        else:
          num_steps = 0
          states_last_seen = None
      else:
        num_steps = gen_sim.step_num
        states_last_seen = gen_sim.states_last_seen
      if not isinstance(num_steps, Algebraic_Expression):
        num_steps = ConstantToExpression(num_steps)
      if self.options.limited_rules and (not is_meta_rule):
        left_dist = max_offset_touched[LEFT]
        right_dist = max_offset_touched[RIGHT]
        initial_tape.tape[0] = initial_tape.tape[0][-left_dist:]
        initial_tape.tape[1] = initial_tape.tape[1][-right_dist:]
        diff_tape.tape[0] = diff_tape.tape[0][-left_dist:]
        diff_tape.tape[1] = diff_tape.tape[1][-right_dist:]
        rule = Limited_Diff_Rule(initial_tape, left_dist, right_dist, diff_tape, new_state, num_steps, gen_sim.num_loops, self.num_rules, states_last_seen=states_last_seen)
      else:
        rule = Diff_Rule(initial_tape, diff_tape, new_state, num_steps, gen_sim.num_loops, self.num_rules, is_meta_rule, states_last_seen=states_last_seen)
      if rule.has_collatz_decrease:
        self.num_collatz_rules += 1
      return rule

class Diff_Rule:
  def __init__(self, initial_tape, diff_tape, initial_state, num_steps, num_loops, rule_num, is_meta_rule, states_last_seen):
    self.initial_tape = initial_tape
    self.diff_tape = diff_tape
    self.num_steps = num_steps
    self.initial_state = initial_state
    self.num_loops = num_loops
    self.name = str(rule_num)
    self.is_meta_rule = is_meta_rule
    self.states_last_seen = states_last_seen
    self.num_uses = 0
    self.has_collatz_decrease = False
    for htape in self.diff_tape.tape:
      for block in htape:
        if block.num < -1:
          self.has_collatz_decrease = True

class Linear_Rule:
  def __init__(self, var_list, min_list, func_list, result_tape, num_steps, num_loops, rule_num, states_last_seen):
    assert len(var_list) == len(min_list) == len(func_list)
    self.var_list = var_list
    self.func_list = func_list
    self.block_list = [block.symbol for block in result_tape.tape[0] + result_tape.tape[1]]
    self.left_size = len(result_tape.tape[0])
    self.num_steps = num_steps
    self.num_loops = num_loops
    self.name = str(rule_num)
    self.states_last_seen = states_last_seen
    for i, func in enumerate(func_list):
      if func:
        min_list[i] = func.min
    self.min_list = min_list
    self.gen_rule = General_Rule(var_list, min_list, result_tape, num_steps, num_loops, rule_num, states_last_seen)
    self.num_uses = 0
    self.is_decreasing = [False] * len(self.func_list)
    self.has_collatz_decrease = False
    for i, func in enumerate(self.func_list):
      if func and func.is_decreasing:
        self.is_decreasing[i] = True
        if func.has_collatz_decrease:
          self.has_collatz_decrease = True
    self.infinite = not any(self.is_decreasing)

  @staticmethod
  def try_gen(var_list, min_list, result_tape, num_steps, num_loops, rule_num, states_last_seen):
    func_list = []
    for i, result_block in enumerate(result_tape.tape[0] + result_tape.tape[1]):
      if not var_list[i]:
        func_list.append(None)
      else:
        if variables(result_block.num) != {var_list[i]}:
          return False
        if not isinstance(result_block.num, Expression):
          return False
        res = result_block.num.as_strictly_linear()
        if not res:
          return False
        var, coef, const = res
        assert var == var_list[i]
        if coef == 1:
          if const < 0:
            func_list.append(Rule_Func.Subtract_Func(var, min_list[i], -const))
          else:
            func_list.append(Rule_Func.Add_Func(var, min_list[i], const))
        else:
          func_list.append(Rule_Func.Mult_Func(var, min_list[i], coef, const))
    return Linear_Rule(var_list, min_list, func_list, result_tape, num_steps, num_loops, rule_num, states_last_seen)

class Exponential_Rule:
  def __init__(self, func_list, const_list, result_tape, num_steps, num_loops, rule_num, states_last_seen):
    self.func_list = func_list
    self.const_list = const_list
    self.block_list = [block.symbol for block in result_tape.tape[0] + result_tape.tape[1]]
    self.left_size = len(result_tape.tape[0])
    self.num_steps = num_steps
    self.num_loops = num_loops
    self.name = str(rule_num)
    self.states_last_seen = states_last_seen
    self.var_list = [func.var if func else None for func in self.func_list]
    self.min_list = [func.min if func else None for func in self.func_list]
    assert len(func_list) == len(self.var_list) == len(self.min_list)
    self.gen_rule = General_Rule(self.var_list, self.min_list, result_tape, num_steps, num_loops, rule_num, states_last_seen)
    self.num_uses = 0
    self.is_decreasing = [False] * len(self.func_list)
    self.has_collatz_decrease = False
    for i, func in enumerate(self.func_list):
      if func and func.is_decreasing:
        self.is_decreasing[i] = True
        if func.has_collatz_decrease:
          self.has_collatz_decrease = True
    self.infinite = not any(self.is_decreasing)

  @staticmethod
  def try_gen(var_list, min_list, result_tape, num_steps, num_loops, rule_num, states_last_seen):
    func_list = []
    const_list = []
    for i, result_block in enumerate(result_tape.tape[0] + result_tape.tape[1]):
      if not var_list[i]:
        func_list.append(None)
        const_list.append(min_list[i])
      else:
        const_list.append(None)
        if variables(result_block.num) != {var_list[i]}:
          return False
        if isinstance(result_block.num, ExpInt):
          if len(result_block.num.terms) != 1:
            return False
          exp_term = result_block.num.terms[0]
          if not isinstance(exp_term.exponent, Expression):
            return False
          res_exp = exp_term.exponent.as_strictly_linear()
          if not res_exp:
            return False
          var, coef_exp, const_exp = res_exp
          assert var == var_list[i]
          func_list.append(Rule_Func.Pow_Func(var, min_list[i], base=exp_term.base, coef_base=exp_term.coef, const_base=result_block.num.const, denom=result_block.num.denom, coef_exp=coef_exp, const_exp=const_exp))
        else:
          assert isinstance(result_block.num, Expression)
          res = result_block.num.as_strictly_linear()
          if not res:
            return False
          var, coef, const = res
          assert var == var_list[i]
          if coef == 1:
            if const < 0:
              func_list.append(Rule_Func.Subtract_Func(var, min_list[i], -const))
            else:
              func_list.append(Rule_Func.Add_Func(var, min_list[i], const))
          else:
            func_list.append(Rule_Func.Mult_Func(var, min_list[i], coef, const))
    return Exponential_Rule(func_list, const_list, result_tape, num_steps, num_loops, rule_num, states_last_seen)

class General_Rule:
  def __init__(self, var_list, min_list, result_tape, num_steps, num_loops, rule_num, states_last_seen):
    assert len(var_list) == len(min_list)
    self.var_list = var_list
    self.min_list = min_list
    self.result_tape = result_tape
    self.result_list = [block.num for block in result_tape.tape[0] + result_tape.tape[1]]
    self.block_list = [block.symbol for block in result_tape.tape[0] + result_tape.tape[1]]
    self.left_size = len(result_tape.tape[0])
    self.num_steps = num_steps
    self.num_loops = num_loops
    self.name = str(rule_num)
    self.states_last_seen = states_last_seen
    valid_vars = frozenset(self.var_list) - {None}
    result_vars = frozenset().union(*[variables(x) for x in self.result_list])
    invalid_vars = result_vars - valid_vars
    assert not invalid_vars
    self.num_uses = 0
    self.infinite = True
    for var, result in zip(self.var_list, self.result_list):
      if var:
        if not always_ge(result, VariableToExpression(var)):
          self.infinite = False
          break

class Limited_Diff_Rule:
  def __init__(self, initial_tape, left_dist, right_dist, diff_tape, initial_state, num_steps, num_loops, rule_num, states_last_seen):
    self.initial_tape = initial_tape
    self.left_dist = left_dist
    self.right_dist = right_dist
    self.rule_len = left_dist + right_dist
    self.diff_tape = diff_tape
    self.num_steps = num_steps
    self.initial_state = initial_state
    self.num_loops = num_loops
    self.name = str(rule_num)
    self.states_last_seen = states_last_seen
    self.num_uses = 0
    self.has_collatz_decrease = False
    for htape in self.diff_tape.tape:
      for block in htape:
        if block.num < -1:
          self.has_collatz_decrease = True

