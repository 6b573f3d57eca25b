def template(title, steps, loops):
  if steps is not None:
    steps_str = big_int_approx_str(steps)
  else:
    steps_str = 'N/A'
  return '%-8s %-20s %20d' % (title, steps_str, loops)

class Simulator:
  def print_self(self):
    self.print_steps()
    print('Elapsed time:', time.time() - self.start_time)
    print(self.tape.print_with_state(self.state))
    print('Num Nonzeros:', big_int_approx_and_full_str(self.get_nonzeros()))

  def print_steps(self):
    print()
    print('     Steps:           Times Applied:')
    print(template('Total:', self.step_num, self.num_loops))
    print(template('Macro:', self.steps_from_macro, self.num_macro_moves))
    print(template('Chain:', self.steps_from_chain, self.num_chain_moves))
    if self.prover:
      print(template('Rule:', self.steps_from_rule, self.num_rule_moves))
      print('Rules proven:', self.prover.num_rules)
      if self.prover.recursive:
        print('Meta Diff rules proven:', self.prover.num_meta_diff_rules)
        print('Linear rules proven:', self.prover.num_linear_rules)
        print('Exponential rules proven:', self.prover.num_exponential_rules)
        print('General rules proven:', self.prover.num_gen_rules)
      print('Collatz rules:', self.prover.num_collatz_rules)
      print('Failed proofs:', self.prover.num_failed_proofs)
      print(f'Prover num past configs: {len(self.prover.past_configs):_}')
    print('Tape copies:', Tape.Chain_Tape.num_copies)

  def verbose_print(self):
    if self.verbose:
      if self.options.html_format:
        print('%s %10s: %s<br>' % (self.verbose_prefix, self.step_num, self.tape.print_with_state(self.state)))
      else:
        print('%s %6d  %s' % (self.verbose_prefix, self.num_loops, self.tape.print_with_state(self.state)), end=' ')
        if self.compute_steps:
          print('(%s, %s)' % (self.step_num - self.old_step_num, self.step_num))
        else:
          print('')

