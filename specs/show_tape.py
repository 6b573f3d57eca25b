class Repeated_Symbol:
  def to_string(self, html_format, full_reps):
    if html_format:
      return '%s<sup>%s</sup>' % (str(self.symbol), big_int_approx_or_full_str(self.num))
    else:
      return '%s^%s' % (str(self.symbol), big_int_approx_or_full_str(self.num))

class Chain_Tape:
  def print_with_state(self, state):
    left_tape = ' '.join((sym.to_string(self.options.html_format, self.options.full_reps) for sym in self.tape[0]))
    right_tape = ' '.join((sym.to_string(self.options.html_format, self.options.full_reps) for sym in reverse(self.tape[1])))
    if state is None:
      state_str = '-'
    else:
      state_str = state.print_with_dir(self.dir)
    if self.dir:
      dir_str = '%s>' % state_str
    else:
      dir_str = '<%s' % state_str
    if self.options.html_format:
      dir_str = '<b>%s</b>' % dir_str
    return left_tape + ' ' + dir_str + ' ' + right_tape

  def __repr__(self):
    return self.print_with_state(None)

