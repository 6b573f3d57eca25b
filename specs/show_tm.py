def machine_ttable_to_str(machine):
  result = ''
  result += '\n'
  result += 'Transition table:\n'
  result += '\n'
  trans_table = machine.trans_table
  result += '       '
  for j in range(len(trans_table[0])):
    result += '+-----'
  result += '+\n'
  result += '       '
  for j in range(len(trans_table[0])):
    result += '|  %d  ' % j
  result += '|\n'
  result += '   +---'
  for j in range(len(trans_table[0])):
    result += '+-----'
  result += '+\n'
  for i in range(len(trans_table)):
    result += '   | %c ' % STATES[i]
    for j in range(len(trans_table[i])):
      result += '| '
      if trans_table[i][j].condition == UNDEFINED:
        result += '--- '
      else:
        result += '%c' % SYMBOLS[trans_table[i][j].symbol_out]
        result += '%c' % DIRS[trans_table[i][j].dir_out]
        result += '%c ' % STATES[trans_table[i][j].state_out]
    result += '|\n'
    result += '   +---'
    for j in range(len(trans_table[0])):
      result += '+-----'
    result += '+\n'
  result += '\n'
  return result

class Simple_Machine_State:
  def print_with_dir(self, dir):
    return self.__str__()

  def __str__(self):
    return STATES[self]

  def __repr__(self):
    return STATES[self]

class Block_Symbol:
  def __repr__(self):
    return ''.join((str(x) for x in self))

class Backsymbol_Macro_Machine_State:
  def print_with_dir(self, dir):
    if dir == LEFT:
      return '%s (%s)' % (self.base_state.print_with_dir(dir), self.back_symbol)
    else:
      return '(%s) %s' % (self.back_symbol, self.base_state.print_with_dir(dir))

  def __repr__(self):
    return '(%s,%s)' % (self.base_state, self.back_symbol)

