def ceil_div(a, b):
  return (a - 1) // b + 1

class Subtract_Func:
  def __init__(self, var, min, const):
    assert const > 0
    self.var = var
    self.min = min
    self.const = const
    self.is_decreasing = True
    self.has_collatz_decrease = self.const > 1

  def max_reps(self, start):
    min_after = self.min - self.const
    num_reps, r = divmod(start - min_after, self.const)
    final_count = r + min_after
    return (num_reps, final_count)

  def apply_rep(self, start, num_reps):
    return start - num_reps * self.const

class Add_Func:
  def __init__(self, var, min, const):
    assert const >= 0
    self.var = var
    self.min = min
    self.const = const
    self.is_decreasing = False

  def apply_rep(self, start, num_reps):
    return start + num_reps * self.const

class Mult_Func:
  def __init__(self, var, min, coef, const):
    assert coef > 0
    self.var = var
    self.coef = coef
    self.const = const
    self.min = self.compute_min(min)
    self.is_decreasing = False
    self.expr = self.coef * VariableToExpression(self.var) + self.const

  def compute_min(self, min):
    if self.const >= 0:
      return min
    else:
      min_no_decr = ceil_div(-self.const, self.coef - 1)
      return max(min, min_no_decr)

  def apply_rep(self, start, num_reps):
    m = self.coef - 1
    a = start
    m_n = exp_int(base=self.coef, exponent=num_reps)
    numer = (a * m + self.const) * m_n - self.const
    assert isinstance(numer, (ExpInt, Expression))
    return numer / m

class Pow_Func:
  def __init__(self, var, min, base, coef_base, const_base, denom, coef_exp, const_exp):
    assert base > 1
    assert coef_base > 0
    assert coef_exp > 0
    self.var = var
    self.base = base
    self.coef_base = coef_base
    self.const_base = const_base
    self.denom = denom
    self.coef_exp = coef_exp
    self.const_exp = const_exp
    self.min = self.compute_min(min)
    self.is_decreasing = False
    exp = self.coef_exp * VariableToExpression(self.var) + self.const_exp
    self.expr = (self.coef_base * exp_int(self.base, exp) + self.const_base) / self.denom

  def compute_min(self, min):
    av = self.const_exp + math.log(self.coef_base, self.base)
    while True:
      dxc = self.denom * min - self.const_base
      if dxc <= 0:
        return min
      else:
        x_bound = (math.log(dxc, self.base) - av) / self.coef_exp
        if min > x_bound:
          return min
        else:
          min = math.ceil(x_bound)

