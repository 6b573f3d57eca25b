def is_expr(value):
  return isinstance(value, Expression)

def simp_frac(val):
  if isinstance(val, Fraction) and val.denominator == 1:
    return int(val)
  else:
    return val

def div(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return simp_frac(Fraction(a, b))
  else:
    return a / b

def as_const(x):
  assert is_const(x)
  if is_expr(x):
    return x.const
  else:
    return x

def min_val(x):
  if is_const(x):
    return as_const(x)
  else:
    return x.min_val()

def always_ge(a, b):
  return min_val(a - b) >= 0

def always_gt(a, b):
  return min_val(a - b) > 0

def variables(x):
  if is_const(x):
    return frozenset()
  else:
    return x.variables()

def substitute(x, assignment):
  if is_const(x):
    return as_const(x)
  else:
    return x.substitute(assignment)

def term_sum(terms1, terms2):
  new_terms = []
  i = j = 0
  while i < len(terms1) and j < len(terms2):
    t1, t2 = (terms1[i], terms2[j])
    c = compare_terms(t1, t2)
    if c == 0:
      if t1.coef + t2.coef != 0:
        new_terms.append(Term(t1.vars, t1.coef + t2.coef))
      i += 1
      j += 1
    elif c < 0:
      new_terms.append(t1)
      i += 1
    else:
      new_terms.append(t2)
      j += 1
  new_terms.extend(terms1[i:])
  new_terms.extend(terms2[j:])
  return new_terms

def compare_terms(t1, t2):
  vars1 = t1.vars
  vars2 = t2.vars
  if len(vars1) < len(vars2):
    return -1
  elif len(vars1) > len(vars2):
    return +1
  for vp1, vp2 in zip(vars1, vars2):
    if vp1.var.id < vp2.var.id:
      return -1
    elif vp1.var.id > vp2.var.id:
      return +1
    if vp1.pow < vp2.pow:
      return -1
    elif vp1.pow > vp2.pow:
      return +1
  return 0

def expr_prod(e1, e2):
  assert isinstance(e1, Expression)
  assert isinstance(e2, Expression)
  new_expr = Expression([], 0)
  for t1 in e1.terms:
    for t2 in e2.terms:
      new_term = Term(vars_prod(t1.vars, t2.vars), t1.coef * t2.coef)
      new_expr += Expression([new_term], 0)
    new_expr += Expression([t1], 0) * e2.const
  new_expr += e2 * e1.const
  return new_expr

def vars_prod(vars1, vars2):
  new_vars = []
  i = j = 0
  while i < len(vars1) and j < len(vars2):
    vp1, vp2 = (vars1[i], vars2[j])
    if vp1.var.id < vp2.var.id:
      new_vars.append(vp1)
      i += 1
    elif vp1.var.id > vp2.var.id:
      new_vars.append(vp2)
      j += 1
    else:
      new_vars.append(Var_Power(vp1.var, vp1.pow + vp2.pow))
      i += 1
      j += 1
  new_vars.extend(vars1[i:])
  new_vars.extend(vars2[j:])
  return new_vars

def NewVariableExpression():
  return VariableToExpression(Variable())

def VariableToExpression(var):
  vp = Var_Power(var, 1)
  term = Term([vp], 1)
  expr = Expression([term], 0)
  return expr

def ConstantToExpression(const):
  return Expression([], const)

def VarPlusConstExpression(var, const):
  assert not is_expr(const)
  vp = Var_Power(var, 1)
  term = Term([vp], 1)
  expr = Expression([term], const)
  return expr

def Variable_from_string(input):
  if input[0] == '<' and input[1] == 'x':
    return Variable(int(input[2:-1]))
  elif len(input) == 1 and input[0] in string.ascii_lowercase:
    return Variable(ord(input[0]) - ord('a'))
  else:
    raise ValueError("Unable to interpret '%s' as a Term" % (input,))

def Var_Power_from_string(input):
  input = input.split('^')
  vari = Variable_from_string(input[0])
  if len(input) == 2:
    power = int(input[1])
  else:
    power = 1
  return Var_Power(vari, power)

def Term_from_string(input):
  input_split = input.split()
  try:
    coef = int(input_split[0])
    var_powers = input_split[1:]
  except ValueError:
    if input_split[0][0] == '-':
      coef = -1
      input_split[0] = input_split[0][1:]
    else:
      coef = 1
    var_powers = input_split
  var_powers = tuple([Var_Power_from_string(var_power) for var_power in var_powers])
  return Term(var_powers, coef)

def Expression_from_string(input):
  if input[0] == '(':
    input = input[1:-1]
  terms = input.split('+')
  terms = [term.strip() for term in terms]
  last_terms = terms[-1].split('-')
  last_terms = [last_term.strip() for last_term in last_terms]
  if len(last_terms) == 2:
    last_terms[1] = '-' + last_terms[1]
  if last_terms[0] == '':
    last_terms = last_terms[1:]
  terms[-1:] = last_terms
  try:
    coef = int(terms[-1])
    terms = terms[:-1]
  except ValueError:
    coef = 0
  terms = tuple([Term_from_string(term) for term in terms])
  return Expression(terms, coef)

class Variable:
  def __init__(self, id=None):
    if id == None:
      self.id = Variable.num_vars
      Variable.num_vars += 1
    else:
      self.id = id

  def __eq__(self, other):
    return self.id == other.id

  def __hash__(self):
    return hash(self.id)

class Var_Power:
  def __init__(self, variable, power):
    self.var = variable
    self.pow = power

  def substitute(self, subs):
    if self.var in subs:
      if self.pow == 1:
        return subs[self.var]
      else:
        return subs[self.var] ** self.pow
    else:
      return VariableToExpression(self.var) ** self.pow

class Term:
  def __init__(self, var_powers, coefficient):
    self.vars = var_powers
    self.coef = coefficient

  def substitute(self, subs):
    return reduce(operator.mul, [vp.substitute(subs) for vp in self.vars]) * self.coef

class Expression:
  def __init__(self, terms, constant):
    self.terms = terms
    self.const = constant
    self.is_const = len(self.terms) == 0 and is_const(self.const)

  def __add__(self, other):
    if is_expr(other):
      return Expression(term_sum(self.terms, other.terms), self.const + other.const)
    else:
      return Expression(self.terms, self.const + other)

  def __mul__(self, other):
    if is_expr(other):
      return expr_prod(self, other)
    elif other == 0:
      return Expression([], 0)
    else:
      new_terms = tuple([Term(t.vars, t.coef * other) for t in self.terms])
      return Expression(new_terms, self.const * other)

  def __pow__(self, power):
    assert isinstance(power, int)
    prod = 1
    for _ in range(power):
      prod *= self
    return prod

  def __neg__(self):
    return self.__mul__(-1)

  def __sub__(self, other):
    return self.__add__(other.__neg__())

  def __radd__(self, other):
    return self.__add__(other)

  def __rmul__(self, other):
    return self.__mul__(other)

  def __rsub__(self, other):
    return self.__neg__().__add__(other)

  def __truediv__(self, other):
    assert isinstance(other, int)
    if other == 1:
      return self
    return Expression(terms=tuple((Term(var_powers=term.vars, coefficient=div(term.coef, other)) for term in self.terms)), constant=div(self.const, other))

  def __floordiv____alt1(self, other):
    return self / other

  def __floordiv____alt2(self, other):
    assert isinstance(other, int)
    if other == 1:
      return self
    return Expression(terms=tuple((Term(var_powers=term.vars, coefficient=div(term.coef, other)) for term in self.terms)), constant=div(self.const, other))

  def __divmod__(self, other):
    if other == 1:
      return (self, 0)
    raise NotImplementedError('Cannot mod Expression by non-1 value')

  def substitute(self, subs):
    val = sum([t.substitute(subs) for t in self.terms]) + self.const
    return simp_frac(val)

  def min_val(self):
    for term in self.terms:
      if min_val(term.coef) < 0:
        return -math.inf
    return min_val(self.const)

  def __eq__(self, other):
    if other == math.inf:
      return False
    diff = self - other
    if diff.const != 0:
      return False
    for term in diff.terms:
      if term.coef != 0:
        return False
    return True

  def __ne__(self, other):
    return not self == other

  def is_var_plus_const(self):
    return len(self.terms) == 1 and self.terms[0].coef == 1 and (len(self.terms[0].vars) == 1) and (self.terms[0].vars[0].pow == 1)

  def as_strictly_linear(self):
    if len(self.terms) == 1 and len(self.terms[0].vars) == 1 and (self.terms[0].vars[0].pow == 1):
      return (self.terms[0].vars[0].var, self.terms[0].coef, self.const)

  def variable_restricted(self):
    if self.is_var_plus_const():
      return self.terms[0].vars[0].var
    else:
      raise BadOperation('Expression %s is not of correct form' % self)

  def variables(self):
    vars = set()
    for term in self.terms:
      vars.update((vp.var for vp in term.vars))
      vars.update(variables(term.coef))
    vars.update(variables(self.const))
    assert all((isinstance(v, Variable) for v in vars))
    return frozenset(vars)

  def variable(self):
    if len(self.terms) == 1 and len(self.terms[0].vars) == 1:
      return self.terms[0].vars[0].var
    else:
      raise BadOperation('Expression %s is not of correct form' % self)

