def exp_int(base, exponent):
  assert isinstance(base, int)
  assert isinstance(exponent, (int, ExpInt, Expression))
  if exponent == 0:
    return 1
  return ExpInt([ExpTerm(base=base, coef=1, exponent=exponent)], const=0, denom=1)

def is_simple(value):
  return isinstance(value, (int, Fraction))

def try_eval(x):
  if isinstance(x, (ExpInt, ExpTerm)):
    height, top = x.tower_value
    assert top >= 0
    if height == 0:
      return x.sign * top
    else:
      return None
  elif isinstance(x, int):
    return x
  else:
    return None

def try_simplify(x):
  y = try_eval(x)
  if y is not None:
    return y
  else:
    return x

def struct_eq(a, b):
  if is_simple(a) and is_simple(b):
    return a == b
  elif isinstance(a, ExpTerm) and isinstance(b, ExpTerm):
    return a.base == b.base and a.coef == b.coef and struct_eq(a.exponent, b.exponent)
  elif isinstance(a, ExpInt) and isinstance(b, ExpInt):
    return a.const == b.const and a.denom == b.denom and (len(a.terms) == len(b.terms)) and all((struct_eq(ta, tb) for ta, tb in zip(a.terms, b.terms)))
  else:
    return False

def tower_value(x):
  if isinstance(x, ExpInt):
    return x.tower_value
  else:
    return (0, abs(x))

def sign(x):
  if isinstance(x, ExpInt):
    return x.sign
  else:
    return (x > 0) - (x < 0)

def exp_int_depth(x):
  if isinstance(x, ExpInt):
    return x.depth
  elif isinstance(x, Expression):
    return max((exp_int_depth(y) for y in x.scalars()), default=0)
  else:
    return 0

def normalize_terms(terms):
  assert len({term.base for term in terms}) == 1
  if not all((term.is_const for term in terms)):
    return terms
  new_terms = []
  prev_exponent = None
  prev_coef = None
  prev_base = None
  for term in sorted(terms, key=lambda t: tower_value(t.exponent), reverse=True):
    if struct_eq(term.exponent, prev_exponent):
      assert term.base == prev_base
      prev_coef += term.coef
    else:
      if prev_coef:
        new_terms.append(ExpTerm(prev_base, prev_coef, prev_exponent))
      prev_base = term.base
      prev_coef = term.coef
      prev_exponent = term.exponent
  if prev_coef:
    new_terms.append(ExpTerm(prev_base, prev_coef, prev_exponent))
  return new_terms

class ExpTerm:
  def __init__(self, base, coef, exponent):
    assert isinstance(base, int)
    assert isinstance(coef, int)
    assert isinstance(exponent, (int, ExpInt, Expression))
    assert coef != 0
    self.base = base
    self.coef = coef
    self.exponent = exponent
    self.normalize()
    self.sign = sign(self.coef)
    self.eval()
    self.formula_str = f'{self.base}^{self.exponent}'
    if self.coef != 1:
      self.formula_str = f'{self.coef} * {self.formula_str}'
    self.depth = exp_int_depth(self.exponent) + 1

  def normalize(self):
    n, k = int_pow(self.base)
    if k > 1:
      self.base = n
      self.exponent *= k
    while self.coef % self.base == 0:
      self.coef //= self.base
      self.exponent += 1

  def eval(self):
    self.is_const = is_const(self.exponent)
    if self.is_const:
      exp_as_int = try_eval(self.exponent)
      if not exp_as_int:
        assert isinstance(self.exponent, ExpInt)
        height, top = self.exponent.tower_value
        assert top >= 0
        self.tower_value = (height + 1, top)
      else:
        assert isinstance(exp_as_int, int)
        if exp_as_int < EXP_THRESHOLD:
          self.tower_value = tower_value(self.coef * self.base ** exp_as_int)
        else:
          top = prec_mult(exp_as_int, math.log10(self.base))
          top = prec_add(top, math.log10(abs(self.coef)))
          self.tower_value = (1, abs(top))
    else:
      min_coef = min_val(self.coef)
      if min_coef < 0:
        self.min_value = -math.inf
      else:
        self.min_value = min_coef * exp_int(self.base, min_val(self.exponent))
      assert is_const(self.min_value)
      self.vars = variables(self.coef) | variables(self.exponent)

  def min_val(self):
    return self.min_value

  def variables(self):
    return self.vars

  def substitute(self, assignment):
    if self.is_const:
      return self
    new_coef = substitute(self.coef, assignment)
    new_exp = substitute(self.exponent, assignment)
    return new_coef * exp_int(self.base, new_exp)

  def mod(self, m):
    return exp_mod(self.base, self.exponent, m) * self.coef % m

  def mul_int(self, n):
    assert isinstance(n, int)
    assert n != 0
    return ExpTerm(self.base, self.coef * n, self.exponent)

  def div_int(self, n):
    assert isinstance(n, int)
    assert n != 0
    new_coef, r = divmod(self.coef, n)
    assert r == 0
    return ExpTerm(self.base, new_coef, self.exponent)

  def mul_term(self, other):
    assert isinstance(other, ExpTerm)
    assert self.base == other.base
    return ExpTerm(self.base, self.coef * other.coef, self.exponent + other.exponent)

class ExpInt:
  def __init__(self, terms, const, denom):
    assert terms
    assert isinstance(const, int)
    assert isinstance(denom, int)
    self.terms = terms
    self.const = const
    self.denom = denom
    self.normalize()
    self.depth = max((term.depth for term in terms))
    if self.depth > MAX_DEPTH:
      raise ExpIntException(f'Too many layers of ExpInt: {self.depth}')
    self.formula_str = ' + '.join((term.formula_str for term in self.terms))
    if self.const != 0:
      self.formula_str = f'{self.const} + {self.formula_str}'
    if self.denom != 1:
      self.formula_str = f'({self.formula_str})/{self.denom}'
    self.formula_str = f'({self.formula_str})'
    self.eval()
    bases = frozenset((term.base for term in terms))
    assert len(bases) == 1
    self.base = list(bases)[0]

  def normalize(self):
    common = gcd(self.const, self.denom)
    assert isinstance(common, int)
    if common != 1:
      for term in self.terms:
        common = gcd(common, term.coef)
        assert isinstance(common, int)
    common = abs(common) * sign(self.denom)
    if common != 1:
      self.const //= common
      self.denom //= common
      self.terms = [term.div_int(common) for term in self.terms]
    assert self.denom > 0

  def eval(self):
    self.is_const = all((term.is_const for term in self.terms))
    if self.is_const:
      term_values = [try_eval(term) for term in self.terms]
      if all(term_values):
        value = (sum(term_values) + self.const) // self.denom
        self.tower_value = tower_value(value)
        self.sign = sign(value)
      else:
        max_pos_tower = max((term.tower_value for term in self.terms if term.sign > 0), default=tower_value(0))
        max_neg_tower = max((term.tower_value for term in self.terms if term.sign < 0), default=tower_value(0))
        if max_pos_tower == max_neg_tower:
          raise ExpIntException(f'Cannot evalulate sign of ExpInt: {self}  ({max_pos_tower} == {max_neg_tower})')
        self.tower_value = max(max_pos_tower, max_neg_tower)
        if max_neg_tower > max_pos_tower:
          self.sign = -1
        else:
          self.sign = 1
        if self.denom != 1:
          height, top = self.tower_value
          assert height >= 1
          if height == 1:
            top = prec_add(top, -math.log10(self.denom))
            self.tower_value = (height, top)
    else:
      assert is_const(self.denom)
      min_terms = [term.min_value for term in self.terms]
      if -math.inf in min_terms:
        self.min_value = -math.inf
      else:
        min_terms = sum(min_terms)
        self.min_value = (min_terms + min_val(self.const)) / self.denom
        assert isinstance(self.min_value, (ExpInt, int))
      self.vars = set(variables(self.const) | variables(self.denom))
      for term in self.terms:
        self.vars.update(term.vars)
      self.vars = frozenset(self.vars)

  def min_val(self):
    return self.min_value

  def variables(self):
    return self.vars

  def substitute(self, assignment):
    if self.is_const:
      return self
    numer = sum((term.substitute(assignment) for term in self.terms))
    numer += substitute(self.const, assignment)
    return numer / substitute(self.denom, assignment)

  def __mod__(self, other):
    other_int = try_eval(other)
    if not other_int:
      raise ExpIntException(f'Cannot eval %: {self} % {repr(other)}')
    if other_int == 1:
      return 0
    assert isinstance(other_int, int)
    m = self.denom * other_int
    terms_rem = sum((term.mod(m) for term in self.terms)) % m
    rd = (terms_rem + self.const) % m
    r, rdr = divmod(rd, self.denom)
    assert rdr == 0
    return r % other_int

  def __divmod__(self, other):
    r = self % other
    div = (self - r) / other
    return (div, r)

  def __floordiv__(self, other):
    div, _ = divmod(self, other)
    return div

  def __add__(self, other):
    if is_simple(other):
      return ExpInt(terms=self.terms, const=self.const + other * self.denom, denom=self.denom)
    if isinstance(other, ExpInt):
      new_denom = lcm(self.denom, other.denom)
      ns = new_denom // self.denom
      no = new_denom // other.denom
      terms_s = [term.mul_int(ns) for term in self.terms]
      terms_o = [term.mul_int(no) for term in other.terms]
      terms = normalize_terms(terms_s + terms_o)
      if terms:
        return ExpInt(terms=terms, const=ns * self.const + no * other.const, denom=new_denom)
      else:
        return (ns * self.const + no * other.const) // new_denom
    if isinstance(other, Expression):
      return other + self
    raise ExpIntException(f'ExpInt add: unsupported type {type(other)}')

  def __radd____alt1(self, other):
    return self + other

  def __radd____alt2(self, other):
    if is_simple(other):
      return ExpInt(terms=self.terms, const=self.const + other * self.denom, denom=self.denom)
    if isinstance(other, ExpInt):
      new_denom = lcm(self.denom, other.denom)
      ns = new_denom // self.denom
      no = new_denom // other.denom
      terms_s = [term.mul_int(ns) for term in self.terms]
      terms_o = [term.mul_int(no) for term in other.terms]
      terms = normalize_terms(terms_s + terms_o)
      if terms:
        return ExpInt(terms=terms, const=ns * self.const + no * other.const, denom=new_denom)
      else:
        return (ns * self.const + no * other.const) // new_denom
    if isinstance(other, Expression):
      return other + self
    raise ExpIntException(f'ExpInt add: unsupported type {type(other)}')

  def __mul__(self, other):
    other = try_simplify(other)
    if other == 0:
      return 0
    if is_simple(other):
      return ExpInt(terms=[term.mul_int(other) for term in self.terms], const=self.const * other, denom=self.denom)
    if isinstance(other, ExpInt):
      if self.base == other.base:
        new_terms = []
        for term_s in self.terms:
          if other.const:
            new_terms.append(term_s.mul_int(other.const))
          for term_o in other.terms:
            new_terms.append(term_s.mul_term(term_o))
        if self.const:
          for term_o in other.terms:
            new_terms.append(term_o.mul_int(self.const))
        new_terms = normalize_terms(new_terms)
        if new_terms:
          return ExpInt(new_terms, self.const * other.const, self.denom * other.denom)
        else:
          return self.const * other.const // (self.denom * other.denom)
      else:
        raise ExpIntException('ExpInt mul: base mismatch')
    if isinstance(other, Expression):
      return other * self
    raise ExpIntException(f'ExpInt mul: unsupported type {type(other)}')

  def __rmul____alt1(self, other):
    return self * other

  def __rmul____alt2(self, other):
    other = try_simplify(other)
    if other == 0:
      return 0
    if is_simple(other):
      return ExpInt(terms=[term.mul_int(other) for term in self.terms], const=self.const * other, denom=self.denom)
    if isinstance(other, ExpInt):
      if self.base == other.base:
        new_terms = []
        for term_s in self.terms:
          if other.const:
            new_terms.append(term_s.mul_int(other.const))
          for term_o in other.terms:
            new_terms.append(term_s.mul_term(term_o))
        if self.const:
          for term_o in other.terms:
            new_terms.append(term_o.mul_int(self.const))
        new_terms = normalize_terms(new_terms)
        if new_terms:
          return ExpInt(new_terms, self.const * other.const, self.denom * other.denom)
        else:
          return self.const * other.const // (self.denom * other.denom)
      else:
        raise ExpIntException('ExpInt mul: base mismatch')
    if isinstance(other, Expression):
      return other * self
    raise ExpIntException(f'ExpInt mul: unsupported type {type(other)}')

  def __truediv__(self, other):
    other_int = try_eval(other)
    if not other_int:
      raise ExpIntException(f'ExpInt truediv: unsupported type {type(other)}')
    return ExpInt(self.terms, self.const, self.denom * other_int)

  def __gt__(self, other):
    assert is_const(self)
    if other == math.inf:
      return False
    if other == -math.inf:
      return True
    if self.sign < 0:
      return not -self >= -other
    if sign(other) < 0:
      return True
    return self.tower_value > tower_value(other)

  def __ge__(self, other):
    assert is_const(self)
    if other == math.inf:
      return False
    if other == -math.inf:
      return True
    if self.sign < 0:
      return not -self > -other
    if sign(other) < 0:
      return True
    return self.tower_value >= tower_value(other)

  def __neg__(self):
    return self * -1

  def __sub__(self, other):
    return self + -other

  def __rsub__(self, other):
    return -self + other

  def __lt__(self, other):
    return not self >= other

  def __le__(self, other):
    return not self > other

