def tex_formula(x):
  if isinstance(x, ExpInt):
    s = ' + '.join((tex_formula(term) for term in x.terms))
    if x.const != 0:
      s = f'{x.const} + {s}'
    if x.denom != 1:
      s = f'\\frac{{ {s} }}{{ {x.denom} }}'
    return s
  elif isinstance(x, ExpTerm):
    s = f'{x.base}^{{ {tex_formula(x.exponent)} }}'
    if x.coef != 1:
      s = f'{x.coef} \\cdot {s}'
    return s
  else:
    return str(x)

def fractional_height(x):
  height, top = tower_value(x)
  assert top > 0
  while top >= 1:
    top = math.log10(top)
    height += 1
  assert 0 <= top < 1
  return height - 1 + top

class ExpInt:
  def tex_formula(self):
    return tex_formula(self)

  def __repr__(self):
    return self.formula_str

  def __str__(self):
    return self.formula_str

