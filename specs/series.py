def factor_var(term, k):
  assert isinstance(term, Term)
  rest_vars = []
  k_pow = 0
  for var_power in term.vars:
    if var_power.var == k:
      k_pow = var_power.pow
    else:
      rest_vars.append(var_power)
  if rest_vars:
    term = Term(var_powers=tuple(rest_vars), coefficient=term.coef)
    return (k_pow, Algebraic_Expression(terms=[term], constant=0))
  else:
    return (k_pow, term.coef)

def series_sum(expr, k, N):
  if isinstance(expr, int):
    return expr * N
  assert isinstance(expr, Algebraic_Expression)
  assert isinstance(k, Variable)
  total = expr.const * N
  for term in expr.terms:
    k_pow, rest = factor_var(term, k)
    if k_pow == 0:
      total += rest * N
    elif k_pow == 1:
      total += rest * (N * (N - 1) // 2)
    elif k_pow == 2:
      total += rest * (N * (N - 1) * (2 * N - 1) // 6)
    elif k_pow == 3:
      total += rest * (N * (N - 1) // 2) ** 2
    else:
      raise NotImplementedError(f'Cannot series sum {term} over {k}')
  return ae.simp_frac(total)

