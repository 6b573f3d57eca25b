def big_int_approx_str(value):
  if value is None:
    return 'N/A'
  if value in (math.inf, -math.inf) or not is_const(value):
    return str(value)
  if value < 10 ** 10:
    return f'{try_eval(value):_}'
  height, top = tower_value(value)
  while top > 10 ** 10:
    height += 1
    top = math.log10(top)
  if height == 0:
    if top <= 0:
      return str(top)
    else:
      return f'~10^{math.log10(top):_.5f}'
  elif height == 1:
    return f'~10^{top:_.5f}'
  else:
    assert height > 1
    return f'~10↑↑{fractional_height(value):_.5f}'

def big_int_approx_and_full_str(value):
  if value is None:
    return 'N/A'
  approx_str = big_int_approx_str(value)
  if isinstance(value, ExpInt):
    return f'{approx_str}  =  {value}'
  elif 0 < value < 10 ** 50:
    return f'{approx_str}  =  {value:_}'
  else:
    return approx_str

def big_int_approx_or_full_str(value):
  if value is None:
    return 'N/A'
  if isinstance(value, ExpInt):
    return str(value)
  elif isinstance(value, Expression):
    return str(value)
  elif value < 10 ** 9:
    return f'{value:_}'
  elif value == math.inf:
    return str(value)
  else:
    return big_int_approx_str(value)

