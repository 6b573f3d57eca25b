def set_big_int(field, value):
  field.Clear()
  if isinstance(value, int):
    if abs(value) <= _BIG_INT_MAX:
      field.int = value
    else:
      field.hex_str = hex(value)
  elif isinstance(value, ExpInt):
    field.exp_int_pickle = pickle.dumps(value)
  else:
    raise TypeError(f'Unexpected type {type(value)}')

def get_big_int(field):
  type = field.WhichOneof('big_int')
  if type == 'int':
    return field.int
  elif type == 'uint_old':
    return field.uint_old
  elif type == 'hex_str':
    return int(field.hex_str, base=16)
  elif type == 'exp_int_pickle':
    return pickle.loads(field.exp_int_pickle)
  elif type == 'exp_int':
    return parse_exp_int(field.exp_int)
  elif type is None:
    return None
  else:
    return None

def serialize_exp_int(exp_int, field):
  set_big_int(field.const, exp_int.const)
  field.denom = exp_int.denom
  for term in exp_int.terms:
    serialize_exp_term(term, field.terms.add())

def serialize_exp_term(term, field):
  field.base = term.base
  set_big_int(field.coef, term.coef)
  set_big_int(field.exponent, term.exponent)

def parse_exp_int(field):
  if field.HasField('const'):
    const = get_big_int(field.const)
  else:
    const = field.const_old
  terms = [parse_exp_term(term) for term in field.terms]
  return ExpInt(terms, const, field.denom)

def parse_exp_term(field):
  if field.HasField('coef'):
    coef = get_big_int(field.coef)
  else:
    coef = field.coef_old
  exp = get_big_int(field.exponent)
  return ExpTerm(field.base, coef, exp)



_BIG_INT_MAX = 2**63 - 1
