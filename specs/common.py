def is_const(value):
  try:
    return value.is_const
  except AttributeError:
    return True

