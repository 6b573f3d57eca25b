"""Canonical value numbers (terms), literals and their normal forms."""


def C(v):
  return ("c", type(v).__name__, v)


TRUE, FALSE, NONE = C(True), C(False), C(None)
ZERO, ONE = C(0), C(1)

_keycache = {}


def key(t):
  k = _keycache.get(t) if _hashable(t) else None
  if k is None:
    k = repr(t)
    _keycache[t] = k
  return k


def _hashable(t):
  return True


def is_const(t, v=None):
  if not (isinstance(t, tuple) and t and t[0] == "c"):
    return False
  return v is None or (t[2] == v and type(t[2]) is type(v))


def is_int(t):
  return isinstance(t, tuple) and t[:1] == ("c",) and t[1] in ("int",)


def cval(t):
  return t[2]


# --- polynomials over opaque terms -----------------------------------------

def to_poly(t):
  """term -> dict mono(tuple of terms) -> int coeff"""
  if is_int(t):
    return {(): t[2]} if t[2] else {}
  if t[0] == "c" and t[1] == "bool":
    return {(): int(t[2])} if t[2] else {}
  if t[0] == "poly":
    return dict(t[1])
  return {(t,): 1}


def from_poly(p):
  p = {m: c for m, c in p.items() if c != 0}
  if not p:
    return ZERO
  if len(p) == 1:
    (m, c), = p.items()
    if m == ():
      return C(c)
    if c == 1 and len(m) == 1:
      return m[0]
  return ("poly", tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(key(x) for x in mc[0])))))


def padd(a, b, sign=1):
  p = dict(to_poly(a))
  for m, c in to_poly(b).items():
    p[m] = p.get(m, 0) + sign * c
  return from_poly(p)


def psub(a, b):
  return padd(a, b, -1)


def pmul(a, b):
  p = {}
  for m1, c1 in to_poly(a).items():
    for m2, c2 in to_poly(b).items():
      m = tuple(sorted(m1 + m2, key=key))
      p[m] = p.get(m, 0) + c1 * c2
  return from_poly(p)


def pneg(a):
  return from_poly({m: -c for m, c in to_poly(a).items()})


def split_const(t):
  """(nonconst part, const)"""
  p = dict(to_poly(t))
  c = p.pop((), 0)
  return from_poly(p), c


def lead_sign(t):
  p = to_poly(t)
  ms = [(len(m), tuple(key(x) for x in m), c) for m, c in p.items() if m != ()]
  if not ms:
    return 0
  ms.sort()
  return 1 if ms[0][2] > 0 else -1


STRING_CONSTS = ("string.digits", "string.ascii_uppercase", "string.ascii_lowercase", "string.ascii_letters")
SEQ_KINDS = ("list", "tuple", "str", "comp", "append", "concat", "set", "dict", "store", "fstr")


STR_METHODS = ("join", "format", "strip", "rstrip", "lstrip", "replace", "upper", "lower", "title", "zfill", "ljust", "rjust", "ttable_str")


def is_str(t):
  """certainly a text string"""
  if t[0] == "c":
    return t[1] == "str"
  if t[0] == "fstr":
    return True
  if t[0] == "call":
    return t[1] in ("str", "repr", "chr")
  if t[0] == "mcall":
    return t[1] in STR_METHODS and not (t[2][0] == "c" and t[2][1] == "bytes")
  if t[0] == "bin" and t[1] in ("%", "*"):
    return is_str(t[2])
  if t[0] == "ext":
    return t[1] in STRING_CONSTS
  if t[0] == "item":
    return t[1][0] in ("c", "ext") and is_str(t[1])
  return False


def pieces(t):
  if t[0] == "c" and t[1] == "str":
    return [t] if t[2] else []
  if t[0] == "fstr":
    return list(t[1])
  if t[0] == "call" and t[1] == "str" and len(t[2]) == 1 and not t[3]:
    return pieces(t[2][0]) if is_str(t[2][0]) else [("fmt", t[2][0], "", "")]
  return [("fmt", t, "", "")]


def mkstr(ps):
  """a string put together from constant and computed pieces"""
  out = []
  for p in ps:
    if p[0] == "fmt" and p[2] == "" and p[3] == "" and (p[1][0] in ("fstr",) or p[1][0] == "c" and p[1][1] in ("str", "int")):
      new = [C(str(p[1][2]))] if p[1][0] == "c" else list(p[1][1])
    else:
      new = [p]
    for q in new:
      if q[0] == "c" and out and out[-1][0] == "c":
        out[-1] = C(out[-1][2] + q[2])
      elif not (q[0] == "c" and q[2] == ""):
        out.append(q)
  if not out:
    return C("")
  if len(out) == 1 and out[0][0] == "c":
    return out[0]
  if len(out) == 1 and out[0][2] == "" and out[0][3] == "":
    v = out[0][1]
    return v if is_str(v) else ("call", "str", (v,), ())
  return ("fstr", tuple(out))


def mkconcat(a, b):
  if is_str(a) or is_str(b):
    return mkstr(pieces(a) + pieces(b))
  def flat(t):
    return flat(t[1]) + flat(t[2]) if t[0] == "concat" else [t]
  out = []
  for p in flat(a) + flat(b):
    if out and p[0] == "call" and p[1] == "list" and len(p[2]) == 1:
      p = p[2][0]
    if out and p[0] == out[-1][0] and p[0] in ("list", "tuple"):
      out[-1] = (p[0], out[-1][1] + p[1])
    elif p != ("list", ()) or not out:
      if out and out[-1] == ("list", ()) and p[0] in SEQ_KINDS:
        out.pop()
      out.append(p)
  r = out[0]
  for p in out[1:]:
    r = ("concat", r, p)
  return r


def _letter(t):
  """a text string of one character"""
  return is_str(t) and (t[0] == "c" and len(t[2]) == 1 or t[0] == "item" and t[2][0] != "slice")


def percent(fmt, v):
  """fmt % v as pieces, if its directives are plain"""
  args = list(v[1]) if v[0] == "tuple" else [v]
  if v[0] not in ("tuple", "c", "call", "mcall", "attr", "poly", "sym", "fstr", "p", "lv", "idx", "item", "ecall", "p", "new"):
    return None
  out, i, lit_ = [], 0, ""
  while i < len(fmt):
    ch = fmt[i]
    if ch != "%":
      lit_ += ch
      i += 1
      continue
    if fmt[i + 1:i + 2] == "%":
      lit_ += "%"
      i += 2
      continue
    if fmt[i + 1:i + 2] not in ("s", "r", "c") or not args:
      return None
    if fmt[i + 1] == "c" and not _letter(args[0]):
      return None
    out.append(C(lit_))
    lit_ = ""
    out.append(("fmt", args.pop(0), "r" if fmt[i + 1] == "r" else "", ""))
    i += 2
  if args:
    return None
  out.append(C(lit_))
  return mkstr(out)


def braces(fmt, vs, kw):
  """fmt.format(*vs, **kw) as pieces"""
  import string
  out, n = [], 0
  try:
    for text, name, spec, conv in string.Formatter().parse(fmt):
      out.append(C(text))
      if name is None:
        continue
      if "{" in (spec or ""):
        return None
      if name == "":
        v = vs[n]
        n += 1
      elif name.isdigit():
        v = vs[int(name)]
      else:
        v = dict(kw)[name]
      out.append(("fmt", v, conv or "", spec or ""))
  except (KeyError, IndexError, ValueError):
    return None
  return mkstr(out)


def is_seq(t):
  if t[0] == "c" and t[1] in ("str", "bytes"):
    return True
  if t[0] in SEQ_KINDS:
    return True
  if t[0] == "call" and t[1] in ("list", "tuple", "sorted", "str", "repr", "bytes"):
    return True
  if t[0] == "mcall" and (t[1] in STR_METHODS or t[1] in ("split", "splitlines", "SerializeToString")):
    return True
  if t[0] in ("call", "ecall") and t[1] in ("struct.pack",):
    return True
  if t[0] == "bin" and t[1] in ("*", "%") and (is_seq(t[2]) or is_seq(t[3])):
    return True
  return t[0] in ("item", "ext") and is_str(t)


# --- atoms -------------------------------------------------------------------

def lit(atom, pol=True):
  if atom is True or atom is False:
    return TRUE if atom == pol else FALSE
  return ("lit", atom, pol)


def len_arg(t):
  if t[0] == "call" and t[1] == "len" and len(t[2]) == 1:
    return t[2][0]
  return None


NUMBERS = set()      # names of attributes and variables that hold numbers
MAYBE = set()        # functions that give None or an object that is always true
OBJECTS = set()      # fields that hold None or an object that is always true
COUNTERS = set()     # attributes that only ever count up from zero


def _lt0(p):
  """canonical (atom, pol) for  p < 0  over the integers"""
  q, c = split_const(p)
  if is_int(q) and q[2] == 0:
    return (c < 0), True
  pol = True
  if lead_sign(p) < 0:
    p = psub(pneg(p), ONE)
    pol = False
    q, c = split_const(p)
  x = len_arg(q) if q[0] == "call" else None
  if x is not None and c == -1:
    # len(x) - 1 < 0  <=>  x empty
    return ("truth", x), not pol
  if x is not None and c == 0:
    return False, pol
  if q[0] == "attr" and q[2] in COUNTERS and c in (0, -1):
    # a counter is never below zero
    if c == 0:
      return False, pol
    a, y = atom_eq(q, ZERO)
    return a, y == pol
  return ("lt0", p), pol


def atom_lt(a, b):
  return _lt0(psub(a, b))


def atom_le(a, b):
  at, pol = _lt0(psub(b, a))
  return at, not pol


def atom_eq(a, b):
  if a == b:
    return True, True
  if a[0] == "c" and b[0] == "c":
    return (a[2] == b[2]), True
  # numeric?
  if not (is_seq(a) or is_seq(b)) and not any(
      t[0] == "c" and t[1] not in ("int", "bool") for t in (a, b)):
    d = psub(a, b)
    q, c = split_const(d)
    if is_int(q) and q[2] == 0:
      return (c == 0), True
    if lead_sign(d) < 0:
      d = pneg(d)
      q, c = split_const(d)
    p = to_poly(q)
    if len(p) == 1:
      (m, k), = p.items()
      if len(m) == 1 and k == 1:
        x = m[0]
        la = len_arg(x)
        if la is not None and c == 0:
          return ("truth", la), False
        if x[0] == "idx" and c == 0:
          # counts up from zero
          return _flip(atom_lt(ZERO, x))
        if a[0] == "c" and a[1] == "bool" or b[0] == "c" and b[1] == "bool":
          bb = a if a[0] == "c" else b
          return ("eq", x, bb), True
        if direction(x):
          # left or right
          return (("eq", x, ZERO), c == 0) if c in (0, -1) else (False, True)
        return ("eq", x, C(-c)), True
    if len(p) == 2 and c == 0:
      (m1, k1), (m2, k2) = p.items()
      if len(m1) == 1 and len(m2) == 1 and {k1, k2} == {1, -1}:
        x, y = m1[0], m2[0]
        if key(x) > key(y):
          x, y = y, x
        return ("eq", x, y), True
    return ("eq0", d), True
  if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) != len(b[1]):
    return False, True
  if a[0] == "c":
    a, b = b, a
  elif b[0] != "c" and key(a) > key(b):
    a, b = b, a
  return ("eq", a, b), True


def atom_is(a, b):
  if a == b:
    return True, True
  if a[0] == "c" and b[0] == "c":
    return (a == b), True
  if a[0] == "c":
    a, b = b, a
  elif b[0] != "c" and key(a) > key(b):
    a, b = b, a
  # `is` on booleans / None
  if b == NONE and a[0] in ("new", "list", "tuple", "dict", "set", "comp", "poly", "append", "concat", "lam", "fn", "cls"):
    return False, True
  return ("is", a, b), True


def numeric(t):
  return t[0] == "attr" and t[2] in NUMBERS or t[0] == "sym" and t[1] in NUMBERS or t[0] == "lv" and t[2] in NUMBERS


DIRECTIONS = {"dir", "dir_out", "new_dir", "front_dir", "behind_dir", "facing"}


def direction(t):
  """what a machine moves by or faces: 0 or 1"""
  return t[0] == "attr" and t[2] in DIRECTIONS or t[0] == "sym" and t[1] in DIRECTIONS or t == ("item", ("sym", "cell"), ONE)


def _grid(t):
  def only(x):
    return x[3][0][1][0] if x[0] == "comp" and x[1] == "list" and len(x[3]) == 1 and not x[3][0][0] and len(x[3][0][1]) == 1 else NONE
  return only(t)[0] == "comp" and only(only(t)) == NONE and only(t)[1] == "list"


def truth(t):
  """(atom, pol) or (bool, True) for the truthiness of a term"""
  if t[0] == "c":
    return bool(t[2]), True
  if t[0] == "lit":
    return t[1], t[2]
  if t[0] in ("list", "tuple", "set"):
    if t[0] == "tuple" or len(t[1]) == 0 or True:
      return (len(t[1]) > 0), True
  if t[0] == "append":
    return True, True
  if t[0] in ("new", "lam", "fn", "cls", "mod"):
    return True, True
  if t[0] == "call" and t[1] == "bool" and len(t[2]) == 1:
    return truth(t[2][0])
  if t[0] == "call" and t[1] == "len" and len(t[2]) == 1:
    return ("truth", t[2][0]), True
  if t[0] == "poly":
    return _flip(atom_eq(t, ZERO))
  if t[0] == "call" and t[1] in ("list", "tuple", "sorted") and len(t[2]) == 1:
    return truth(t[2][0])
  if t[0] == "idx":
    return atom_lt(ZERO, t)
  if t[0] == "attr" and t[2] in OBJECTS and (t[1] == ("sym", "self") or t[1][0] == "new"):
    # an object or None
    return ("is", t, NONE), False
  if t[0] == "call" and t[1] in MAYBE:
    return ("is", t, NONE), False
  if t[0] == "mcall" and t[2][0] == "new" and "%s.%s" % (t[2][1], t[1]) in MAYBE:
    return ("is", t, NONE), False
  if direction(t):
    return ("eq", t, ZERO), False
  if t[0] == "item" and t[1][0] == "item" and _grid(t[1][1]):
    # a cell of a table that starts out with None everywhere
    return ("is", t, NONE), False
  return ("truth", t), True


def _flip(ap):
  a, p = ap
  return a, not p


def negate(t):
  a, p = truth(t)
  if a is True or a is False:
    return C(not (a == p))
  return ("lit", a, not p)


# --- traversal ---------------------------------------------------------------

def subterms(t):
  stack = [t]
  while stack:
    x = stack.pop()
    if isinstance(x, tuple):
      if x and isinstance(x[0], str):
        yield x
      for y in x:
        if isinstance(y, tuple):
          stack.append(y)


def contains(t, s):
  if t == s:
    return True
  if isinstance(t, tuple):
    return any(contains(x, s) for x in t if isinstance(x, tuple))
  return False


def subst(t, m):
  if t in m:
    return m[t]
  if isinstance(t, tuple):
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if r != t and r and r[0] == "poly":
      # re-normalise
      p = ZERO
      for mono, c in r[1]:
        term = C(c)
        for f in mono:
          term = pmul(term, f)
        p = padd(p, term)
      return p
    return r
  return t


def prefixes(t):
  """t and the objects it is reached through."""
  out = [t]
  while t[0] in ("attr", "item", "mcall") and not (t[0] == "mcall" and (t[1] in STR_METHODS or t[1] in ("read", "readline", "SerializeToString", "bit_length", "count", "index"))):
    t = t[2] if t[0] == "mcall" else t[1]
    if not isinstance(t, tuple) or not t:
      break
    out.append(t)
  return out


def strip(t):
  """drop mutation-epoch tags and call ordinals"""
  if not isinstance(t, tuple):
    return t
  if t and t[0] == "attr":
    return ("attr", strip(t[1]), t[2])
  if t and t[0] == "item" and len(t) > 2:
    return ("item", strip(t[1]), strip(t[2]))
  if t and t[0] == "mcall":
    return ("mcall", t[1], strip(t[2]), strip(t[3]), strip(t[4]))
  if t and t[0] == "call":
    return ("call", t[1], strip(t[2]), strip(t[3]))
  if t and t[0] == "new":
    return ("new", t[1], strip(t[2]), strip(t[3]))
  r = tuple(strip(x) if isinstance(x, tuple) else x for x in t)
  if r and r[0] == "poly":
    p = ZERO
    for mono, c in r[1]:
      term = C(c)
      for f in mono:
        term = pmul(term, f)
      p = padd(p, term)
    return p
  return r


# --- display -------------------------------------------------------------------

def show(t):
  if not isinstance(t, tuple) or not t:
    return repr(t)
  k = t[0]
  try:
    if k == "c":
      return repr(t[2])
    if k == "sym":
      return t[1]
    if k == "attr":
      return "%s.%s%s" % (show(t[1]), t[2], "'" * (t[3] if len(t) > 3 else 0) if len(t) > 3 and t[3] < 4 else ("@%d" % t[3] if len(t) > 3 else ""))
    if k == "item":
      return "%s[%s]%s" % (show(t[1]), show(t[2]), "'" * min(t[3], 4) if len(t) > 3 else "")
    if k == "call":
      return "%s(%s)%s" % (t[1], ", ".join([show(x) for x in t[2]] + ["%s=%s" % (a, show(b)) for a, b in t[3]]), "#%d" % t[4] if len(t) > 4 else "")
    if k == "mcall":
      return "%s.%s(%s)%s" % (show(t[2]), t[1], ", ".join([show(x) for x in t[3]] + ["%s=%s" % (a, show(b)) for a, b in t[4]]), "#%d" % t[5] if len(t) > 5 else "")
    if k == "new":
      return "new %s(%s)" % (t[1], ", ".join([show(x) for x in t[2]] + ["%s=%s" % (a, show(b)) for a, b in t[3]]))
    if k == "poly":
      s = []
      for m, c in t[1]:
        f = "*".join(show(x) for x in m)
        s.append(("%d" % c if not m else (f if c == 1 else ("-" + f if c == -1 else "%d*%s" % (c, f)))))
      return "(" + " + ".join(s) + ")"
    if k == "lit":
      return show_lit((t[1], t[2]))
    if k in ("list", "tuple", "set"):
      return k[0] + "(" + ", ".join(show(x) for x in t[1]) + ")"
    if k in ("fn", "cls", "mod", "ext", "bi", "gvar"):
      return t[1]
    if k == "idx":
      return "i_%s" % (t[1],)
    if k == "lv":
      return "%s~%s" % (t[2] if isinstance(t[2], str) else show_key(t[2]), t[1])
    if k == "bin":
      return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    return k + "(" + ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
  except Exception:
    return repr(t)


def show_key(k):
  return "%s.%s" % (show(k[0]), k[1] if isinstance(k[1], str) else show(k[1]))


def show_atom(a):
  if a is True or a is False:
    return str(a)
  if a[0] == "lt0":
    return "%s < 0" % show(a[1])
  if a[0] == "eq0":
    return "%s == 0" % show(a[1])
  if a[0] in ("eq", "is", "in"):
    return "%s %s %s" % (show(a[1]), {"eq": "==", "is": "is", "in": "in"}[a[0]], show(a[2]))
  if a[0] == "truth":
    return show(a[1])
  return show(a)


def show_lit(l):
  return ("" if l[1] else "not ") + "(" + show_atom(l[0]) + ")"
