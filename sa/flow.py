"""Path-sensitive value-flow analysis of one function.

A syntax-directed walk that gives every expression a value number (terms.py)
and every path an ordered list of events with the branch literals that guard
them.  Loops are analysed once, on a generic iteration: names and fields the
body changes are replaced by loop-head symbols, induction variables by affine
functions of the iteration index.  Calls to helpers that are not part of the
vocabulary of the rules are spliced in place.  No code of the repository runs
and no constraint solver is involved: literals are compared only for syntactic
identity of their normal forms and for interval clashes.
"""
import ast
import copy
import json
import math
import os

from .pyprog import AnalysisError, program, walk_own
from .terms import *
from .terms import _lt0

HERE = os.path.dirname(os.path.abspath(__file__))
try:
  BASELINE = set(json.load(open(os.path.join(HERE, "vocabulary.json"))))
except Exception:
  BASELINE = None

PURE_METHODS = {
  "copy", "get", "keys", "items", "values", "format", "join", "split", "strip",
  "index", "count", "startswith", "endswith", "upper", "lower", "isdigit", "bit_length",
  "HasField", "WhichOneof", "ByteSize", "SerializeToString", "union", "intersection",
  "is_const", "size", "replace", "splitlines", "zfill", "find", "ljust", "rjust", "isalpha", "title", "Get_rank", "Get_size", "Get_source", "Get_tag", "rstrip", "lstrip", "difference", "issubset",
}
PURE_BUILTINS = {
  "len", "range", "min", "max", "abs", "int", "isinstance", "enumerate", "zip", "sum",
  "any", "all", "list", "tuple", "sorted", "set", "dict", "str", "repr", "float", "bool",
  "reversed", "map", "filter", "ord", "chr", "print", "type", "id", "hash", "frozenset",
  "round", "pow", "divmod", "getattr", "hasattr", "bytes", "iter", "callable", "issubclass",
  "super", "bytearray", "slice", "hex", "bin", "oct",
}
# library functions of their arguments alone
PURE_LIBRARY = {"pathlib.Path", "re.fullmatch", "re.match", "re.search", "re.split", "re.findall", "math.log", "math.log10", "math.log2",
                "math.floor", "math.ceil", "math.sqrt", "os.path.join", "os.path.basename", "os.path.dirname", "os.path.splitext", "string.capwords"}
MUTATORS = {"append", "extend", "add", "update", "pop", "insert", "remove", "clear",
            "popleft", "appendleft", "reverse", "sort", "setdefault", "discard"}
# fields that hold a list of fixed length (established by the constructor and every assignment: P04)
PAIRS = {("Macro.Tape:Chain_Tape", "tape"): 2}
# dictionaries that never hold None (only results of eval_trans are stored: P05; only proven rules: P08)
NOTNULL = {"trans_table", "rules"}
FRESH = ("list", "dict", "set", "append", "concat", "comp", "store", "lv", "mut")


class Ev:
  __slots__ = ("kind", "name", "recv", "args", "kw", "value", "node", "func", "nconds", "loops", "info", "pure")

  def __init__(self, kind, name, recv, args, kw, value, node, func, nconds, loops, info=None):
    self.kind = kind
    self.name = name
    self.recv = recv
    self.args = args
    self.kw = kw
    self.value = value
    self.node = node
    self.func = func
    self.nconds = nconds
    self.loops = loops
    self.info = info if info != "pure" else None
    self.pure = info == "pure"

  def sig(self):
    return (self.kind, self.name, self.recv, self.args, self.kw, self.value, self.loops)

  def line(self):
    return getattr(self.node, "lineno", 0)

  def __repr__(self):
    a = ", ".join([show(x) for x in self.args] + ["%s=%s" % (k, show(v)) for k, v in self.kw])
    r = show(self.recv) + "." if self.recv is not None else ""
    v = " -> " + show(self.value) if self.value is not None and self.kind not in ("setattr",) else ""
    if self.kind == "setattr":
      return "%s%s := %s" % (r, self.name, show(self.value))
    if self.kind == "setitem":
      return "%s[%s] := %s" % (r[:-1], a, show(self.value))
    return "%s %s%s(%s)%s" % (self.kind, r, self.name, a, v)


class LoopInfo:
  def __init__(self, lid, kind, node, func):
    self.id = lid
    self.kind = kind
    self.node = node
    self.func = func
    self.iter = None     # term iterated (for)
    self.init = {}       # var or heap key -> value before the loop
    self.head = {}       # var or heap key -> generic head value
    self.ends = []       # states at the end of one generic iteration
    self.breaks = []
    self.rets = 0        # ways to leave the function from inside
    self.start_conds = 0
    self.start_events = 0

  def __repr__(self):
    return "<Loop %s %s>" % (self.id, self.kind)


class State:
  __slots__ = ("env", "heap", "ep", "conds", "known", "bounds", "events", "loops", "counts", "facts")

  def __init__(self):
    self.env = {}
    self.heap = {}
    self.ep = {}
    self.conds = []
    self.known = {}
    self.bounds = {}
    self.events = []
    self.loops = ()
    self.counts = {}
    self.facts = ()     # asserted: assumed when two paths are compared, never decided on

  def copy(self):
    s = State()
    s.env = dict(self.env)
    s.heap = dict(self.heap)
    s.ep = dict(self.ep)
    s.conds = list(self.conds)
    s.known = dict(self.known)
    s.bounds = dict(self.bounds)
    s.events = list(self.events)
    s.loops = self.loops
    s.counts = dict(self.counts)
    s.facts = self.facts
    return s

  # --- literals ---
  def query(self, atom):
    """True/False/None"""
    if atom is True or atom is False:
      return atom
    v = self.known.get(atom)
    if v is not None:
      return v
    k = atom[0]
    if k == "lt0":
      q, c = split_const(atom[1])
      lo, hi, ne = self._bnd(q)
      if hi is not None and hi + c < 0:
        return True
      if lo is not None and lo + c >= 0:
        return False
    elif k == "eq" and is_int(atom[2]):
      lo, hi, ne = self._bnd(atom[1])
      c = atom[2][2]
      if lo is not None and lo > c or hi is not None and hi < c or c in ne:
        return False
      if lo is not None and lo == hi == c:
        return True
      if c == 0 and self.known.get(("truth", atom[1])) is True:
        return False
      if c == 0 and self.known.get(("truth", atom[1])) is False and numeric(atom[1]):
        return True
    elif k == "eq0" or k == "eq" and _diff(atom) is not None:
      q, c = split_const(atom[1] if k == "eq0" else _diff(atom))
      lo, hi, ne = self._bnd(q)
      if lo is not None and lo > -c or hi is not None and hi < -c or -c in ne:
        return False
      if lo is not None and lo == hi == -c:
        return True
    if k == "eq" and atom[2][0] == "c":
      # equal to another constant already?
      o = self.bounds.get(("eqc", atom[1]))
      if o is not None and o != atom[2]:
        return False
      if self.known.get(("truth", atom[1])) is False and atom[2][2]:
        return False
    if k == "truth":
      o = self.bounds.get(("eqc", atom[1]))
      if o is not None:
        return bool(o[2])
      if self.known.get(("is", atom[1], NONE)) is True:
        return False
      o = self.known.get(("lit?", atom[1]))
      lo, hi, ne = self._bnd(("call", "len", (atom[1],), ()))
      if lo is not None and lo > 0:
        return True
      if hi is not None and hi <= 0:
        return False
      lo, hi, ne = self._bnd(atom[1])
      if lo is not None and lo > 0 or hi is not None and hi < 0:
        return True
      if 0 in ne and numeric(atom[1]):
        return True
    if k == "is" and atom[2] == NONE:
      if self.known.get(("truth", atom[1])) is True:
        return False
      o = self.bounds.get(("eqc", atom[1]))
      if o is not None:
        return o == NONE
    if k == "is" and atom[2][0] == "c":
      o = self.bounds.get(("isc", atom[1]))
      if o is not None and o != atom[2]:
        return False
    if k == "isinst":
      b = _classes(atom[2])
      for a, pol in self.bounds.get(("isa", atom[1]), ()):
        if pol and all(any(_below(x, y) for y in b) for x in a):
          return True
        if pol and not any(_related(x, y) for x in a for y in b):
          return False
        if not pol and all(any(_below(y, x) for x in a) for y in b):
          return False
    return None

  def _bnd(self, q):
    return self.bounds.get(("b", q), (None, None, frozenset()))

  def assume(self, atom, pol):
    """self (mutated) or None on a clash"""
    if atom is True or atom is False:
      return self if atom == pol else None
    q = self.query(atom)
    if q is not None:
      if q != pol:
        return None
      if self.known.get(atom) is None:
        self.known[atom] = pol
        self.conds.append((atom, pol))
      return self
    self.known[atom] = pol
    self.conds.append((atom, pol))
    k = atom[0]
    if k == "lt0":
      t, c = split_const(atom[1])
      lo, hi, ne = self._bnd(t)
      if pol:
        hi = -c - 1 if hi is None else min(hi, -c - 1)
      else:
        lo = -c if lo is None else max(lo, -c)
      while lo is not None and lo in ne:
        lo += 1
      while hi is not None and hi in ne:
        hi -= 1
      if lo is not None and hi is not None and lo > hi:
        return None
      self.bounds[("b", t)] = (lo, hi, ne)
    elif k in ("eq", "eq0"):
      if k == "eq" and atom[2][0] == "c":
        if pol:
          self.bounds[("eqc", atom[1])] = atom[2]
      if k == "eq" and is_int(atom[2]):
        t, c = atom[1], atom[2][2]
      elif k == "eq0" or _diff(atom) is not None:
        t, c = split_const(atom[1] if k == "eq0" else _diff(atom))
        c = -c
      else:
        t = None
      if t is not None:
        lo, hi, ne = self._bnd(t)
        if pol:
          lo = c if lo is None else max(lo, c)
          hi = c if hi is None else min(hi, c)
        else:
          ne = ne | {c}
          while lo is not None and lo in ne:
            lo += 1
          while hi is not None and hi in ne:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
          return None
        self.bounds[("b", t)] = (lo, hi, ne)
    elif k == "is" and pol and atom[2][0] == "c":
      self.bounds[("isc", atom[1])] = atom[2]
    elif k == "isinst":
      self.bounds["isa", atom[1]] = self.bounds.get(("isa", atom[1]), ()) + ((_classes(atom[2]), pol),)
    elif k == "truth":
      n = ("call", "len", (atom[1],), ())
      lo, hi, ne = self._bnd(n)
      if pol:
        lo = 1 if lo is None else max(lo, 1)
      else:
        lo, hi = 0, 0
      self.bounds[("b", n)] = (lo, hi, ne)
    return self


PROG = [None]


def _classes(t):
  return t[1] if t[0] in ("tuple", "list") else (t,)


def _ancestors(c):
  if c[0] == "cls" and PROG[0] is not None:
    try:
      return [("cls", k.qual) for k in PROG[0].mro(PROG[0].cls(c[1]))]
    except (KeyError, AttributeError, AnalysisError):
      return None
  if c[0] == "bi":
    return [c, ("bi", "int")] if c[1] == "bool" else [c]
  if c[0] == "ext" and c[1] in ("fractions.Fraction", "collections.deque"):
    return [c]
  return None


def _below(x, y):
  """every x is a y"""
  return x == y or y in (_ancestors(x) or ())


def _related(x, y):
  """something can be both an x and a y"""
  a, b = _ancestors(x), _ancestors(y)
  if a is None or b is None or x[0] == "bi" and x[1] == "object" or y[0] == "bi" and y[1] == "object":
    return True
  for p in (x, y):
    if p[0] == "cls" and PROG[0] is not None and _foreign(p[1]):
      return True
  return x in b or y in a


def _kind_test(f):
  """`return isinstance(x, ...)`"""
  b = f.node.body
  if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
    b = b[1:]
  return len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Call) and isinstance(b[0].value.func, ast.Name) \
    and b[0].value.func.id == "isinstance" and f.cls is None and len(f.node.args.args) == 1


def mkstore(b, i, v):
  if b[0] == "dict" and i[0] == "c" and all(len(kv) == 2 and kv[0][0] == "c" for kv in b[1]):
    if any(k == i for k, _ in b[1]):
      return ("dict", tuple((k, v if k == i else x) for k, x in b[1]))
    return ("dict", b[1] + ((i, v),))
  if b[0] == "list" and is_int(i) and 0 <= i[2] < len(b[1]) and not any(x[0] == "star" for x in b[1]):
    return ("list", b[1][:i[2]] + (v,) + b[1][i[2] + 1:])
  return ("store", b, i, v)


def _foreign(q):
  """the class has bases outside the program"""
  return any(":" not in b and b != "object" for k in PROG[0].mro(PROG[0].cls(q)) for b in k.bases)


def _is_set(t):
  return t[0] == "set" or t[0] == "call" and t[1] == "set"


def _diff(atom):
  """x - y, in the form in which bounds are kept, for the atom x == y"""
  x, y = atom[1], atom[2]
  if x[0] not in ("attr", "item", "sym", "lv", "call", "mcall", "idx") or y[0] not in ("attr", "item", "sym", "lv", "call", "mcall", "idx"):
    return None
  d = psub(x, y)
  return pneg(d) if lead_sign(d) < 0 else d


def merge_states(items):
  """items: list of (State, signal).  Drop duplicates that differ only in
  literals (a branch that did nothing)."""
  out = []
  index = {}
  for st, sig in items:
    try:
      k = (tuple(sorted(st.env.items(), key=lambda kv: kv[0])),
           frozenset(st.heap.items()), frozenset(st.ep.items()),
           tuple(id(e) if e.kind in ("loop", "nested") else e.sig() for e in st.events), sig, st.loops)
      hash(k)
    except TypeError:
      out.append((st, sig))
      continue
    if k in index:
      i = index[k]
      a = out[i][0]
      # keep common literals, unless they are complementary by case split
      bs = set(st.conds)
      common = [c for c in a.conds if c in bs]
      if len(common) == len(a.conds) or len(common) == len(st.conds) or _complementary(a.conds, st.conds):
        n = a.copy()
        n.conds = common
        n.facts = tuple(c for c in a.facts if c in st.facts)
        n.known = {}
        n.bounds = {}
        for at, p in common:
          n.assume_quiet(at, p) if hasattr(n, "assume_quiet") else None
        n.known = {at: p for at, p in common}
        n.bounds = {kk: v for kk, v in a.bounds.items() if st.bounds.get(kk) == v}
        # event guards index into conds: remap
        n.events = _remap(a.events, a.conds, common)
        out[i] = (n, sig)
        continue
    index[k] = len(out)
    out.append((st, sig))
  return out


def _complementary(c1, c2):
  """conds differ exactly in one literal with opposite polarity"""
  s1, s2 = set(c1), set(c2)
  d1, d2 = s1 - s2, s2 - s1
  if len(d1) == 1 and len(d2) == 1:
    (a1, p1), = d1
    (a2, p2), = d2
    return a1 == a2 and p1 != p2
  return False


def _remap(events, conds, common):
  cs = set(common)
  pos = [0]
  for c in conds:
    pos.append(pos[-1] + (1 if c in cs else 0))
  out = []
  for e in events:
    n = pos[min(e.nconds, len(conds))]
    if n != e.nconds:
      e = Ev(e.kind, e.name, e.recv, e.args, e.kw, e.value, e.node, e.func, n, e.loops, "pure" if e.pure else e.info)
    out.append(e)
  return out


class Path:
  """One way through the function."""

  def __init__(self, st, sig, func):
    self.st = st
    self.conds = st.conds
    self.events = st.events
    self.kind = sig[0]          # return | raise | end
    self.value = sig[1] if len(sig) > 1 else NONE
    self.node = sig[2] if len(sig) > 2 else None
    self.func = func

  def holds(self, atom, pol=True):
    q = self.st.query(atom)
    return None if q is None else q == pol

  def guard(self, ev):
    return self.conds[:ev.nconds]

  def calls(self, name=None, kinds=("call", "new")):
    return [e for e in self.events if e.kind in kinds and (name is None or e.name == name or e.name.split(":")[-1] == name or e.name.split(".")[-1] == name)]

  def show(self):
    return "[%s] {%s} => %s %s" % (" & ".join(show_lit(c) for c in self.conds), "; ".join(repr(e) for e in self.events), self.kind, show(self.value))


DUNDER = {"__add__": ast.Add(), "__sub__": ast.Sub(), "__mul__": ast.Mult(), "__truediv__": ast.Div(), "__floordiv__": ast.FloorDiv(),
          "__mod__": ast.Mod(), "__pow__": ast.Pow()}


class Flow:
  """Analyse functions with a given policy."""

  def __init__(self, prog=None, inline=(), opaque=(), pure=(), max_paths=6000, depth=7,
               stable=(), exc_calls=False, inline_all=False, async_exc=False, types=None,
               stable_globals=True, noreturn=(), fold_props=True, asserts=True, prints=False):
    self.copied = {}        # copies made: in which loops
    self.prints = prints   # console output is an effect: the values shown, not the wording
    self.asserts = asserts
    self.prog = prog or program()
    self.inline = set(inline)
    self.opaque = set(opaque)
    self.pure = set(pure)
    self.max_paths = max_paths
    self.depth = depth
    self.stable = set(stable)
    self.exc_calls = exc_calls
    self.async_exc = async_exc
    self.inline_all = inline_all
    self.types = types or {}
    self.noreturn = set(noreturn) | {"sys.exit", "exit", "os._exit", "quit"}
    self.loops = {}
    self.trys = []
    self.stack = []
    if prog is not None:
      PROG[0] = prog
    self.inlined = set()
    self.left = set()   # known functions whose calls stay calls
    self.nloop = 0
    self.steps = 0
    self.boolvars = set()

  # --- entry -----------------------------------------------------------------
  def analyse(self, func, args=None, selfterm=None, pre=None, cls=None):
    """paths of func.  args: name -> term overrides."""
    self.cls = cls
    st = State()
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for n in names:
      st.env[n] = ("sym", n)
    if a.vararg:
      st.env[a.vararg.arg] = ("sym", a.vararg.arg)
    if a.kwarg:
      st.env[a.kwarg.arg] = ("sym", a.kwarg.arg)
    for k, v in (args or {}).items():
      st.env[k] = v
    for at, p in (pre or []):
      if st.assume(at, p) is None:
        raise AnalysisError("bad precondition")
    self.stack.append(func)
    out = self.block(func.node.body, st)
    self.stack.pop()
    paths = []
    for s, sig in out:
      if sig is None:
        sig = ("return", NONE, None)
      paths.append(Path(s, sig, func))
    for s, exc, e in getattr(self, "raises", []):
      paths.append(Path(s, ("raise", exc, e), func))
    self.raises = []
    return paths

  def fn(self):
    return self.stack[-1]

  def module(self):
    return self.stack[-1].module

  # --- statements --------------------------------------------------------------
  def block(self, stmts, st):
    stmts = rotate(stmts)
    cur = [(st, None)]
    for s in stmts:
      nxt = []
      live = False
      for t, sig in cur:
        if sig is not None:
          nxt.append((t, sig))
        else:
          live = True
          nxt.extend(self.stmt(s, t))
      if not live:
        return cur
      if len(nxt) > 1 and isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.Expr, ast.Assert, ast.Assign)):
        nxt = merge_states(nxt)
      if len(nxt) > self.max_paths:
        raise AnalysisError("too many paths in %s" % self.fn().qual)
      cur = nxt
    return cur

  def event(self, st, kind, name, recv=None, args=(), kw=(), value=None, node=None, info=None):
    if recv is not None and kind in ("call", "setitem", "delitem") and self.copied:
      r = recv
      while r[0] in ("attr", "item", "@"):
        r = r[1]
      if r in self.copied and self.copied[r] != st.loops:
        # one copy for several rounds
        kw = tuple(kw) + (("#rounds", C(len(st.loops) - len(self.copied[r]))),)
      elif st.counts.get(("copy", r), 0) > 1:
        kw = tuple(kw) + (("#copy", C(st.counts[("copy", r)])),)
    e = Ev(kind, name, recv, tuple(args), tuple(kw), value, node, self.fn(), len(st.conds), st.loops, info)
    st.events.append(e)
    if self.trys and kind in ("call", "new", "setattr", "setitem", "yield") and not (
        kind in ("call",) and (name in PURE_BUILTINS or name in ("time.time", "show values"))):
      if kind in ("call", "new", "yield") or self.async_exc:
        self.trys[-1].append(st.copy())
    return e

  def silent_call(self, c):
    """a call of a procedure that does nothing but print"""
    if self.prints:
      return False
    eff = self.prog.effects
    f = c.func
    if isinstance(f, ast.Name):
      r = self.prog.lookup(self.module(), f.id)
      if not (r and r[0] == "fn" and f.id not in self.fn().params() and eff.silent(self.prog.by_qual(r[1]))):
        return False
    elif isinstance(f, ast.Attribute):
      if not (eff.named_silent(f.attr) and f.attr not in ("__init__",)):
        return False
      if any(isinstance(n, ast.Call) for n in ast.walk(f.value)):
        return False
    else:
      return False
    for a in list(c.args) + [k.value for k in c.keywords]:
      for n in ast.walk(a):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)):
          return False
        if isinstance(n, ast.Call) and not eff.call_ok(self.fn(), n, ()):
          return False
    return True

  def output_only(self, s):
    """a statement whose only effect is console output"""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
      f = s.value.func
      if isinstance(f, ast.Name) and f.id in ("print",):
        if self.prints:
          return False
        for kw in s.value.keywords:
          if kw.arg == "file" and not ast.unparse(kw.value).startswith("sys."):
            return False
        if any(isinstance(n, (ast.NamedExpr, ast.Yield)) for n in ast.walk(s.value)):
          return False
        return True
      if self.silent_call(s.value):
        return True
      t = ast.unparse(f)
      if t in ("sys.stdout.flush", "sys.stderr.flush", "sys.stdout.write", "sys.stderr.write", "logging.debug", "logging.info", "logging.warning"):
        return True
    if isinstance(s, ast.Pass):
      return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
      return True
    if isinstance(s, ast.If):
      if any(isinstance(n, (ast.NamedExpr, ast.Yield)) for n in ast.walk(s.test)):
        return False
      if any(isinstance(n, ast.Call) for n in ast.walk(s.test)):
        return False
      return all(self.output_only(x) for x in s.body + s.orelse)
    return False

  def stmt(self, s, st):
    self.steps += 1
    if self.steps > 3000000:
      raise AnalysisError("analysis budget exceeded in %s" % self.fn().qual)
    if self.output_only(s):
      return [(st, None)]
    m = getattr(self, "s_" + type(s).__name__, None)
    if m is None:
      raise AnalysisError("%s: unsupported statement %s" % (self.fn().loc(s), type(s).__name__))
    return m(s, st)

  def s_Pass(self, s, st):
    return [(st, None)]

  def s_Global(self, s, st):
    return [(st, None)]

  s_Nonlocal = s_Global

  def s_Import(self, s, st):
    for a in s.names:
      n = a.asname or a.name.split(".")[0]
      st.env[n] = ("mod", a.name) if a.name in self.prog.modules else ("ext", a.name)
    return [(st, None)]

  def s_ImportFrom(self, s, st):
    base = self.prog._rel(self.module(), s)
    for a in s.names:
      full = base + "." + a.name
      n = a.asname or a.name
      r = None
      if full in self.prog.modules:
        r = ("mod", full)
      elif base in self.prog.modules:
        r = self.prog.lookup(self.prog.modules[base], a.name)
      st.env[n] = self.globalref(r) if r else ("ext", full)
    return [(st, None)]

  def s_FunctionDef(self, s, st):
    st.env[s.name] = ("lam", self.lamid(s, st))
    return [(st, None)]

  def s_ClassDef(self, s, st):
    st.env[s.name] = ("opaque", "class " + s.name)
    return [(st, None)]

  def lamid(self, node, st):
    if not hasattr(self, "lams"):
      self.lams = {}
    k = "lam%d_%d" % (node.lineno, node.col_offset)
    self.lams[k] = (node, self.fn())
    # capture by value; keyed by contents so value numbers stay comparable
    free = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name)} & set(st.env))
    return (k, tuple((f, st.env[f]) for f in free))

  def s_Expr(self, s, st):
    return [(t, None) for t, v in self.ev(s.value, st)] if not isinstance(s.value, ast.Call) else self._callstmt(s.value, st)

  def _callstmt(self, e, st):
    out = []
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "pop" and len(e.args) <= 1 and not e.keywords \
       and not any(isinstance(n, ast.Call) for n in ast.walk(e.func.value)):
      # an element taken out and dropped
      i = e.args[0] if e.args else ast.copy_location(ast.UnaryOp(ast.USub(), ast.copy_location(ast.Constant(1), e)), e)
      tgt = ast.copy_location(ast.Subscript(e.func.value, i, ast.Del()), e)
      return self.s_Delete(ast.copy_location(ast.Delete([tgt]), e), st)
    for t, v in self.ev(e, st):
      if v == ("noreturn",):
        out.append((t, ("raise", ("exc", "SystemExit"), e)))
      else:
        out.append((t, None))
    return out

  def s_Assign(self, s, st):
    out = []
    t0 = s.targets[0]
    if len(s.targets) == 1 and isinstance(t0, ast.Attribute) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) \
        and isinstance(s.value.left, ast.Attribute) and s.value.left.attr == t0.attr and self.prog.list_attr(t0.attr) and ast.unparse(s.value.left) == ast.unparse(t0):
      return self.s_AugAssign(ast.copy_location(ast.AugAssign(t0, ast.Add(), s.value.right), s), st)
    for t, v in self.ev(s.value, st):
      if v == ("noreturn",):
        out.append((t, ("raise", ("exc", "SystemExit"), s)))
        continue
      states = [t]
      for tgt in s.targets:
        states = [u for x in states for u in self.assign(tgt, v, x)]
      out.extend((u, None) for u in states)
    return out

  def s_AnnAssign(self, s, st):
    if s.value is None:
      return [(st, None)]
    return [(u, None) for t, v in self.ev(s.value, st) for u in self.assign(s.target, v, t)]

  def set_local(self, name):
    """a local that only ever holds a set"""
    f = self.fn()
    k = getattr(f, "_sets", None)
    if k is None:
      k = {}
      for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
          for t in n.targets:
            for x in ast.walk(t):
              if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                v = n.value
                k[x.id] = k.get(x.id, True) and x is t and (isinstance(v, (ast.Set, ast.SetComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "set")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          k.setdefault(n.id, True)
        elif isinstance(n, ast.arg):
          k[n.arg] = False
      assigned = {x.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
      loops = {x.id for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.comprehension, ast.withitem, ast.NamedExpr, ast.AnnAssign))
               for t in [getattr(n, "target", None) or getattr(n, "optional_vars", None)] if t is not None for x in ast.walk(t) if isinstance(x, ast.Name)}
      k = {x for x, b in k.items() if b and x in assigned and x not in loops}
      f._sets = k
    return name in k

  def s_AugAssign(self, s, st):
    if isinstance(s.op, ast.BitOr) and isinstance(s.target, ast.Name) and self.set_local(s.target.id):
      call = ast.Call(ast.Attribute(ast.Name(s.target.id, ast.Load()), "update", ast.Load()), [s.value], [])
      e = ast.Expr(call)
      for n in ast.walk(e):
        if not hasattr(n, "lineno"):
          ast.copy_location(n, s)
      return self.s_Expr(e, st)
    out = []
    load = ast.copy_location(_as_load(s.target), s.target)
    for t, old in self.ev(load, st):
      for u, v in self.ev(s.value, t):
        if isinstance(s.op, ast.Add) and isinstance(s.target, ast.Attribute) and old[0] not in FRESH and self.prog.list_attr(s.target.attr):
          # in place: the same as .extend()
          out.extend((w, None) for w, _ in self.mcall(old, "extend", (v,), (), u, s, load))
          continue
        for x, nv in self.binop2(s.op, old, v, u):
          out.extend((w, None) for w in self.assign(s.target, nv, x))
    return out

  def s_Delete(self, s, st):
    states = [st]
    for tgt in s.targets:
      nxt = []
      for t in states:
        if isinstance(tgt, ast.Name):
          t.env.pop(tgt.id, None)
          nxt.append(t)
        elif isinstance(tgt, ast.Subscript) and isinstance(tgt.slice, ast.Slice) and tgt.slice.lower is None and tgt.slice.step is None \
            and tgt.slice.upper is not None and isinstance(tgt.value, ast.Attribute) and self.prog.list_attr(tgt.value.attr):
          # dropping the front: what is kept is the rest
          rest = ast.Subscript(tgt.value, ast.Slice(tgt.slice.upper, None, None), ast.Load())
          for n in ast.walk(rest):
            ast.copy_location(n, tgt)
          for u, v in self.ev(rest, t):
            nxt.extend(self.assign(ast.copy_location(ast.Attribute(tgt.value.value, tgt.value.attr, ast.Store()), tgt), v, u))
        elif isinstance(tgt, ast.Subscript):
          for u, b in self.ev(tgt.value, t):
            for w, i in self.index(tgt.slice, u):
              self.event(w, "delitem", "del", b, (i,), node=s)
              self.mutate_place(tgt.value, b, w, ("mut", "del", b, (i,)))
              nxt.append(w)
        else:
          nxt.append(t)
      states = nxt
    return [(t, None) for t in states]

  def s_Return(self, s, st):
    if s.value is None:
      return [(st, ("return", NONE, s))]
    out = []
    for t, v in self.ev(s.value, st):
      if v == ("noreturn",):
        out.append((t, ("raise", ("exc", "SystemExit"), s)))
      else:
        out.append((t, ("return", v, s)))
    return out

  def s_Raise(self, s, st):
    if s.exc is None:
      return [(st, ("raise", st.env.get("#exc", ("exc", "?")), s))]
    out = []
    for t, v in self.ev(s.exc, st):
      out.append((t, ("raise", v, s)))
    return out

  def s_Break(self, s, st):
    return [(st, ("break",))]

  def s_Continue(self, s, st):
    return [(st, ("continue",))]

  def s_Assert(self, s, st):
    if not self.asserts and not (isinstance(s.test, ast.Constant) and not s.test.value):
      self.asserted(s, st)
      return [(st, None)]
    out = []
    for t, b in self.branch(s.test, st):
      if b:
        out.append((t, None))
      else:
        out.append((t, ("raise", ("exc", "AssertionError"), s)))
    return out

  def asserted(self, s, st):
    if any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and
           not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance")) for n in ast.walk(s.test)):
      return
    t = st.copy()
    try:
      yes = [u for u, b in self.branch(s.test, t) if b]
    except AnalysisError:
      return
    if len(yes) == 1 and len(yes[0].events) == len(st.events):
      st.facts = st.facts + tuple(yes[0].conds[len(st.conds):])

  def s_If(self, s, st):
    out = []
    for t, b in self.branch(s.test, st):
      out.extend(self.block(s.body if b else s.orelse, t))
    return out

  def s_With(self, s, st):
    states = [st]
    for item in s.items:
      nxt = []
      for t in states:
        for u, v in self.ev(item.context_expr, t):
          self.event(u, "enter", "with", v, node=s)
          if item.optional_vars is not None:
            nxt.extend(self.assign(item.optional_vars, v, u))
          else:
            nxt.append(u)
      states = nxt
    out = []
    for t in states:
      for u, sig in self.block(s.body, t):
        self.event(u, "exit", "with", None, node=s)
        out.append((u, sig))
    return out

  def s_Try(self, s, st):
    n0 = len(st.events)
    self.trys.append([])
    body = self.block(s.body, st.copy())
    snaps = self.trys.pop()
    if not snaps and s.handlers:
      snaps = [st.copy()]
    out = []
    pend = []      # (state, sig) that need handlers: sig raise
    for t, sig in body:
      if sig is not None and sig[0] == "raise":
        pend.append((t, sig, True))
      elif sig is None and s.orelse:
        out.extend(self.block(s.orelse, t))
      else:
        out.append((t, sig))
    seen = set()
    for sn in snaps:
      k = (tuple(e.sig() if e.kind != "loop" else id(e) for e in sn.events), tuple(sorted(sn.env.items())), frozenset(sn.heap.items()))
      try:
        if k in seen:
          continue
        seen.add(k)
      except TypeError:
        pass
      # restore the function's own environment: snapshots inside inlined
      # helpers carry the helper's env
      base = sn.copy()
      if "#frame" in base.env and base.env.get("#frame") != st.env.get("#frame"):
        outer = self._outer_env(base, st)
        base.env = outer
      pend.append((base, ("raise", ("exc", "?"), s), False))
    if len(pend) > 400:
      pend = pend[:400]
    for t, sig, explicit in pend:
      handled = False
      for h in s.handlers:
        names = _handler_names(h)
        m = self.exc_match(sig[1], names)
        if m is False:
          continue
        u = t.copy()
        # exception state: leave loops entered inside the body
        u.loops = st.loops
        self.event(u, "except", ",".join(names) or "*", None, (sig[1],), node=h)
        exc = sig[1] if explicit else ("exc", names[0] if names else "?")
        if h.name:
          u.env[h.name] = exc
        u.env["#exc"] = exc
        out.extend(self.block(h.body, u))
        if m is True:
          handled = True
          break
      if not handled and explicit:
        out.append((t, sig))
      elif not handled and not explicit and (s.finalbody or self.exc_calls or self.trys):
        u = t.copy()
        u.loops = st.loops
        if self.trys:
          self.trys[-1].append(u.copy())
        elif s.finalbody or self.exc_calls:
          out.append((u, sig))
    if s.finalbody:
      fin = []
      for t, sig in out:
        for u, sig2 in self.block(s.finalbody, t):
          fin.append((u, sig2 if sig2 is not None else sig))
      out = fin
    return out

  def _outer_env(self, sn, st):
    return dict(st.env)

  def exc_match(self, exc, names):
    """True: certainly caught; False: certainly not; None: maybe"""
    if not names or "BaseException" in names:
      return True
    if exc == ("exc", "?"):
      return None
    t = exc
    if t[0] == "new":
      cn = t[1].split(":")[-1]
      c = self.prog.cls(t[1])
      mro = []
      if c:
        for k in self.prog.mro(c):
          mro.append(k.name)
          mro.extend(b.split(".")[-1] for b in k.bases)
      else:
        mro = [cn]
      if any(n.split(".")[-1] in mro for n in names):
        return True
      if "Exception" in names:
        return True
      return False
    if t[0] == "cls":
      return self.exc_match(("new", t[1]), names)
    if t[0] == "exc":
      if t[1] in names or t[1].split(".")[-1] in [n.split(".")[-1] for n in names]:
        return True
      if "Exception" in names and t[1] not in ("SystemExit", "KeyboardInterrupt"):
        return True
      return False
    if t[0] in ("call", "bi"):
      nm = t[1]
      if nm in names or "Exception" in names:
        return True
      return False
    return None

  # --- loops -----------------------------------------------------------------
  def s_For(self, s, st):
    out = []
    for t, it in self.ev(s.iter, st):
      if it[0] == "list" and isinstance(s.iter, ast.List):
        it = ("tuple", it[1])
      out.extend(self.loop(s, t, it))
    return out

  def s_While(self, s, st):
    s = head_test(s)
    if not isinstance(s.test, ast.Constant):
      r = self.unrolled_while(s, st)
      if r is not None:
        return r
    return self.loop(s, st, None)

  def temps(self, s):
    """variables that live within a single iteration of loop s"""
    f = self.fn()
    memo = f.__dict__.setdefault("_temps", {})
    r = memo.get(id(s))
    if r is not None:
      return r[0]
    def span(x):
      return x.lineno, getattr(x, "end_lineno", None) or x.lineno
    lo, hi = span(s)
    out = _firsts(s)
    if out:
      others = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While)) and (span(x)[1] < lo or span(x)[0] > hi)]
      for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id in out and not lo <= n.lineno <= hi:
          if not any(span(x)[0] <= n.lineno <= span(x)[1] and n.id in _firsts(x) for x in others):
            out.discard(n.id)
        elif isinstance(n, ast.arg):
          out.discard(n.arg)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
          out -= set(n.names)
    memo[id(s)] = (out, s)
    return out

  def loop(self, s, st, it):
    gone = self.temps(s)
    for n in gone:
      st.env.pop(n, None)
    r = self.loop1(s, st, it)
    if gone:
      for x, sig in r:
        for n in gone:
          x.env.pop(n, None)
    return r

  def loop1(self, s, st, it):
    if it is not None and it[0] == "attr":
      fx = self.fixed(it, st)
      if fx is not None:
        return self.unrolled(s, st, fx)
    if it is not None and it[0] == "call" and it[1] == "enumerate" and len(it[2]) == 1 and not it[3]:
      fx = self.fixed(it[2][0], st)
      if fx is not None:
        return self.unrolled(s, st, [("tuple", (C(k), x)) for k, x in enumerate(fx)])
    if it is not None and it[0] == "call" and it[1] == "range" and len(it[2]) == 1 and it[2][0][0] == "call" and it[2][0][1] == "len":
      fx = self.fixed(it[2][0][2][0], st)
      if fx is not None:
        return self.unrolled(s, st, [C(k) for k in range(len(fx))])
    if it is not None and it[0] in ("list", "tuple") and len(it[1]) <= 4 and not any(x[0] == "star" for x in it[1]):
      return self.unrolled(s, st, it[1])
    if it is not None and it[0] == "call" and it[1] == "range" and len(it[2]) in (1, 2) and all(is_int(x) for x in it[2]):
      lo = it[2][0][2] if len(it[2]) == 2 else 0
      hi = it[2][-1][2]
      if 0 <= hi - lo <= 4:
        return self.unrolled(s, st, [C(k) for k in range(lo, hi)])
    k = (id(s), tuple(f.qual for f in self.stack))
    if k not in self.loops:
      self.nloop += 1
      self.loops[k] = "%s%d" % (getattr(self, "loop_prefix", "L"), len(self.loops))
    lid = self.loops[k]
    names = assigned_names(s)
    heads = {}
    heap_heads = {}
    bumps = set()
    info = None
    rebound = {n.id for b in s.body for n in [b] + list(walk_own(b)) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | _loop_target_names(s)
    # a part of another container stays the same part when its items change
    frozen = {n for n in names if n not in rebound and st.env.get(n, NONE)[0] == "item" and st.env[n][1][0] in ("comp", "item")}
    bools = set()
    indvars = {}
    ran = {}
    hind = {}
    mark = len(self.trys[-1]) if self.trys else 0
    mark2 = len(getattr(self, "raises", []))
    for attempt in range(8):
      if self.trys:
        del self.trys[-1][mark:]
      if hasattr(self, "raises"):
        del self.raises[mark2:]
      info = LoopInfo(lid, "for" if it is not None else "while", s, self.fn())
      info.iter = it
      h = st.copy()
      info.start_conds = len(h.conds)
      info.start_events = len(h.events)
      for b in bumps:
        self.bump(h, b)
      for n in names:
        if n in frozen:
          continue
        info.init[n] = st.env.get(n)
        if n in indvars:
          h.env[n] = padd(st.env[n], pmul(indvars[n], ("idx", lid)))
        elif n in ran:
          # "this is not the first round"
          h.env[n] = lit_of(self.compare(ast.Lt(), ZERO, ("idx", lid)), ran[n])
        elif n in st.env or n not in _loop_target_names(s):
          h.env[n] = ("lv", lid, n)
          if n in st.env and self.boolish(st.env[n]) and attempt == 0:
            bools.add(n)
          if n in bools:
            self.boolvars.add(("lv", lid, n))
          else:
            self.boolvars.discard(("lv", lid, n))
          if n not in st.env:
            # unbound before the loop: may be unbound at head
            h.env[n] = ("lv", lid, n)
        info.head[n] = h.env.get(n)
      for key_ in heap_heads:
        info.init[key_] = self.heapget(st, key_)
        if key_ in hind:
          h.heap[key_] = padd(info.init[key_], pmul(hind[key_], ("idx", lid)))
        else:
          h.heap[key_] = ("lv", lid, key_)
        info.head[key_] = h.heap[key_]
      ep0 = dict(h.ep)
      heap0 = dict(h.heap)
      ends, breaks, exits, other = [], [], [], []
      unbool = False
      # exhaustion / condition false
      if it is not None:
        x = h.copy()
        exits.append(x)
        b = h.copy()
        b.loops = h.loops + (lid,)
        elem = self.elem(it, lid, b)
        if isinstance(elem, list):
          starts = []
          for eb in elem:
            starts.extend(self.assign(s.target, eb, b.copy()))
        else:
          starts = self.assign(s.target, elem, b)
        starts = [(x_, True) for x_ in starts]
      else:
        h2 = h.copy()
        h2.loops = h.loops + (lid,)
        starts = []
        for t, c in self.branch(s.test, h2):
          if c:
            starts.append((t, True))
          else:
            t.loops = h.loops
            exits.append(t)
      for b, _ in starts:
        for t, sig in self.flagged(s, self.block(s.body, b)) if it is None else self.block(s.body, b):
          if sig is None or sig[0] == "continue":
            if it is None and not s.orelse and self.test_fails(s.test, t):
              t.loops = st.loops
              breaks.append(t)
            else:
              ends.append(t)
          elif sig[0] == "break":
            t.loops = st.loops
            breaks.append(t)
          else:
            other.append((t, sig))
      if not self.trys and len(getattr(self, "raises", [])) > mark2:
        # raised by a helper: as if raised here
        other.extend((x, ("raise", exc, e)) for x, exc, e in self.raises[mark2:])
        del self.raises[mark2:]
      for n in list(bools):
        if any(not self.boolish(e.env.get(n, NONE)) for e in ends):
          bools.discard(n)
          if n not in frozen and n not in indvars:
            unbool = True
      info.ends = ends
      info.breaks = breaks
      info.rets = len(other)
      # refine
      changed = unbool
      new_bumps = set()
      new_keys = set()
      for e in ends:
        for r, n in e.ep.items():
          if ep0.get(r, 0) != n and self.outlives(r, lid):
            new_bumps.add(r)
        for k2, v in e.heap.items():
          if heap0.get(k2) != v and k2 not in heap_heads and self.outlives(k2[0], lid) and (not isinstance(k2[1], tuple) or self.outlives(k2[1], lid)):
            # value differs from the one at the loop head
            if self.heapget(h, k2) != v:
              new_keys.add(k2)
        for k2 in heap0:
          if k2 not in e.heap and k2 not in heap_heads:
            pass
      if not new_bumps <= bumps:
        bumps |= new_bumps
        changed = True
      if not new_keys <= set(heap_heads):
        for k2 in new_keys:
          heap_heads[k2] = True
        changed = True
      if not changed:
        for n in list(names):
          if n in frozen or n in indvars or n in ran or n not in st.env:
            continue
          hv = info.head[n]
          vals = {e.env.get(n) for e in ends}
          if vals <= {hv} or vals == {st.env[n]} and st.env[n][0] == "c":
            frozen.add(n)
            changed = True
          elif st.env[n] in (TRUE, FALSE) and vals == {C(not st.env[n][2])}:
            ran[n] = st.env[n] == FALSE
            changed = True
          elif len(vals) == 1 and None not in vals:
            d = psub(vals.pop(), hv) if not is_seq(st.env[n]) else None
            if d is not None and self.steady(d, lid, None if bumps else heap_heads):
              indvars[n] = d
              changed = True
        for k2 in list(heap_heads):
          if k2 in hind:
            continue
          hv = info.head[k2]
          vals = {e.heap.get(k2) for e in ends}
          if len(vals) == 1 and None not in vals:
            v0 = vals.pop()
            if not is_seq(v0):
              d = psub(v0, hv)
              if self.steady(d, lid):
                hind[k2] = d
                changed = True
      if not changed:
        break
    if it is not None and (breaks or other) and not bumps and not heap_heads and not indvars and not ran:
      r = self.search(s, info, it, names, frozen, st, ends, breaks, exits, other, lid, mark, mark2)
      if r is not None:
        return r
    # accumulation summaries
    accum = {}
    for n in names:
      if n in frozen or n in indvars or n in ran or n not in st.env:
        continue
      acc = self.accumulated(info, n, st.env[n], ends, lid, it)
      if acc is not None and not breaks:
        accum[n] = acc
    for k2 in heap_heads:
      if k2 in hind:
        continue
      acc = self.accumulated(info, k2, info.init.get(k2), ends, lid, it)
      if acc is not None and not breaks:
        accum[k2] = acc
    result = []
    rng = _range_bounds(it)
    soft = self.soft_loop(info, it, names, frozen, indvars, hind, heap_heads, accum, st, ends, lid) if accum and not breaks and not other else None
    for x in exits:
      for n, v in accum.items():
        if isinstance(n, str):
          x.env[n] = v
        else:
          x.heap[n] = v
      if it is not None:
        # after exhaustion induction variables have run len(iter) times
        cnt = _iter_count(it)
        for n, d in indvars.items():
          x.env[n] = padd(st.env[n], pmul(d, cnt))
        for n, p in ran.items():
          x.env[n] = lit_of(self.compare(ast.Lt(), ZERO, cnt), p)
        for k2, d in hind.items():
          x.heap[k2] = padd(info.init[k2], pmul(d, cnt))
        # loop target after the loop
        for n in _loop_target_names(s):
          if n not in st.env:
            x.env[n] = ("last", lid, n)
      else:
        self.settle_index(x, info)
      if soft is not None:
        x.events.extend(soft)
      else:
        self.event(x, "loop", lid, node=s, info=info)
      # the loop event belongs before the exit literals of a while test; keep order simple
      if s.orelse:
        result.extend(self.block(s.orelse, x))
      else:
        result.append((x, None))
    for x in breaks:
      self.event(x, "loopbreak", lid, node=s, info=info)
      result.append((x, None))
    result.extend(other)
    for x, sig in other:
      x.loops = st.loops
      self.event(x, "loopret", lid, node=s, info=info)
    # exceptions leave the loop in the middle of an iteration
    for x in (self.trys[-1][mark:] if self.trys else []):
      x.events.append(Ev("loopexc", lid, None, (), (), None, s, self.fn(), len(x.conds), st.loops, info))
      x.loops = st.loops
    for x, _, _ in getattr(self, "raises", [])[mark2:]:
      x.events.append(Ev("loopret", lid, None, (), (), None, s, self.fn(), len(x.conds), st.loops, info))
      x.loops = st.loops
    if len(ends) + len(result) > self.max_paths:
      raise AnalysisError("too many paths in loop of %s" % self.fn().qual)
    return result

  def steady(self, d, lid, changed=None):
    """an increment that is the same in every iteration"""
    if is_int(d):
      return d[2] != 0
    if changed is not None and d[0] == "poly":
      # fields the loop does not write
      flds = [x for x in subterms(d) if x[0] == "attr"]
      if flds and all(x[1][0] == "sym" and len(x) == 3 and (x[1], x[2]) not in changed for x in flds):
        d = subst(d, {x: ("sym", "@" + x[2]) for x in flds})
    return all(x[0] in ("sym", "c", "poly") or x[0] == "lv" and x[1] != lid for x in subterms(d) if isinstance(x[0], str))

  def search(self, s, info, it, names, frozen, st, ends, breaks, exits, other, lid, mark, mark2):
    """a loop that does nothing but look for the first element with some property"""
    tn = set(_loop_target_names(s))
    if any(n in st.env and n not in frozen and n not in tn for n in names):
      return None
    if self.trys and len(self.trys[-1]) > mark or len(getattr(self, "raises", [])) > mark2:
      return None
    n0, e0 = info.start_conds, info.start_events
    leaving = [(x, None) for x in breaks] + other
    tests = []
    alts = []
    for x, sig in [(e, 0) for e in ends] + leaving:
      conds = x.conds[n0:]
      for c in conds:
        if any(y[0] in ("lv", "last") and y[1] == lid for y in subterms(c[0])):
          return None
      own = []
      for v in x.events[e0:]:
        if v.kind in ("call", "new") and (v.pure or v.value is not None and any(contains(c[0], v.value) for c in conds)):
          tests.append(v)
        elif v.kind == "new" and sig == 0:
          pass
        elif sig == 0:
          return None
        else:
          own.append(v)
      if sig != 0:
        alts.append((tuple(conds), (TRUE,)))
        x_own = own
        x.events = x.events[:e0] + x_own
    comp = self.mkcomp("list", it, alts, lid)
    lits = any_lits(comp)
    if not lits or len(lits) > 3 or any(a is True for a, p in lits):
      return None
    first = ("first", comp)
    m = {("idx", lid): first}
    ov = self.over(tests, it, lid)
    result = []
    for x in exits:
      x.events = x.events[:e0] + ov
      if any(x.assume(a, not p) is None for a, p in lits):
        continue
      for n in tn:
        if n not in st.env:
          x.env[n] = ("lastof", norm_iter(it), n)
      if s.orelse:
        result.extend(self.block(s.orelse, x))
      else:
        result.append((x, None))
    gone = self.temps(s)
    def outcome(x, sig):
      env = {k: v for k, v in x.env.items() if k not in tn and k in st.env}
      if not (sig and sig[0] in ("return", "raise")):
        env.update((k, v) for k, v in x.env.items() if k not in st.env and k not in tn and k not in gone)
      return (sig[:2] if sig else None), env, x.heap, [e.sig() for e in x.events[e0:]]
    outs = [outcome(x, sig) for x, sig in leaving]
    plain = all(o == outs[0] for o in outs[1:]) and not contains(tuple(outs[0][1].values()), ("idx", lid)) \
            and not contains((outs[0][0], tuple(outs[0][2].items()), tuple(outs[0][3])), ("idx", lid))
    if plain:
      leaving = leaving[:1]
    for x, sig, j in [(x, sig, j) for x, sig in leaving for j in range(len(lits))]:
      y = st.copy()
      y.counts = x.counts
      y.ep = x.ep
      y.env = {k: subst(v, m) if isinstance(v, tuple) else v for k, v in x.env.items()}
      y.heap = {subst(k, m): (subst(v, m) if isinstance(v, tuple) else v) for k, v in x.heap.items()}
      y.events = x.events[:e0] + list(ov)
      if any(y.assume(a, not p) is None for a, p in lits[:j]) or y.assume(*lits[j]) is None:
        continue
      if not plain and any(y.assume(*renorm_lit(subst(a, m), pol)) is None for a, pol in x.conds[n0:]):
        continue
      for v in x.events[e0:]:
        y.events.append(Ev(v.kind, v.name, subst(v.recv, m) if v.recv is not None else None, tuple(subst(a, m) for a in v.args), tuple((k, subst(z, m)) for k, z in v.kw),
                           subst(v.value, m) if v.value is not None else None, v.node, v.func, len(y.conds), tuple(l for l in v.loops if l != lid), "pure" if v.pure else v.info))
      if sig is not None:
        sig = tuple(subst(z, m) if isinstance(z, tuple) and z and isinstance(z[0], str) else z for z in sig)
      result.append((y, sig))
    return result

  def flagged(self, s, outs):
    """ends of iterations, told apart by the truth values the loop test reads"""
    names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
    res = []
    for t, sig in outs:
      cur = [t]
      if sig is None or sig[0] == "continue":
        for n in sorted(names):
          nxt = []
          for u in cur:
            v = u.env.get(n)
            if v is not None and v[0] == "lit":
              for w, b in self.split(u, v):
                w.env[n] = C(b)
                nxt.append(w)
            else:
              nxt.append(u)
          cur = nxt
      res.extend((u, sig) for u in cur)
    return res

  def test_fails(self, test, st):
    """is the test of a loop certainly false after this iteration"""
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
      vs = []
      for x in test.values:
        if any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(x)):
          break
        vs.append(x)
      if not vs:
        return False
      if len(vs) < len(test.values):
        test = vs[0] if len(vs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), vs), test)
    if isinstance(test, ast.Constant) or any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(test)):
      return False
    u = st.copy()
    n, k = len(u.conds), len(u.events)
    bs = list(self.branch(test, u))
    return bool(bs) and all(not b and len(t.conds) == n and len(t.events) == k for t, b in bs)

  def soft_loop(self, info, it, names, frozen, indvars, hind, heap_heads, accum, st, ends, lid):
    """the events of a loop that does nothing but compute the values it adds up"""
    tn = set(_loop_target_names(info.node)) if it is not None else set()
    if it is None or any(n in st.env and n not in accum and n not in frozen and n not in indvars and n not in tn for n in names):
      return None
    if any(k not in accum and k not in hind for k in heap_heads):
      return None
    evs = []
    for e in ends:
      vals = [e.env.get(n) if isinstance(n, str) else e.heap.get(n) for n in accum] + [c[0] for c in e.conds[info.start_conds:]]
      for x in e.events[info.start_events:]:
        if x.kind in ("setattr", "setitem") and (x.recv, x.name) in accum:
          continue
        if x.kind == "call" and x.name in ("append", "extend", "add", "update") and x.recv is not None and (x.recv[0] in ("lv", "append", "list", "concat", "mut") or _is_set(x.recv)):
          continue
        if x.kind not in ("call", "new"):
          return None
        if x.kind == "call" and not x.pure and not any(contains(v, x.value) for v in vals if v is not None):
          return None
        evs.append(x)
    if not evs or all(x.pure or x.kind == "new" for x in evs):
      return None
    return self.over(evs, it, lid)

  def over(self, evs, it, lid):
    """events of a generic element, named by what is iterated over"""
    m = {("idx", lid): ("over", norm_iter(it))}
    seen, uniq = set(), []
    for x in evs:
      y = Ev(x.kind, x.name, subst(x.recv, m) if x.recv is not None else None, tuple(subst(a, m) for a in x.args), tuple((k, subst(v, m)) for k, v in x.kw),
             subst(x.value, m) if x.value is not None else None, x.node, x.func, x.nconds, tuple("over" if l == lid else l for l in x.loops), "pure" if x.pure else x.info)
      s = y.sig()
      if s not in seen:
        seen.add(s)
        uniq.append(y)
    return uniq

  def settle_index(self, x, info):
    """a while loop left because its counter reached a bound"""
    idx = ("idx", info.id)
    for at, pol in x.conds[info.start_conds:]:
      if at[0] != "lt0":
        continue
      p = to_poly(at[1])
      c = p.get((idx,))
      n = None
      if c == 1 and not pol:          # not (idx - n < 0)
        n = psub(idx, at[1])
      elif c == -1 and pol:           # n - idx - 1 ... < 0
        n = padd(padd(at[1], idx), ONE)
      if n is None or not self.outlives(n, info.id) or any(y[0] == "lv" and y[1] == info.id for y in subterms(n)):
        continue
      m = {idx: n}
      x.env = {k: subst(v, m) if isinstance(v, tuple) else v for k, v in x.env.items()}
      x.heap = {k: (subst(v, m) if isinstance(v, tuple) else v) for k, v in x.heap.items()}
      return

  def outlives(self, term, lid):
    """does the term denote something that exists outside iteration lid"""
    for x in subterms(term):
      if x[0] == "idx" and x[1] == lid:
        return False
    return True

  def accumulated(self, info, n, init, ends, lid, it):
    hv = info.head.get(n)
    alts = []
    if init is not None and it is not None and not is_seq(init) and init[0] not in ("list", "set", "append", "concat", "dict", "mut", "new"):
      r = self.added_up(info, n, init, ends, lid, it)
      if r is not None:
        return r
    kinds = set()
    if init is None or it is None or not is_seq(init) and init[0] not in ("list", "set", "append", "concat", "lv", "mut") and not _is_set(init):
      return None
    for e in ends:
      v = e.env.get(n) if isinstance(n, str) else e.heap.get(n)
      if v == hv:
        continue
      items = []
      while v is not None and (v[0] in ("append", "concat") or v[0] == "mut" and v[1] in ("add", "update") and len(v[3]) == 1):
        kinds.add(v[0] == "mut")
        if v[0] == "append":
          items.append(v[2])
          v = v[1]
        elif v[0] == "concat":
          items.append(("nested", v[2]))
          v = v[1]
        else:
          items.append(v[3][0] if v[1] == "add" else ("nested", v[3][0]))
          v = v[2]
      if v != hv or len(kinds) > 1:
        return None
      conds = tuple(e.conds[info.start_conds:])
      alts.append((conds, tuple(reversed(items))))
    if not alts:
      return init
    for conds, items in alts:
      for x in items:
        for y in subterms(x):
          if y[0] == "lv" and y[1] == lid or _within(y, lid):
            return None
      if any(_within(y, lid) for c in conds for y in subterms(c[0])):
        return None
    if any(contains(x, hv) for c_, its in alts for x in its):
      return None
    comp = self.mkcomp("list", it, alts, lid)
    if True in kinds:
      return ("mut", "update", init, (comp,))
    if init == ("list", ()):
      return comp
    return ("concat", init, comp)

  def added_up(self, info, n, init, ends, lid, it):
    """a number that every iteration adds something to"""
    hv = info.head.get(n)
    if hv is None:
      return None
    alts = []
    for e in ends:
      v = e.env.get(n) if isinstance(n, str) else e.heap.get(n)
      if v is None:
        return None
      if v == hv:
        continue
      if v[0] != "poly":
        return None
      d = psub(v, hv)
      conds = tuple(e.conds[info.start_conds:])
      for y in [z for c in conds for z in subterms(c[0])] + list(subterms(d)):
        if y == hv or y[0] in ("lv", "last") and y[1] == lid or _within(y, lid):
          return None
      alts.append((conds, (d,)))
    if not alts:
      return None
    return padd(init, sum_of(self.mkcomp("list", it, alts, lid)))

  def places(self, s, n):
    """bodies of the rounds of a loop over the places of a container, when the
    loop changes the elements themselves"""
    if not isinstance(s, ast.For) or not isinstance(s.target, ast.Name):
      return None
    e, x = s.iter, s.target.id
    path = e
    while isinstance(path, ast.Attribute):
      path = path.value
    if not isinstance(path, ast.Name) or path is e and False:
      return None
    if any(isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) and y.id in (x, path.id) for b in s.body for y in ast.walk(b)):
      return None
    if not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == x and y.func.attr in MUTATORS
               or isinstance(y, ast.Subscript) and isinstance(y.ctx, (ast.Store, ast.Del)) and isinstance(y.value, ast.Name) and y.value.id == x
               for b in s.body for y in ast.walk(b)):
      return None
    memo = self.fn().__dict__.setdefault("_places", {})
    if id(s) not in memo:
      rounds = []
      for k in range(n):
        def put(y, k=k):
          return ast.copy_location(ast.Subscript(copy.deepcopy(e), ast.Constant(k), y.ctx), y)
        rounds.append([ast.fix_missing_locations(_Put(x, put).visit(copy.deepcopy(b))) for b in s.body])
      memo[id(s)] = (rounds, s)
    return memo[id(s)][0]

  def unrolled(self, s, st, items):
    cur = [(st, None)]
    done = []
    rounds = self.places(s, len(items))
    for k, x in enumerate(items):
      nxt = []
      for t, sig in cur:
        for u in self.assign(s.target, x, t):
          for w, sg in self.block(rounds[k] if rounds else s.body, u):
            if sg is None or sg[0] == "continue":
              nxt.append((w, None))
            elif sg[0] == "break":
              done.append((w, None))
            else:
              done.append((w, sg))
      cur = merge_states(nxt)
      if len(cur) + len(done) > self.max_paths:
        raise AnalysisError("too many paths in %s" % self.fn().qual)
    out = []
    for t, sig in cur:
      if s.orelse:
        out.extend(self.block(s.orelse, t))
      else:
        out.append((t, None))
    return out + done

  def unrolled_while(self, s, st):
    """a counting loop with a constant number of rounds (at most 4), else None"""
    # only a counter that is a constant here can decide the test
    vs = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)]
    if not any(is_int(st.env.get(v, NONE)) for v in vs) or any(isinstance(n, ast.Call) for n in ast.walk(s.test)):
      return None
    cur = [st.copy()]
    done = []
    for rnd in range(6):
      nxt = []
      for t in cur:
        bs = self.branch(s.test, t.copy())
        if len(bs) != 1 or len(bs[0][0].conds) != len(t.conds):
          return None
        u, b = bs[0]
        if not b:
          done.extend(self.block(s.orelse, u) if s.orelse else [(u, None)])
          continue
        if rnd == 5:
          return None
        for w, sg in self.block(s.body, u):
          if sg is None or sg[0] == "continue":
            nxt.append((w, None))
          elif sg[0] == "break":
            done.append((w, None))
          else:
            done.append((w, sg))
      cur = [w for w, _ in merge_states(nxt)]
      if not cur:
        return done
    return None

  def elem(self, it, lid, st):
    """element of `it` at the generic index"""
    idx = ("idx", lid)
    if it[0] == "call" and it[1] == "range" and not it[3]:
      a = it[2]
      lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
      v = padd(lo, pmul(step, idx))
      st.assume(*_pair(atom_le(ZERO, idx)))
      if is_int(step) and step[2] > 0:
        st.assume(*_pair(atom_lt(v, hi)))
      elif is_int(step) and step[2] < 0:
        st.assume(*_pair(atom_lt(hi, v)))
      return v
    if it[0] == "call" and it[1] == "enumerate":
      start = it[2][1] if len(it[2]) > 1 else ZERO
      for k, v in it[3]:
        if k == "start":
          start = v
      return ("tuple", (padd(start, idx), self.elem(it[2][0], lid, st)))
    if it[0] == "call" and it[1] == "zip":
      return ("tuple", tuple(self.elem(x, lid, st) for x in it[2]))
    if it[0] == "@":
      return self.elem(it[1], lid, st)
    if it[0] == "call" and it[1] in ("list", "tuple", "iter", "set", "sorted", "frozenset") and len(it[2]) == 1 and it[1] != "sorted":
      return self.elem(it[2][0], lid, st)
    if it[0] == "call" and it[1] == "reversed":
      x = it[2][0]
      return self.getitem(x, psub(psub(("call", "len", (x,), ()), ONE), idx), st)
    if it[0] == "comp" and len(it[3]) >= 1:
      out = []
      # element of a comprehension: its element expression at the bound index
      if len(it[3]) == 1 and len(it[3][0][1]) == 1:
        conds, items = it[3][0]
        if items[0][0] != "nested" and items[0][0] not in FRESH and not _has_deeper(it):
          v = _unbind(items[0], lid)
          inner = _unbind(it[2], lid)
          self.elem(inner, lid, st)
          for a, p in conds:
            st.assume(_unbind(a, lid), p)
          return v
    if it[0] == "mcall" and it[1] == "items" and not it[3]:
      k = self.getitem(it[2], idx, st)
      return ("tuple", (k, self.getitem(it[2], k, st)))
    if it[0] == "mcall" and it[1] == "keys" and not it[3]:
      return self.getitem(it[2], idx, st)
    if it[0] == "mcall" and it[1] == "values" and not it[3]:
      return self.getitem(it[2], self.getitem(it[2], idx, st), st)
    return self.getitem(it, idx, st)

  # --- assignment ------------------------------------------------------------
  def assign(self, tgt, v, st):
    if isinstance(tgt, ast.Name):
      if tgt.id in self._globals_of(self.fn()):
        self.heapset(st, (("modvars", self.module().name), tgt.id), v)
        self.event(st, "setattr", tgt.id, ("modvars", self.module().name), value=v, node=tgt)
      else:
        st.env[tgt.id] = v
      return [st]
    if isinstance(tgt, (ast.Tuple, ast.List)):
      n = len(tgt.elts)
      star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
      if v[0] in ("tuple", "list") and not star and len(v[1]) == n:
        vals = v[1]
      elif not star:
        vals = [self.getitem(v, C(i), st) for i in range(n)]
      else:
        vals = [self.getitem(v, C(i) if i < star[0] else C(i - n), st) if i != star[0] else ("starrest", v, i) for i in range(n)]
      states = [st]
      for e, x in zip(tgt.elts, vals):
        if isinstance(e, ast.Starred):
          e = e.value
        states = [u for t in states for u in self.assign(e, x, t)]
      return states
    if isinstance(tgt, ast.Attribute):
      out = []
      for t, b in self.ev(tgt.value, st):
        self.heapset(t, (b, tgt.attr), v)
        self.event(t, "setattr", tgt.attr, b, value=v, node=tgt)
        out.append(t)
      return out
    if isinstance(tgt, ast.Subscript):
      out = []
      for t, b in self.ev(tgt.value, st):
        for u, i in self.index(tgt.slice, t):
          self.event(u, "setitem", "[]", b, (i,), value=v, node=tgt)
          if not self.mutate_place(tgt.value, b, u, mkstore(b, i, v)):
            # other entries of the same container may alias
            for k in [k for k in u.heap if k[0] == b and isinstance(k[1], tuple)]:
              if not _distinct(k[1], i):
                u.heap.pop(k)
            u.heap[(b, i)] = v
          out.append(u)
      return out
    if isinstance(tgt, ast.Starred):
      return self.assign(tgt.value, v, st)
    raise AnalysisError("%s: unsupported target" % self.fn().loc(tgt))

  def _globals_of(self, f):
    g = getattr(f, "_globals", None)
    if g is None:
      g = set()
      for n in walk_own(f.node):
        if isinstance(n, ast.Global):
          g.update(n.names)
      f._globals = g
    return g

  def heapget(self, st, key_):
    b, a = key_
    if key_ in st.heap:
      return st.heap[key_]
    if isinstance(a, str):
      return self.attr_default(b, a, st)
    return self.item_default(b, a, st)

  def heapset(self, st, key_, v):
    st.heap[key_] = v
    # anything reached through the overwritten field is a different object now
    old = ("attr", key_[0], key_[1]) if isinstance(key_[1], str) else None
    return

  def epoch(self, st, b, field=None):
    """how often the object, or one field of it, may have changed"""
    n = 0
    if st.ep:
      ps = prefixes(b)
      for p in ps:
        n += st.ep.get(p, 0)
        if field is not None:
          n += st.ep.get(("#f", p, field), 0)
      if field is None and b[0] == "attr":
        for p in ps[1:]:
          n += st.ep.get(("#f", p, b[2]), 0)
    return n

  def attr_default(self, b, a, st):
    if a in self.stable:
      return ("attr", b, a)
    n = self.epoch(st, b, a)
    return ("attr", b, a, n) if n else ("attr", b, a)

  def item_default(self, b, i, st):
    n = self.epoch(st, b)
    return ("item", b, i, n) if n else ("item", b, i)

  def bump_call(self, st, t, fields):
    """the object after a call that changes only the given fields (None: any)"""
    if fields is None or t[0] in FRESH:
      return self.bump(st, t)
    for a in sorted(fields):
      self.bump(st, ("#f", t, a))

  def bump(self, st, t):
    if t[0] == "#f":
      _, t, a = t
      if t[0] in ("c", "fn", "cls", "mod", "ext", "bi", "lit", "poly", "idx", "lam") or a in self.stable:
        return
      st.ep[("#f", t, a)] = st.ep.get(("#f", t, a), 0) + 1
      for k in list(st.heap):
        b = k[0]
        if b != t and t not in prefixes(b):
          continue
        x, hit = b, k[1] == a
        while x != t and not hit:
          hit = x[0] == "attr" and x[2] == a
          x = x[2] if x[0] == "mcall" else x[1]
        if hit:
          del st.heap[k]
      return
    if t[0] in ("c", "fn", "cls", "mod", "ext", "bi", "lit", "poly", "idx", "lam"):
      return
    st.ep[t] = st.ep.get(t, 0) + 1
    for k in list(st.heap):
      if k[1] in self.stable:
        continue
      b = k[0]
      if b == t or t in prefixes(b):
        del st.heap[k]

  def mutate_place(self, expr, b, st, nv):
    """b, the value of expr, is a fresh container held in a local or field:
    update it functionally.  Returns False when b is not fresh."""
    if b[0] not in FRESH:
      return False
    if isinstance(expr, ast.Name):
      st.env[expr.id] = nv
      return True
    if isinstance(expr, ast.Attribute):
      r = self.ev(expr.value, st)
      if len(r) == 1:
        st.heap[(r[0][1], expr.attr)] = nv
        return True
    if isinstance(expr, ast.Subscript):
      # container inside a fresh container: rebuild outer
      r = self.ev(expr.value, st)
      if len(r) == 1 and isinstance(expr.value, (ast.Name, ast.Attribute)):
        ob = r[0][1]
        ri = self.index(expr.slice, st)
        if len(ri) == 1:
          i = ri[0][1]
          if ob[0] in ("list", "tuple") and is_int(i) and -len(ob[1]) <= i[2] < len(ob[1]):
            items = list(ob[1])
            items[i[2]] = nv
            return self.mutate_place(expr.value, ob, st, (ob[0], tuple(items))) or False
          if ob[0] in FRESH:
            return self.mutate_place(expr.value, ob, st, mkstore(ob, i, nv))
          st.heap[(ob, i)] = nv
          self.event(st, "setitem", "[]", ob, (i,), value=nv, node=expr)
          return True
    return False

  # --- conditions --------------------------------------------------------------
  def branch(self, e, st):
    """[(state, bool)]"""
    if isinstance(e, ast.BoolOp):
      is_and = isinstance(e.op, ast.And)
      cur = [(st, is_and)]
      for x in e.values:
        nxt = []
        for t, b in cur:
          if b != is_and:
            nxt.append((t, b))
          else:
            nxt.extend(self.branch(x, t))
        cur = nxt
      return cur
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      return [(t, not b) for t, b in self.branch(e.operand, st)]
    if isinstance(e, ast.IfExp):
      out = []
      for t, b in self.branch(e.test, st):
        out.extend(self.branch(e.body if b else e.orelse, t))
      return out
    out = []
    for t, v in self.ev(e, st):
      out.extend(self.split(t, v))
    return out

  def split(self, t, v):
    a, p = truth(v)
    if a is True or a is False:
      return [(t, a == p)]
    out = []
    q = t.query(a)
    if q is not None:
      t.assume(a, q)
      return [(t, q == p)]
    u = t.copy()
    if u.assume(a, p) is not None:
      out.append((u, True))
    w = t.copy()
    if w.assume(a, not p) is not None:
      out.append((w, False))
    return out

  # --- expressions -------------------------------------------------------------
  def ev(self, e, st):
    m = getattr(self, "e_" + type(e).__name__, None)
    if m is None:
      raise AnalysisError("%s: unsupported expression %s" % (self.fn().loc(e), type(e).__name__))
    return m(e, st)

  def evs(self, es, st):
    cur = [(st, ())]
    for e in es:
      nxt = []
      for t, vs in cur:
        for u, v in self.ev(e, t):
          nxt.append((u, vs + (v,)))
      cur = nxt
    return cur

  def e_Constant(self, e, st):
    return [(st, C(e.value))]

  def e_Name(self, e, st):
    n = e.id
    if n in st.env and n not in self._globals_of(self.fn()):
      return [(st, st.env[n])]
    clo = st.env.get("#closure")
    r = self.prog.lookup(self.module(), n)
    if r is None:
      if n in ("True", "False", "None"):
        return [(st, C({"True": True, "False": False, "None": None}[n]))]
      import builtins
      if hasattr(builtins, n):
        return [(st, ("bi", n))]
      return [(st, ("unbound", "?"))]
    return [(st, self.globalref(r, st))]

  def globalref(self, r, st=None):
    if r[0] == "gvar":
      m, ex, multi = self.prog.gexpr(r[1])
      if multi:
        key_ = (("modvars", r[1].split(":")[0]), r[1].split(":")[1])
        if st is not None:
          return self.heapget(st, key_)
        return ("attr",) + key_
      v = self.const_expr(m, ex)
      if v is not None:
        return v
      return r
    if r[0] == "ext" and r[1] in EXTCONST:
      return C(EXTCONST[r[1]])
    return r

  def const_expr(self, m, ex):
    if isinstance(ex, ast.Constant):
      return C(ex.value)
    if isinstance(ex, ast.UnaryOp) and isinstance(ex.op, ast.USub) and isinstance(ex.operand, ast.Constant):
      return C(-ex.operand.value)
    if isinstance(ex, ast.Name) or isinstance(ex, ast.Attribute):
      r = self.prog.resolve_expr(m, ex)
      if r and r[0] == "gvar":
        return self.globalref(r)
      if r and r[0] in ("fn", "cls", "mod", "ext"):
        return r
      if isinstance(ex, ast.Name):
        import builtins
        if r is None and hasattr(builtins, ex.id):
          return ("bi", ex.id)
    if isinstance(ex, (ast.Tuple,)):
      vs = [self.const_expr(m, x) for x in ex.elts]
      if all(v is not None for v in vs):
        return ("tuple", tuple(vs))
    if isinstance(ex, ast.BinOp):
      a, b = self.const_expr(m, ex.left), self.const_expr(m, ex.right)
      if a is not None and b is not None:
        return self.binop(ex.op, a, b)
    return None

  def e_Attribute(self, e, st):
    out = []
    for t, b in self.ev(e.value, st):
      out.append((t, self.getattr(b, e.attr, t, e)))
    # properties
    res = []
    for t, v in out:
      if v[0] == "#prop":
        res.extend(self.inline_call(v[1], (v[2],), (), t, e))
      else:
        res.append((t, v))
    return res

  def getattr(self, b, a, st, node=None):
    if b[0] in ("mod", "ext", "cls"):
      r = self.prog.member(b, a) if b[0] != "cls" else self.prog.member(b, a)
      if r is not None:
        if r[0] == "cvar":
          ex = self.prog.cls(r[1]).consts[r[2]]
          v = self.const_expr(self.prog.cls(r[1]).module, ex)
          return v if v is not None else r
        return self.globalref(r, st)
    if (b, a) in st.heap:
      return st.heap[(b, a)]
    if b[0] == "call" and b[1] == "copy.deepcopy" and len(b[2]) == 1 and not b[3] and self.prog.never_changed(a):
      # a copy of what nobody changes in place
      if (b[2][0], a) not in st.heap and self.attr_default(b[2][0], a, st) == ("attr", b[2][0], a):
        return ("attr", b[2][0], a)
    c = self.type_of(b, st)
    if c:
      f = self.prog.find_method(c, a)
      if f is not None and f.kind == "property" and self.should_inline(f):
        return ("#prop", f, b)
      cc = self.prog.cls(c)
      if f is None and cc is not None and b == ("sym", "self"):
        for k in self.prog.mro(cc):
          if a in k.consts and not _assigned_in_class(k, a):
            v = self.const_expr(k.module, k.consts[a])
            if v is not None:
              return v
    return self.attr_default(b, a, st)

  def type_of(self, t, st=None):
    if t[0] == "new":
      return t[1] if self.prog.cls(t[1]) else None
    if t == ("sym", "self"):
      if self.cls:
        return self.cls
      for f in reversed(self.stack):
        if f.cls:
          return f.cls.qual
    s = strip(t)
    return self.types.get(s)

  def e_Subscript(self, e, st):
    out = []
    for t, b in self.ev(e.value, st):
      for u, i in self.index(e.slice, t):
        if _cases(b) and i[0] not in ("c", "slice"):
          out.extend(self.lookup_case(b, i, u, None))
        else:
          out.append((u, self.getitem(b, i, u)))
    return out

  def lookup_case(self, b, i, st, default):
    """a lookup in a dictionary display with constant keys: one outcome per key"""
    out = []
    for k, v in b[1]:
      if st is None:
        break
      rest = None
      for u, y in self.split(st, self.compare(ast.Eq(), i, k)):
        if y:
          out.append((u, v))
        else:
          rest = u
      st = rest
    if st is not None:
      out.append((st, self.item_default(b, i, st) if default is None else default))
    return out

  def index(self, sl, st):
    if isinstance(sl, ast.IfExp) and isinstance(sl.body, ast.Constant) and isinstance(sl.orelse, ast.Constant) and {repr(sl.body.value), repr(sl.orelse.value)} == {"0", "1"}:
      c = sl.test if sl.body.value else ast.copy_location(ast.UnaryOp(ast.Not(), sl.test), sl)
      if not any(isinstance(x, ast.Call) for x in ast.walk(c)):
        return self.ev(c if isinstance(c, (ast.UnaryOp, ast.Compare)) else ast.copy_location(ast.Name(c.id, ast.Load()), sl) if isinstance(c, ast.Name) else sl, st)
    if isinstance(sl, ast.Slice):
      parts = [sl.lower, sl.upper, sl.step]
      cur = [(st, ())]
      for p in parts:
        nxt = []
        for t, vs in cur:
          if p is None:
            nxt.append((t, vs + (NONE,)))
          else:
            for u, v in self.ev(p, t):
              nxt.append((u, vs + (v,)))
        cur = nxt
      return [(t, ("slice",) + vs) for t, vs in cur]
    return self.ev(sl, st)

  def getitem(self, b, i, st):
    if i[0] == "tuple" and len(i[1]) == 2:
      x, y = i[1]
      if x[0] == y[0] == "item" and len(x) == len(y) == 3 and x[1] == y[1] and (x[2], y[2]) == (ZERO, ONE) and x[1][0] == "item" and x[1][1] == b and x[1][2][0] == "idx":
        # a key of the same dictionary, taken apart and put together again
        i = x[1]
    if b[0] == "attr" and b[2] in ("tape", "dir") and i[0] == "poly" and i[1][0:1] and len(i[1]) == 2:
      # the other side of a two-sided tape: 1 - d is not d
      p = dict(i[1])
      if p.pop((), None) == 1:
        (mono, co), = p.items()
        if co == -1 and len(mono) == 1:
          i = negate(mono[0])
    while b[0] == "call" and b[1] in ("list", "tuple") and len(b[2]) == 1 and not b[3] and i[0] in ("idx", "poly", "c", "lv"):
      b = b[2][0]
    if b[0] in ("list", "tuple") and is_int(i) and -len(b[1]) <= i[2] < len(b[1]):
      return b[1][i[2]]
    if b[0] in ("list", "tuple") and i[0] == "slice" and all(is_int(x) or x == NONE for x in i[1:]):
      return (b[0], b[1][slice(*[x[2] for x in i[1:]])])
    if b[0] == "append" and is_int(i) and i[2] == -1:
      return b[2]
    if b[0] == "call" and b[1] == "range" and len(b[2]) == 1 and (i[0] in ("idx", "sym", "lv") or is_int(i) and i[2] >= 0):
      return i
    if b[0] == "item" and b[2][0] == "slice" and is_int(i) and i[2] >= 0 and b[2][3] in (NONE, ONE) \
        and (b[2][1] == NONE or is_int(b[2][1]) and b[2][1][2] >= 0) and is_int(b[2][2]):
      lo = 0 if b[2][1] == NONE else b[2][1][2]
      if lo + i[2] < b[2][2][2]:
        return self.getitem(b[1], C(lo + i[2]), st) if len(b) == 3 else ("item", b[1], C(lo + i[2])) + b[3:]
    if (b, i) in st.heap:
      return st.heap[(b, i)]
    if b[0] == "store":
      if b[2] == i:
        return b[3]
      if _distinct(b[2], i):
        return self.getitem(b[1], i, st)
    if b[0] == "dict":
      hit = [v for k, v in b[1] if k == i]
      if hit:
        return hit[-1]
    if i == BACK and b[0] == "call" and b[1] == "list" and len(b[2]) == 1:
      return _reverse(b)
    if i == ALL and (b[0] == "lv" and self.stored_to(b[2]) or b[0] != "lv" and _own_list(b) and not (b[0] == "item" and is_str(b[1]))):
      return ("call", "list", (b,), ())
    return self.item_default(b, i, st)

  def e_BinOp(self, e, st):
    out = []
    for t, a in self.ev(e.left, st):
      for u, b in self.ev(e.right, t):
        out.extend(self.binop2(e.op, a, b, u))
    return out

  def boolish(self, t):
    """does the term certainly denote True or False"""
    if t[0] == "lit" or t[0] == "c" and t[1] == "bool":
      return True
    if t[0] == "lv":
      return t in self.boolvars
    if t[0] == "call":
      return self.prog.returns_bool(t[1])
    if t[0] == "mcall":
      return self.prog.method_returns_bool(t[1])
    return False

  def binop2(self, op, a, b, st):
    if isinstance(op, (ast.BitOr, ast.BitAnd)) and self.boolish(a) and self.boolish(b):
      isor = isinstance(op, ast.BitOr)
      out = []
      for t, r in self.split(st, b):
        if r == isor:
          out.append((t, C(isor)))
        else:
          out.append((t, a))
      return out
    return [(st, self.binop(op, a, b))]

  def tuple_of(self, q):
    """the number of elements of the tuple a function always returns"""
    f = self.prog.by_qual(q)
    if f is None:
      return 0
    ns = set()
    for n in walk_own(f.node):
      if isinstance(n, (ast.Yield, ast.YieldFrom)):
        return 0
      if isinstance(n, ast.Return):
        ns.add(len(n.value.elts) if isinstance(n.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.value.elts) else 0)
    return ns.pop() if len(ns) == 1 and isinstance(f.node.body[-1], (ast.Return, ast.If, ast.Raise)) else 0

  def binop(self, op, a, b):
    k = type(op).__name__
    if k == "Add":
      if is_seq(a) or is_seq(b):
        if a[0] == "c" and b[0] == "c":
          try:
            return C(a[2] + b[2])
          except TypeError:
            pass
        if a[0] == b[0] and a[0] in ("list", "tuple"):
          return (a[0], a[1] + b[1])
        for x, y in ((a, b), (b, a)):
          if x[0] == "tuple" and y[0] == "call" and ":" in y[1]:
            n = self.tuple_of(y[1])
            if n:
              y = ("tuple", tuple(("item", y, C(i)) for i in range(n)))
              return ("tuple", x[1] + y[1] if x is a else y[1] + x[1])
        return mkconcat(a, b)
      return padd(a, b) if _num(a) and _num(b) else ("bin", "+", a, b)
    if k == "Sub" and a[0] == "call" and a[1] == "set" and len(a[2]) == 1 and a[2][0][0] == "call" and a[2][0][1] == "range" and len(a[2][0][2]) <= 2:
      lo, hi = ((ZERO,) + a[2][0][2])[-2:]
      items = b[1] if b[0] == "set" else b[2][0][1] if b[0] == "call" and b[1] == "set" and len(b[2]) == 1 and b[2][0][0] in ("list", "tuple") else None
      if items and is_int(lo) and sorted(items, key=repr) == [C(lo[2] + n) for n in range(len(items))]:
        return ("call", "set", (("call", "range", (C(lo[2] + len(items)), hi), ()),), ())
    if k == "Sub":
      return psub(a, b) if _num(a) and _num(b) else ("bin", "-", a, b)
    if k == "Mult":
      if is_seq(a) or is_seq(b):
        if b[0] == "list" and a[0] != "list":
          a, b = b, a
        if a[0] == "list" and len(a[1]) == 1 and a[1][0][0] in ("c", "sym", "attr", "ext") and not is_seq(b):
          if is_int(b):
            return ("list", a[1] * b[2]) if 0 <= b[2] <= 4 else ("bin", "*", a, b)
          return self.mkcomp("list", ("call", "range", (b,), ()), [((), a[1])], "K*")
        return ("bin", "*", a, b)
      return pmul(a, b) if _num(a) and _num(b) else ("bin", "*", a, b)
    if k == "Pow" and is_int(b) and 0 <= b[2] <= 6 and _num(a):
      r = ONE
      for _ in range(b[2]):
        r = pmul(r, a)
      return r
    if k == "Mod" and a[0] == "c" and a[1] == "str":
      r = percent(a[2], b)
      if r is not None:
        return r
    if k == "FloorDiv" and a[0] == "poly" and not is_int(b) and _num(b) and b[0] != "poly":
      # (p + n*b) // b == p // b + n
      n = dict(a[1]).get((b,), 0)
      if n and isinstance(n, int):
        return padd(self.binop(op, psub(a, pmul(C(n), b)), b), C(n))
    if k == "Mod" and a[0] == "poly" and not is_int(b) and _num(b) and b[0] != "poly":
      n = dict(a[1]).get((b,), 0)
      if n and isinstance(n, int):
        return self.binop(op, psub(a, pmul(C(n), b)), b)
    if is_int(a) and is_int(b):
      try:
        r = {"FloorDiv": lambda x, y: x // y, "Mod": lambda x, y: x % y,
             "LShift": lambda x, y: x << y, "RShift": lambda x, y: x >> y,
             "BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y,
             "BitXor": lambda x, y: x ^ y, "Pow": lambda x, y: x ** y}[k](a[2], b[2])
        return C(r)
      except Exception:
        pass
    sym = {"FloorDiv": "//", "Mod": "%", "Div": "/", "Pow": "**", "LShift": "<<", "RShift": ">>",
           "BitAnd": "&", "BitOr": "|", "BitXor": "^", "MatMult": "@"}.get(k, k)
    if sym == "<<" and is_int(b) and b[2] >= 0:
      return pmul(a, C(1 << b[2]))
    if sym in ("&", "|", "^"):
      parts = []
      for x in (a, b):
        todo = [x]
        while todo:
          y = todo.pop()
          if y[0] == "bin" and y[1] == sym:
            todo += [y[2], y[3]]
          else:
            parts.append(y)
      parts.sort(key=key)
      r = parts[0]
      for x in parts[1:]:
        r = ("bin", sym, r, x)
      return r
    return ("bin", sym, a, b)

  def e_UnaryOp(self, e, st):
    out = []
    for t, v in self.ev(e.operand, st):
      if isinstance(e.op, ast.Not):
        out.append((t, negate(v)))
      elif isinstance(e.op, ast.USub):
        out.append((t, C(-v[2]) if v[0] == "c" and v[1] in ("int", "float") else pneg(v)))
      elif isinstance(e.op, ast.UAdd):
        out.append((t, v))
      else:
        out.append((t, ("un", "~", v)))
    return out

  def e_BoolOp(self, e, st):
    is_and = isinstance(e.op, ast.And)
    cur = [(st, None, False)]
    for i, x in enumerate(e.values):
      nxt = []
      last = i == len(e.values) - 1
      for t, v, done in cur:
        if done:
          nxt.append((t, v, True))
          continue
        if last:
          nxt.extend((u, w, True) for u, w in self.ev(x, t))
          continue
        for u, w in self.ev(x, t):
          for y, b in self.split(u, w):
            if b == is_and:
              nxt.append((y, None, False))
            else:
              # short circuit: the value is w
              val = C(b) if self.boolish(w) else w
              nxt.append((y, val, True))
      cur = nxt
    return [(t, v) for t, v, d in cur]

  def e_Compare(self, e, st):
    out = []
    ops = e.ops
    for t, vs in self.evs([e.left] + e.comparators, st):
      lits = []
      parts = self.cmp_parts(ops[0], vs[0], vs[1]) if len(ops) == 1 else None
      if parts is not None:
        out.extend(self.junction(t, *parts))
        continue
      for i, op in enumerate(ops):
        lits.append(self.compare(op, vs[i], vs[i + 1]))
      if len(lits) == 1:
        out.append((t, lits[0]))
      else:
        # conjunction: fork
        cur = [(t, True)]
        for l in lits:
          nxt = []
          for u, b in cur:
            if not b:
              nxt.append((u, b))
            else:
              nxt.extend(self.split(u, l))
          cur = nxt
        out.extend((u, C(b)) for u, b in cur)
    return out

  def cmp_parts(self, op, a, b):
    """a comparison of displays as a conjunction or disjunction: (is conjunction, positive, literals)"""
    k = type(op).__name__
    flat = lambda x: not any(y[0] == "star" for y in x[1])
    if k in ("Eq", "NotEq") and a[0] == b[0] and a[0] in ("tuple", "list") and len(a[1]) == len(b[1]) and 0 < len(a[1]) <= 4 and flat(a) and flat(b):
      return True, k == "Eq", [self.compare(ast.Eq(), x, y) for x, y in zip(a[1], b[1])]
    if k in ("In", "NotIn") and b[0] in ("tuple", "list", "set") and 1 < len(b[1]) <= 4 and flat(b) and a[0] != "c":
      return False, k == "In", [self.compare(ast.Eq(), a, x) for x in b[1]]
    if k in ("In", "NotIn") and _cases(b) and a[0] != "c":
      return False, k == "In", [self.compare(ast.Eq(), a, x) for x, _ in b[1]]
    if k in ("Lt", "LtE", "Gt", "GtE"):
      less = k in ("Lt", "LtE")
      for x, y, up in ((a, b, less), (b, a, not less)):
        # up: x must be below y
        if x[0] == "call" and x[1] in ("max", "min") and len(x[2]) > 1 and not x[3] and not any(z[0] == "star" for z in x[2]) and y[0] != "call":
          return (x[1] == "max") == up, True, [self.compare(op, z, y) if x is a else self.compare(op, y, z) for z in x[2]]
        if x[0] == "call" and x[1] == "abs" and len(x[2]) == 1 and y[0] != "call":
          return up, True, [self.compare(op, z, y) if x is a else self.compare(op, y, z) for z in (x[2][0], pneg(x[2][0]))]
    return None

  def junction(self, t, conj, pos, lits):
    cur = [(t, conj)]
    for l in lits:
      nxt = []
      for u, b in cur:
        if b != conj:
          nxt.append((u, b))
        else:
          nxt.extend(self.split(u, l))
      cur = nxt
    return [(u, C(b == pos)) for u, b in cur]

  def compare(self, op, a, b):
    k = type(op).__name__
    if k in ("Is", "IsNot", "Eq", "NotEq") and b == NONE and a[0] == "item" and a[1][0] == "attr" and a[1][2] in NOTNULL:
      return C(k in ("IsNot", "NotEq"))
    if k in ("Eq", "NotEq") and (a == NONE or b == NONE):
      k = "Is" if k == "Eq" else "IsNot"
    if k in ("Eq", "NotEq"):
      # a read never returns more than was asked for
      for x, y in ((a, b), (b, a)):
        n = len_arg(x)
        n = strip(n) if n is not None else None
        if n is not None and n[0] == "mcall" and n[1] == "read" and len(n[3]) == 1 and strip(y) == n[3][0]:
          k, a, b = "GtE" if k == "Eq" else "Lt", x, y
          return self.compare(ast.GtE() if k == "GtE" else ast.Lt(), a, b)
    if k == "Eq":
      at, p = atom_eq(a, b)
    elif k == "NotEq":
      at, p = atom_eq(a, b)
      p = not p
    elif k in ("Lt", "LtE", "Gt", "GtE"):
      if not (_num(a) and _num(b)):
        if a[0] == "c" and b[0] == "c":
          try:
            return C({"Lt": a[2] < b[2], "LtE": a[2] <= b[2], "Gt": a[2] > b[2], "GtE": a[2] >= b[2]}[k])
          except TypeError:
            pass
        if k in ("Gt", "GtE"):
          k, a, b = ("Lt" if k == "Gt" else "LtE"), b, a
        return ("lit", ("cmp", k, a, b), True)
      if k == "Lt":
        at, p = atom_lt(a, b)
      elif k == "LtE":
        at, p = atom_le(a, b)
      elif k == "Gt":
        at, p = atom_lt(b, a)
      else:
        at, p = atom_le(b, a)
    elif k == "Is":
      at, p = atom_is(a, b)
    elif k == "IsNot":
      at, p = atom_is(a, b)
      p = not p
    elif k in ("In", "NotIn"):
      p = k == "In"
      if b[0] in ("tuple", "list", "set") and len(b[1]) == 1:
        at, p2 = atom_eq(a, b[1][0])
        p = p == p2
      elif b[0] in ("tuple", "list", "set") and a[0] == "c" and all(x[0] == "c" for x in b[1]):
        at = any(x[2] == a[2] for x in b[1])
      elif b[0] in ("tuple", "list", "set"):
        at = ("in", a, ("set", tuple(sorted(b[1], key=key))))
      else:
        if b[0] == "mcall" and b[1] == "keys" and not b[3]:
          b = b[2]
        if b[0] == "comp" and b[1] in ("list", "set", "gen") and not any(x[0] == "nested" for alt in b[3] for x in alt[1]) and all(len(alt[1]) == 1 for alt in b[3]):
          def same(x):
            y, z = atom_eq(x, a)
            return C(y == z) if y is True or y is False else ("lit", y, z)
          at, p2 = any_atom(("comp", "list", b[2], tuple((alt[0], (same(alt[1][0]),)) + tuple(alt[2:]) for alt in b[3])))
          p = p == p2
        else:
          at = ("in", a, b)
    else:
      raise AnalysisError("comparison " + k)
    if at is True or at is False:
      return C(at == p)
    return ("lit", at, p)

  def e_IfExp(self, e, st):
    out = []
    for t, b in self.branch(e.test, st):
      out.extend(self.ev(e.body if b else e.orelse, t))
    return out

  def e_Tuple(self, e, st):
    return [(t, self.seq("tuple", vs)) for t, vs in self.evs(e.elts, st)]

  def e_List(self, e, st):
    return [(t, self.seq("list", vs)) for t, vs in self.evs(e.elts, st)]

  def e_Set(self, e, st):
    return [(t, self.seq("set", vs)) for t, vs in self.evs(e.elts, st)]

  def seq(self, kind, vs):
    if not any(v[0] == "star" for v in vs):
      return (kind, tuple(vs))
    parts = []
    for v in vs:
      if v[0] == "star":
        x = v[1]
        if x[0] in ("list", "tuple"):
          parts.extend(x[1])
        else:
          parts.append(v)
      else:
        parts.append(v)
    if not any(v[0] == "star" for v in parts):
      return (kind, tuple(parts))
    # concatenation
    r = None
    for v in parts:
      x = v[1] if v[0] == "star" else (kind, (v,))
      r = x if r is None else ("concat", r, x)
    if len(parts) == 1:
      return ("call", kind, (r,), ())
    return r

  def e_Starred(self, e, st):
    return [(t, ("star", v)) for t, v in self.ev(e.value, st)]

  def e_Dict(self, e, st):
    if any(k is None for k in e.keys):
      return [(t, ("opaque", "dict", vs)) for t, vs in self.evs(e.values, st)]
    out = []
    for t, ks in self.evs(e.keys, st):
      for u, vs in self.evs(e.values, t):
        out.append((u, ("dict", tuple(zip(ks, vs)))))
    return out

  def e_JoinedStr(self, e, st):
    parts = [x for v in e.values if isinstance(v, ast.FormattedValue) for x in [v.value] + ([v.format_spec] if v.format_spec is not None else [])]
    out = []
    for t, vs in self.evs(parts, st):
      vs, ps = list(vs), []
      for v in e.values:
        if isinstance(v, ast.Constant):
          ps.append(C(v.value))
          continue
        x = vs.pop(0)
        spec = vs.pop(0) if v.format_spec is not None else C("")
        if spec[0] == "c":
          spec = spec[2]
        ps.append(("fmt", x, chr(v.conversion) if v.conversion >= 0 else "", spec))
      out.append((t, mkstr(ps)))
    return out

  def e_FormattedValue(self, e, st):
    return self.ev(e.value, st)

  def e_NamedExpr(self, e, st):
    return [(u, v) for t, v in self.ev(e.value, st) for u in self.assign(e.target, v, t)]

  def e_Lambda(self, e, st):
    return [(st, ("lam", self.lamid(e, st)))]

  def e_Yield(self, e, st):
    if e.value is None:
      self.event(st, "yield", "yield", value=NONE, node=e)
      return [(st, ("opaque", "yieldval"))]
    out = []
    for t, v in self.ev(e.value, st):
      self.event(t, "yield", "yield", value=v, node=e)
      out.append((t, ("opaque", "yieldval")))
    return out

  def e_YieldFrom(self, e, st):
    out = []
    for t, v in self.ev(e.value, st):
      self.event(t, "yieldfrom", "yieldfrom", value=v, node=e)
      out.append((t, ("opaque", "yieldval")))
    return out

  def e_Slice(self, e, st):
    return self.index(e, st)

  # comprehensions
  def comp(self, kind, e, elts, st):
    gens = e.generators
    # evaluate the first iterable outside
    out = []
    for t, it in self.ev(gens[0].iter, st):
      r = self.comp_fixed(kind, gens, elts, t, it, e)
      if r is not None:
        out.append(r)
        continue
      v, evs = self.comp_level(kind, gens, 0, elts, t, it, e)
      # keep events of the element computation (may be zero or more times)
      for x in evs:
        t.events.append(x)
      out.append((t, v))
    return out

  def mapped(self, f, it, st, e):
    """map(f, it) as a comprehension"""
    self.ncomp = getattr(self, "ncomp", 0) + 1
    lid = "K%d" % self.ncomp
    b = st.copy()
    n0, e0 = len(b.conds), len(b.events)
    b.loops = b.loops + (lid,)
    x = self.elem(it, lid, b)
    if isinstance(x, list):
      return None
    alts, evs = [], []
    for w, v in self.call(f, (x,), (), b, e):
      alts.append((tuple(w.conds[n0:]), (v,)))
      evs.extend(w.events[e0:])
    v = self.mkcomp("list", it, _simplify_alts(alts), lid)
    st.events.extend(self.over(evs, it, lid))
    return [(st, v)]

  def fixed(self, it, st):
    """the elements of an iterable of known length, else None"""
    if it[0] in ("list", "tuple") and len(it[1]) <= 4 and not any(x[0] == "star" for x in it[1]):
      return list(it[1])
    if it[0] == "call" and it[1] == "range" and len(it[2]) in (1, 2) and all(is_int(x) for x in it[2]):
      lo, hi = (it[2][0][2] if len(it[2]) == 2 else 0), it[2][-1][2]
      if 0 <= hi - lo <= 4:
        return [C(k) for k in range(lo, hi)]
    if it[0] == "attr":
      ty = self.type_of(it[1], st)
      n = PAIRS.get((ty, it[2]))
      if not ty and it[2] == "tape" and self.fn().module.name.startswith("Macro."):
        # only the two halves of a chain tape can be iterated over
        n = 2
      if not ty and it[2] == "dir" and self.fn().module.name == "Backtracking_Filter":
        # so with the two sides of a partial configuration
        n = 2
      if n:
        return [self.getitem(it, C(k), st) for k in range(n)]
    return None

  def comp_fixed(self, kind, gens, elts, st, it, e):
    items = self.fixed(it, st)
    if items is None or kind not in ("list", "dict") or gens[0].ifs or kind == "dict" and len(gens) > 1:
      return None
    t = st.copy()
    env = dict(t.env)
    parts = []
    for x in items:
      us = list(self.assign(gens[0].target, x, t))
      if len(us) != 1:
        return None
      t = us[0]
      if len(gens) == 1:
        r = list(self.evs(elts, t))
        if len(r) != 1 or len(r[0][0].conds) != len(st.conds):
          return None
        t, vs = r[0]
        parts.append(vs[0] if kind == "list" else ("tuple", tuple(vs)))
      else:
        r = list(self.ev(gens[1].iter, t))
        if len(r) != 1 or len(r[0][0].conds) != len(st.conds):
          return None
        t, it2 = r[0]
        v, evs = self.comp_level(kind, gens, 1, elts, t, it2, e)
        for y in evs:
          t.events.append(y)
        parts.append(v)
    for n in list(t.env):
      if n not in env:
        del t.env[n]
    for n in _target_names(gens[0].target):
      if n in env:
        t.env[n] = env[n]
    if kind == "dict":
      if not all(p[0] == "tuple" and len(p[1]) == 2 and p[1][0][0] == "c" for p in parts) or len({p[1][0] for p in parts}) != len(parts):
        return None
      return t, ("dict", tuple(p[1] for p in parts))
    if len(gens) == 1:
      return t, ("list", tuple(parts))
    r = parts[0] if parts else ("list", ())
    for x in parts[1:]:
      r = ("concat", r, x)
    return t, r

  def mkcomp(self, kind, it, alts, lid):
    """one form for iterating over elements and over indices"""
    st = State()
    self.elem(it, lid, st)
    if it[0] == "call" and it[1] == "zip" and it[2] and not it[3]:
      # side by side (the sequences are as long as one another)
      it = it[2][0]
    drop = set(st.conds)
    alts = [(tuple(c for c in a[0] if c not in drop), a[1]) for a in alts]
    alts = [_bind(a, lid) for a in _simplify_alts(alts)]
    alts = [(tuple(sorted(a[0], key=repr)),) + tuple(a[1:]) for a in alts]
    return _split_concat(("comp", kind, _bind(norm_iter(it), lid), tuple(sorted(alts, key=repr))))

  def comp_level(self, kind, gens, level, elts, st, it, node):
    g = gens[level]
    self.ncomp = getattr(self, "ncomp", 0) + 1
    lid = "K%d" % self.ncomp
    b = st.copy()
    n0, e0 = len(b.conds), len(b.events)
    b.loops = b.loops + (lid,)
    alts = []
    evs = []
    if it[0] in ("tuple", "list") and len(it[1]) <= 4 and kind in ("any", "all", "list", "gen", "set") and level == len(gens) - 1 and False:
      pass
    starts = []
    for u in self.assign(g.target, self.elem(it, lid, b), b):
      cur = [u]
      for c in g.ifs:
        nxt = []
        for x in cur:
          for y, r in self.branch(c, x):
            if r:
              nxt.append(y)
        cur = nxt
      starts.extend(cur)
    for u in starts:
      if level + 1 < len(gens):
        for w, it2 in self.ev(gens[level + 1].iter, u):
          v, ev2 = self.comp_level(kind, gens, level + 1, elts, w, it2, node)
          alts.append((tuple(w.conds[n0:]), (("nested", v),)))
          evs.extend(w.events[e0:] + ev2)
      else:
        for w, vs in self.evs(elts, u):
          alts.append((tuple(w.conds[n0:]), vs if len(vs) == 1 else (("tuple", vs),)))
          evs.extend(w.events[e0:])
    # merge alternatives that differ in nothing
    v = self.mkcomp(kind, it, _simplify_alts(alts), lid)
    return v, self.over(evs, it, lid)

  def e_ListComp(self, e, st):
    return self.comp("list", e, [e.elt], st)

  def e_GeneratorExp(self, e, st):
    return self.comp("list", e, [e.elt], st)

  def e_SetComp(self, e, st):
    g = e.generators[0]
    if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id in ("reversed", "sorted") and len(g.iter.args) == 1:
      # the order of the elements does not matter
      g2 = ast.copy_location(ast.comprehension(target=g.target, iter=g.iter.args[0], ifs=g.ifs, is_async=0), g.iter)
      e = ast.copy_location(ast.SetComp(elt=e.elt, generators=[g2] + e.generators[1:]), e)
    return self.comp("set", e, [e.elt], st)

  def e_DictComp(self, e, st):
    return self.comp("dict", e, [e.key, e.value], st)

  # --- calls -------------------------------------------------------------------
  def shows(self, f, name):
    return any(isinstance(n, ast.Name) and n.id == "print" for g in ([f] if f is not None else self.prog.methods_named(name)) for n in walk_own(g.node))

  def harmless(self, qual):
    try:
      if self.prints and self.shows(self.prog.by_qual(qual), ""):
        return False
      return self.prog.effects.harmless(self.prog.by_qual(qual))
    except (KeyError, AttributeError, ValueError):
      return False

  def should_inline(self, f):
    if f.qual in self.opaque or f.name in self.opaque:
      return False
    if f.is_generator:
      return False
    if f in self.stack or len(self.stack) > self.depth:
      return False
    if f.qual in self.inline or f.name in self.inline:
      return True
    if self.inline_all:
      return True
    if BASELINE is None:
      return False
    if f.qual in BASELINE:
      if _kind_test(f):
        return True
      self.left.add(f.qual)
      return False
    return True

  def e_Call(self, e, st):
    out = []
    f = e.func
    if isinstance(f, ast.Name) and f.id == "set" and len(e.args) == 1 and not e.keywords and "set" not in st.env:
      a = e.args[0]
      if isinstance(a, (ast.ListComp, ast.GeneratorExp)):
        return self.e_SetComp(ast.copy_location(ast.SetComp(elt=a.elt, generators=a.generators), e), st)
      if isinstance(a, (ast.List, ast.Tuple)) and a.elts and not any(isinstance(x, ast.Starred) for x in a.elts):
        return self.e_Set(ast.copy_location(ast.Set(elts=a.elts), e), st)
    if isinstance(f, ast.Attribute) and f.attr == "update" and len(e.args) > 1 and not e.keywords and not any(isinstance(x, ast.Starred) for x in e.args):
      # only sets take several
      cur = [st]
      for a in e.args:
        c = ast.copy_location(ast.Call(func=f, args=[a], keywords=[]), e)
        cur = [u for t in cur for u, _ in self.e_Call(c, t)]
      return [(t, NONE) for t in cur]
    # evaluate callee
    if isinstance(f, ast.Attribute):
      # super().method(...)
      if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
        for t, vs, kw in self.callargs(e, st):
          c = self.fn().cls
          m = None
          if c:
            for k in self.prog.mro(c)[1:]:
              if f.attr in k.methods:
                m = k.methods[f.attr]
                break
          base = next((b for k in self.prog.mro(c) for b in k.bases if b in ("dict", "list", "set", "tuple", "int", "str")), None) if c and m is None else None
          if base is not None:
            g = ast.Attribute(ast.Name(base, ast.Load()), f.attr, ast.Load())
            me = ast.Name(self.fn().node.args.args[0].arg, ast.Load())
            call = ast.Call(g, [me] + e.args, e.keywords)
            for x in ast.walk(call):
              ast.copy_location(x, e)
            return self.e_Call(call, st)
          if m is not None and self.should_inline(m):
            out.extend(self.inline_call(m, (t.env.get("self", ("sym", "self")),) + vs, kw, t, e))
          else:
            v = ("mcall", f.attr, ("super",), vs, kw)
            self.event(t, "call", f.attr, ("super",), vs, kw, v, e)
            self.bump(t, t.env.get("self", ("sym", "self")))
            out.append((t, v))
        return out
      for t, b in self.ev(f.value, st):
        if b[0] in ("mod", "ext", "cls") or (b[0] == "bi"):
          c = self.getattr(b, f.attr, t) if b[0] != "bi" else ("ext", b[1] + "." + f.attr)
          for u, vs, kw in self.callargs(e, t):
            out.extend(self.call(c, vs, kw, u, e, recvexpr=f.value))
        else:
          for u, vs, kw in self.callargs(e, t):
            out.extend(self.mcall(b, f.attr, vs, kw, u, e, f.value))
      return out
    for t, c in self.ev(f, st):
      for u, vs, kw in self.callargs(e, t):
        out.extend(self.call(c, vs, kw, u, e))
    return out

  def callargs(self, e, st):
    out = []
    for t, vs in self.evs(e.args, st):
      flat = []
      for v in vs:
        if v[0] == "star" and v[1][0] in ("tuple", "list"):
          flat.extend(v[1][1])
        else:
          flat.append(v)
      for u, ks in self.evs([k.value for k in e.keywords], t):
        pairs = []
        for k, v in zip(e.keywords, ks):
          if k.arg is None and v[0] == "dict" and all(x[0] == "c" and x[1] == "str" for x, _ in v[1]):
            pairs.extend((x[2], y) for x, y in v[1])
          else:
            pairs.append((k.arg or "**", v))
        kw = tuple(sorted(pairs, key=lambda x: x[0]))
        out.append((u, tuple(flat), kw))
    return out

  def call(self, c, vs, kw, st, e, recvexpr=None):
    k = c[0]
    if k == "bi":
      return self.builtin(c[1], vs, kw, st, e)
    if k == "fn":
      f = self.prog.by_qual(c[1])
      if f.cls and f.kind == "class":
        vs = (("cls", f.cls.qual),) + vs
      if self.should_inline(f):
        return self.inline_call(f, vs, kw, st, e)
      vs, kw = self.canon_args(f, vs, kw)
      return self.opaque_call("call", f.qual, None, vs, kw, st, e)
    if k == "cls":
      return self.construct(c[1], vs, kw, st, e)
    if k == "lam":
      return self.call_lambda(c, vs, kw, st, e)
    if k == "ext":
      name = c[1]
      if name in self.noreturn:
        self.event(st, "call", name, None, vs, kw, None, e)
        return [(st, ("noreturn",))]
      if name in ("copy.deepcopy", "copy.copy"):
        v = ("call", name, vs, kw)
        self.copied[v] = st.loops
        self.count(st, ("copy", v))
        return [(st, v)]
      if name.startswith("math.") or name in self.pure:
        return [(st, ("call", name, vs, kw))]
      return self.opaque_call("call", name, None, vs, kw, st, e)
    if k == "attr":
      # value of a field being called
      return self.mcall(c[1], c[2], vs, kw, st, e, None)
    self.event(st, "call", "<dynamic>", c, vs, kw, ("call", "<dynamic>", (c,) + vs, kw), e)
    for a in vs:
      self.bump(st, a)
    return [(st, ("call", "<dynamic>", (c,) + vs, kw))]

  def count(self, st, sig):
    n = st.counts.get(sig, 0)
    st.counts[sig] = n + 1
    return n

  def opaque_call(self, kind, name, recv, vs, kw, st, e):
    short = name.split(":")[-1].split(".")[-1]
    pure = name in self.pure or short in self.pure or name in PURE_LIBRARY
    vs, kw = self.close_args(vs, kw, st, e)
    if name == "open":
      vs = open_mode(name, vs)
    sig = ("call", name, vs, kw)
    info = None
    if not pure and ":" in name and name not in self.prog.extra and self.harmless(name):
      pure = True
      info = "pure"
      # (the epoch of a field that was just read is part of its term)
      ep = tuple(sorted((i, self.epoch(st, a)) for i, a in enumerate(vs) if a[0] not in ("c", "poly") and self.epoch(st, a) and not (a[0] in ("attr", "item") and len(a) > 3 and a[3] == self.epoch(st, a))))
      if ep:
        sig = sig + (("ep",) + ep,)
    n = 0 if pure else self.count(st, sig)
    v = sig + ((n,) if n else ())
    self.event(st, kind, name, recv, vs, kw, v, e, info)
    if name in self.noreturn or short in self.noreturn:
      return [(st, ("noreturn",))]
    if not pure:
      fields = None
      if kind == "call" and ":" in name and name not in self.prog.extra:
        g = self.prog.by_qual(name)
        fields = self.prog.effects.mods(g) if g is not None else None
      for a in vs:
        self.bump_call(st, a, fields)
      for _, a in kw:
        self.bump_call(st, a, fields)
    return [(st, v)]

  def canon_args(self, f, vs, kw, skip=0):
    """one form for positional, keyword and defaulted arguments"""
    a = f.node.args
    stars = [i for i, v in enumerate(vs) if v[0] == "star"]
    if len(stars) == 1 and not kw and not (a.vararg or a.kwarg or a.defaults or a.kwonlyargs):
      # the number of unpacked arguments follows from the signature
      n = len(a.posonlyargs + a.args) - skip - (len(vs) - 1)
      if n >= 0:
        i = stars[0]
        x = vs[i][1]
        vs = tuple(vs[:i]) + tuple(x[1][k] if x[0] in ("tuple", "list") and k < len(x[1]) else ("item", x, C(k)) for k in range(n)) + tuple(vs[i + 1:])
    if a.vararg or a.kwarg or any(v[0] == "star" for v in vs) or any(k == "**" for k, _ in kw):
      return vs, kw
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwd = dict(kw)
    if len(vs) > len(pos):
      return vs, kw
    if any(k in pos[:len(vs)] for k in kwd):
      return vs, kw
    allpos = [x.arg for x in a.posonlyargs + a.args]
    dflt = {}
    for n, d in zip(allpos[len(allpos) - len(a.defaults):], a.defaults):
      dflt[n] = d
    for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
      if d is not None:
        dflt[n] = d
    lits = {}
    for n, d in dflt.items():
      try:
        lits[n] = C(ast.literal_eval(d))
      except Exception:
        lits[n] = ("default", f.qual, n)
    given = dict(zip(pos, vs))
    given.update(kwd)
    out = []
    for n in pos:
      if n in given:
        out.append(given.pop(n))
      elif n in lits:
        out.append(lits[n])
      else:
        return vs, kw
    # drop trailing defaults
    while out and pos[len(out) - 1] in lits and out[-1] == lits[pos[len(out) - 1]]:
      out.pop()
    rest = tuple(sorted((k, v) for k, v in given.items() if not (k in lits and lits[k] == v)))
    return tuple(out), rest

  def method_sig(self, b, name, st):
    """the function a method call can reach, if its signature is not ambiguous"""
    cq = self.type_of(b, st)
    if cq:
      return self.prog.find_method(cq, name)
    hits = [f for f in self.prog.methods_named(name) if f.kind == "func"]
    if not hits:
      return None
    def sg(f):
      a = f.node.args
      return ([x.arg for x in a.posonlyargs + a.args][1:], [x.arg for x in a.kwonlyargs],
              [ast.dump(d) for d in a.defaults], bool(a.vararg), bool(a.kwarg))
    if all(sg(f) == sg(hits[0]) for f in hits[1:]):
      return hits[0]
    return None

  def common_order(self, name, vs, kw):
    """keyword arguments that have the same place in every method of that name"""
    sigs = []
    for f in self.prog.methods_named(name):
      a = f.node.args
      if f.kind == "func" and not a.vararg and not a.kwarg:
        sigs.append([x.arg for x in a.posonlyargs + a.args][1:])
    d = dict(kw)
    if not sigs or len(d) != len(kw) or any(v[0] == "star" for v in vs):
      return vs, kw
    out = list(vs)
    while d:
      names = {s[len(out)] if len(out) < len(s) else None for s in sigs}
      n = names.pop()
      if names or n not in d:
        break
      out.append(d.pop(n))
    return tuple(out), tuple((k, v) for k, v in kw if k in d)

  def stored_to(self, name):
    """items of that variable are assigned: what can be sliced and stored to is a list"""
    return any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name
               for n in ast.walk(self.fn().node))

  def items_of(self, v):
    """the argument of a tuple: only its items matter"""
    while v[0] == "call" and v[1] in ("list", "tuple") and len(v[2]) == 1 and not v[3]:
      v = v[2][0]
    if v[0] == "list":
      return ("tuple", v[1])
    if v[0] == "bin" and v[1] == "*" and v[2][0] == "tuple":
      return self.binop(ast.Mult(), ("list", v[2][1]), v[3])
    return v

  def construct(self, cq, vs, kw, st, e):
    init = self.prog.find_method(cq, "__init__")
    if init is not None and not init.qual in self.inline:
      vs, kw = self.canon_args(init, vs, kw, 1)
    if len(vs) == 1 and init is None and self.prog.find_method(cq, "__new__") is None \
        and any(b == "tuple" for k in self.prog.mro(self.prog.cls(cq)) for b in k.bases):
      vs = (self.items_of(vs[0]),)
    sig = ("new", cq, vs, kw)
    n = self.count(st, sig)
    v = sig + (n,)
    if init is not None and self.should_inline(init) and BASELINE is not None and init.qual in self.inline:
      out = []
      for t, r in self.inline_call(init, (v,) + vs, kw, st, e):
        out.append((t, v))
      return out
    c = self.prog.cls(cq)
    self.event(st, "new", cq, None, vs, kw, v, e)
    return [(st, v)]

  def mcall(self, b, name, vs, kw, st, e, recvexpr):
    # repo method?
    cq = self.type_of(b, st)
    f = self.prog.find_method(cq, name) if cq else None
    if f is None and not cq:
      f = self.unique_new_method(name)
    if f is not None and f.kind != "property" and self.should_inline(f):
      if f.kind == "static":
        return self.inline_call(f, vs, kw, st, e)
      if f.kind == "class":
        return self.inline_call(f, (("cls", f.cls.qual),) + vs, kw, st, e)
      return self.inline_call(f, (b,) + vs, kw, st, e)
    if name == "__neg__" and not vs and not kw:
      return [(st, pneg(b))]
    if name in DUNDER and len(vs) == 1 and not kw:
      return self.binop2(DUNDER[name], b, vs[0], st)
    if b[0] == "lam" and name == "__call__":
      return self.call_lambda(b, vs, kw, st, e)
    # field holding a known function value
    if (b, name) in st.heap and st.heap[(b, name)][0] in ("lam", "fn", "bi"):
      return self.call(st.heap[(b, name)], vs, kw, st, e)
    if name == "append" and len(vs) == 1:
      nv = ("append", b, vs[0]) if b[0] != "list" else ("list", b[1] + (vs[0],))
      self.event(st, "call", "append", b, vs, kw, NONE, e)
      if recvexpr is None or not self.mutate_place(recvexpr, b, st, nv):
        self.bump(st, b)
      return [(st, NONE)]
    if name == "extend" and len(vs) == 1:
      nv = self.binop(ast.Add(), b, vs[0]) if is_seq(b) or is_seq(vs[0]) else ("concat", b, vs[0])
      self.event(st, "call", "extend", b, vs, kw, NONE, e)
      if recvexpr is None or not self.mutate_place(recvexpr, b, st, nv):
        self.bump(st, b)
      return [(st, NONE)]
    if name == "pop" and not vs and not kw and recvexpr is not None and b[0] == "item" and b[2][0] != "slice":
      # the last element, taken out
      v = self.getitem(b, C(-1), st)
      self.event(st, "delitem", "del", b, (C(-1),), node=e)
      self.mutate_place(recvexpr, b, st, ("mut", "del", b, (C(-1),)))
      return [(st, v)]
    if name in ("sort", "reverse") and not vs and recvexpr is not None and _own_list(b) and (name == "sort" or not kw):
      if name == "sort":
        nv = self.builtin("sorted", (b,), kw, st, e)[0][1]
      else:
        nv = _reverse(b)
      if isinstance(recvexpr, ast.Name):
        st.env[recvexpr.id] = nv
        return [(st, NONE)]
      if self.mutate_place(recvexpr, b, st, nv):
        return [(st, NONE)]
    if name == "get" and 1 <= len(vs) <= 2 and not kw and _cases(b):
      return self.lookup_case(b, vs[0], st, vs[1] if len(vs) == 2 else NONE)
    if name == "get" and len(vs) == 1 and not kw and b[0] == "attr" and b[2] in NOTNULL:
      at = self.compare(ast.In(), vs[0], b)
      return [(t, self.getitem(b, vs[0], t) if y else NONE) for t, y in self.split(st, at)]
    if name == "format" and b[0] == "c" and b[1] == "str":
      r = braces(b[2], vs, kw)
      if r is not None:
        return [(st, r)]
    if name == "join" and b[0] == "c" and b[1] == "str" and len(vs) == 1 and not kw and vs[0][0] in ("list", "tuple"):
      ps = []
      for i, x in enumerate(vs[0][1]):
        ps += ([b] if i else []) + pieces(x)
      return [(st, mkstr(ps))]
    short = name
    pure = short in PURE_METHODS or short in self.pure
    info = None
    if not pure and not (self.prints and self.shows(f, name)) and (self.prog.effects.harmless(f) if f is not None else self.prog.effects.named(name)):
      pure = True
      info = "pure"
    if name not in PURE_METHODS and name not in MUTATORS:
      ms = self.method_sig(b, name, st)
      if ms is not None and ms.kind == "func":
        vs, kw = self.canon_args(ms, vs, kw, 1)
      elif ms is None and kw:
        vs, kw = self.common_order(name, vs, kw)
    if name == "seek" and len(vs) == 2 and vs[1] == C(0) and not kw:
      vs = vs[:1]
    ep = self.epoch(st, b)
    sig = ("mcall", name, b, vs, kw)
    if pure:
      v = sig + ((ep,) if ep else ())
      if name not in ("copy", "get", "keys", "items", "values", "format", "join", "split"):
        self.event(st, "call", name, b, vs, kw, v, e, info)
      elif name == "copy":
        self.event(st, "call", name, b, vs, kw, v, e)
      return [(st, v)]
    n = self.count(st, sig)
    v = sig + ((n,) if n else ())
    self.event(st, "call", name, b, vs, kw, v, e)
    if name in self.noreturn:
      return [(st, ("noreturn",))]
    if recvexpr is not None and b[0] in FRESH and name in MUTATORS:
      self.mutate_place(recvexpr, b, st, ("mut", name, b, vs))
      return [(st, v)]
    fields = None
    if name not in MUTATORS:
      fields = self.prog.effects.mods(f) if f is not None else self.prog.effects.mods_named(name)
    self.bump_call(st, b, fields)
    if name not in MUTATORS:
      for a in vs:
        self.bump_call(st, a, fields)
      for _, a in kw:
        self.bump_call(st, a, fields)
    return [(st, v)]

  def unique_new_method(self, name):
    if BASELINE is None:
      return None
    hits = self.prog.methods_named(name)
    if len(hits) == 1 and hits[0].qual not in BASELINE:
      return hits[0]
    # overridden in a hierarchy, all new: ambiguous
    return None

  def bind(self, f, vs, kw, st):
    node = f.node if hasattr(f, "node") else f
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    rest = list(vs)
    if any(v[0] == "star" for v in vs):
      return None
    for n in pos:
      if rest:
        env[n] = rest.pop(0)
    if a.vararg:
      env[a.vararg.arg] = ("tuple", tuple(rest))
      rest = []
    if rest:
      return None
    kwd = dict(kw)
    for k, v in list(kwd.items()):
      if k in pos or k in [x.arg for x in a.kwonlyargs]:
        env[k] = v
        del kwd[k]
    if kwd:
      if "**" in kwd or a.kwarg is None:
        return None
    if a.kwarg:
      env[a.kwarg.arg] = ("dict", tuple((C(k), v) for k, v in sorted(kwd.items())))
    defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for n in pos + [x.arg for x in a.kwonlyargs]:
      if n not in env:
        if n not in defaults:
          return None
        v = self.const_expr(f.module, defaults[n]) if hasattr(f, "module") else None
        if v is None and isinstance(defaults[n], ast.Constant):
          v = C(defaults[n].value)
        if v is None:
          if isinstance(defaults[n], (ast.List, ast.Dict)) and not (getattr(defaults[n], "elts", None) or getattr(defaults[n], "keys", None)):
            v = ("list" if isinstance(defaults[n], ast.List) else "dict", ())
          else:
            v = ("default", f.qual if hasattr(f, "qual") else "?", n)
        env[n] = v
    return env

  def inline_call(self, f, vs, kw, st, e):
    env = self.bind(f, vs, kw, st)
    if env is None:
      return self.opaque_call("call", f.qual, None, vs, kw, st, e)
    self.inlined.add(f.qual)
    outer = st.env
    callee = st
    self.frame = getattr(self, "frame", 0) + 1
    env["#frame"] = ("c", "int", len(self.stack))
    callee.env = env
    # which params may be mutated in place and need write-back
    wb = {}
    if isinstance(e, ast.Call):
      params = f.params()
      off = len(vs) - len(e.args)
      for i, a in enumerate(e.args):
        if 0 <= i + off < len(params) and isinstance(a, (ast.Name, ast.Attribute)):
          if vs[i + off][0] in FRESH and not _rebinds(f.node, params[i + off]):
            wb[params[i + off]] = a
      for k in e.keywords:
        if k.arg and isinstance(k.value, ast.Name) and not _rebinds(f.node, k.arg):
          v = dict(kw).get(k.arg)
          if v is not None and v[0] in FRESH:
            wb[k.arg] = k.value
    self.stack.append(f)
    res = self.block(f.node.body, callee)
    self.stack.pop()
    out = []
    for t, sig in res:
      cenv = t.env
      t.env = dict(outer)
      for p, a in wb.items():
        if p in cenv and cenv[p] != env.get(p) and isinstance(a, ast.Name):
          t.env[a.id] = cenv[p]
        elif p in cenv and cenv[p] != env.get(p) and isinstance(a, ast.Attribute):
          r = self.ev(a.value, t)
          if len(r) == 1:
            t.heap[(r[0][1], a.attr)] = cenv[p]
      if sig is None:
        out.append((t, NONE))
      elif sig[0] == "return":
        out.append((t, sig[1]))
      elif sig[0] == "raise":
        out.append((t, ("#raise", sig[1], sig[2] if len(sig) > 2 else None)))
      else:
        raise AnalysisError("bad signal")
    # raising results: surface through noreturn mechanism
    final = []
    for t, v in out:
      if v[0] == "#raise":
        self.raised(t, v, e)
      else:
        final.append((t, v))
    return final

  def raised(self, st, v, e):
    """an inlined helper raises on this path"""
    if self.trys:
      self.trys[-1].append(st.copy())
    else:
      if not hasattr(self, "raises"):
        self.raises = []
      self.raises.append((st, v[1], e))

  def closed(self, v, st, e):
    """a function value as the terms of its results, one per case"""
    if v[0] == "lam":
      node = self.lams[v[1][0]][0]
      a = node.args
    elif v[0] == "fn":
      f = self.prog.func(v[1], required=False) or self.prog.extra.get(v[1])
      if f is None or f.is_generator or not self.should_inline(f):
        return v
      a = f.node.args
    else:
      return v
    if a.vararg or a.kwarg or a.kwonlyargs or getattr(self, "closing", 0) > 2:
      return v
    n = len(a.posonlyargs + a.args) - len(a.defaults)
    self.closing = getattr(self, "closing", 0) + 1
    try:
      t = st.copy()
      nc, ne = len(t.conds), len(t.events)
      args = tuple(("sym", "#%d.%d" % (self.closing, i)) for i in range(n))
      keep = list(getattr(self, "raises", []))
      res = self.call(v, args, (), t, e)
      self.raises = keep
      alts = []
      for u, x in res:
        if any(k.kind in ("loop", "setattr", "setitem", "loopbreak", "loopret", "loopexc") or k.kind == "call" and not k.pure and not k.pure for k in u.events[ne:]):
          return v
        alts.append((tuple(sorted(u.conds[nc:], key=repr)), x))
      return ("closure", n, tuple(sorted(alts, key=repr)))
    finally:
      self.closing -= 1

  def close_args(self, vs, kw, st, e):
    if any(x[0] in ("lam", "fn") for x in vs) or any(x[1][0] in ("lam", "fn") for x in kw):
      vs = tuple(self.closed(x, st, e) for x in vs)
      kw = tuple((k, self.closed(x, st, e)) for k, x in kw)
    return vs, kw

  def call_lambda(self, c, vs, kw, st, e):
    kid, captured = c[1]
    node, fn = self.lams[kid]
    if len(self.stack) > self.depth + 3:
      return [(st, ("call", "<lambda>", vs, kw))]

    class F:
      pass
    f = F()
    f.node = node
    f.module = fn.module
    f.qual = fn.qual + ".<lambda>"
    f.cls = fn.cls
    f.name = getattr(node, "name", "<lambda>")
    f.is_generator = False
    f.loc = fn.loc
    f.params = lambda: [x.arg for x in node.args.posonlyargs + node.args.args]
    if any(getattr(g, "node", None) is node for g in self.stack):
      return self.opaque_call("call", f.qual, None, vs, kw, st, e)
    env = self.bind(f, vs, kw, st)
    if env is None:
      return self.opaque_call("call", f.qual, None, vs, kw, st, e)
    outer = st.env
    full = dict(captured)
    # closures see the current values of the enclosing frame when still active
    if fn is self.stack[-1] or fn.qual == self.stack[-1].qual:
      full.update({k: v for k, v in outer.items()})
    full.update(env)
    st.env = full
    self.stack.append(f)
    if isinstance(node, ast.Lambda):
      res = [(t, ("return", v)) for t, v in self.ev(node.body, st)]
    else:
      res = self.block(node.body, st)
    self.stack.pop()
    nl = set()
    if not isinstance(node, ast.Lambda):
      for n in walk_own(node):
        if isinstance(n, ast.Nonlocal):
          nl.update(n.names)
    out = []
    mutated_ok = {x for x in outer if x not in env and not isinstance(node, ast.Lambda) and x not in {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}}
    for t, sig in res:
      cenv = t.env
      t.env = dict(outer)
      for n in nl | mutated_ok:
        if n in cenv and (n in outer):
          t.env[n] = cenv[n]
      if sig is None:
        out.append((t, NONE))
      elif sig[0] == "return":
        out.append((t, sig[1]))
      elif sig[0] == "raise":
        self.raised(t, ("#raise", sig[1], None), e)
    return out

  def builtin(self, name, vs, kw, st, e):
    vs, kw = self.close_args(vs, kw, st, e)
    if name == "print" and self.prints:
      ps = [p[1] if p[0] == "fmt" else p for v in vs for p in pieces(v) if p[0] != "c"]
      ps = tuple(p for p in ps if not any(x[0] == "call" and str(x[1]).startswith("time.") for x in subterms(p)))
      if ps:
        self.event(st, "call", "show values", None, ps, (), NONE, e)
      return [(st, NONE)]
    if name in self.noreturn:
      self.event(st, "call", name, None, vs, kw, None, e)
      return [(st, ("noreturn",))]
    if name == "bool" and len(vs) == 1:
      a, p = truth(vs[0])
      return [(st, C(a == p) if a in (True, False) else ("lit", a, p))]
    if name == "isinstance" and len(vs) == 2:
      cls = vs[1]
      if vs[0][0] == "c" and cls[0] == "bi":
        return [(st, C(vs[0][1] == cls[1] or (vs[0][1] == "bool" and cls[1] == "int")))]
      if vs[0][0] == "new" and cls[0] == "cls":
        return [(st, C(any(k.qual == cls[1] for k in self.prog.mro(self.prog.cls(vs[0][1])))))]
      return [(st, ("lit", ("isinst", vs[0], cls), True))]
    if name in ("list", "tuple", "set", "sorted", "len", "enumerate", "iter", "frozenset", "min", "max") and vs and vs[0][0] == "mcall" and vs[0][1] == "keys" and not vs[0][3]:
      vs = (vs[0][2],) + tuple(vs[1:])
    if name == "map" and len(vs) == 2 and not kw:
      r = self.mapped(vs[0], vs[1], st, e)
      if r is not None:
        return r
    if name == "setattr" and len(vs) == 3 and vs[1][0] == "c" and vs[1][1] == "str" and not kw:
      tgt = ast.copy_location(ast.Attribute(ast.Constant(0), vs[1][2], ast.Store()), e)
      self.heapset(st, (vs[0], vs[1][2]), vs[2])
      self.event(st, "setattr", vs[1][2], vs[0], value=vs[2], node=tgt)
      return [(st, NONE)]
    if name == "getattr" and len(vs) == 2 and vs[1][0] != "c":
      for a, pol in ((l[0], l[1]) for l in st.conds):
        if pol and a[0] == "eq" and vs[1] in a[1:3]:
          o = a[2] if a[1] == vs[1] else a[1]
          if o[0] == "c" and o[1] == "str":
            vs = (vs[0], o)
    if name == "getattr" and len(vs) == 2 and vs[1][0] == "c" and vs[1][1] == "str" and not kw:
      r = self.getattr(vs[0], vs[1][2], st, e)
      if r[0] != "#prop":
        return [(st, r)]
    if name == "divmod" and len(vs) == 2 and not kw:
      return [(st, ("tuple", (self.binop(ast.FloorDiv(), *vs), self.binop(ast.Mod(), *vs))))]
    if name == "len" and len(vs) == 1:
      v = vs[0]
      if v[0] == "concat":
        return [(st, padd(self.builtin(name, (v[1],), (), st, e)[0][1], self.builtin(name, (v[2],), (), st, e)[0][1]))]
      if v[0] in ("list", "tuple"):
        return [(st, C(len(v[1])))]
      if v[0] == "append":
        return [(st, padd(self.builtin("len", (v[1],), (), st, e)[0][1], ONE))]
      if v[0] == "call" and v[1] in ("list", "tuple", "sorted") and len(v[2]) == 1:
        return self.builtin("len", (v[2][0],), (), st, e)
      if v[0] == "store" and v[1][0] in ("list", "comp", "store", "lv", "bin"):
        return self.builtin("len", (v[1],), (), st, e)
      if v[0] == "comp" and v[1] == "list":
        return [(st, sum_of(("comp", "list", v[2], tuple((a[0], tuple(x if x[0] == "nested" else ONE for x in a[1])) for a in v[3])), True))]
      ep = self.epoch(st, v)
      t = ("call", "len", (v,), ())
      if ep:
        t = ("call", "len", (("@", v, ep),), ())
      return [(st, t)]
    if name in ("min", "max"):
      items = []
      src = vs[0][1] if len(vs) == 1 and vs[0][0] in ("list", "tuple") else vs
      if not kw and (len(vs) > 1 or src is not vs):
        for x in src:
          if x[0] == "call" and x[1] == name and not x[3] and len(x[2]) > 1:
            items.extend(x[2])
          else:
            items.append(x)
        items = sorted(set(items), key=key)
        ints = [x for x in items if is_int(x)]
        if len(ints) > 1:
          best = (min if name == "min" else max)(x[2] for x in ints)
          items = [x for x in items if not is_int(x)] + [C(best)]
          items.sort(key=key)
        if len(items) == 1:
          return [(st, items[0])]
        return [(st, ("call", name, tuple(items), ()))]
      return [(st, ("call", name, vs, kw))]
    if name == "list" and len(vs) == 1 and vs[0][0] == "call" and vs[0][1] == "reversed" and len(vs[0][2]) == 1 and _own_list(vs[0][2][0]):
      return [(st, _reverse(vs[0][2][0]))]
    if name == "list" and len(vs) == 1 and vs[0][0] in ("list", "comp", "tuple"):
      return [(st, ("list", vs[0][1]) if vs[0][0] != "comp" else vs[0])]
    if name == "list" and not vs:
      return [(st, ("list", ()))]
    if name == "tuple" and len(vs) == 1 and vs[0][0] in ("list", "tuple"):
      return [(st, ("tuple", vs[0][1]))]
    if name == "dict" and not vs and not kw:
      return [(st, ("dict", ()))]
    if name == "set" and not vs:
      return [(st, ("set", ()))]
    if name == "int" and len(vs) == 1 and (is_int(vs[0])):
      return [(st, vs[0])]
    if name == "int" and len(vs) == 1 and vs[0][0] == "item" and vs[0][1][0] == "sym" and vs[0][2][0] != "slice" and not kw:
      # an element of a bytes parameter
      for a in self.fn().node.args.args:
        if a.arg == vs[0][1][1] and isinstance(a.annotation, ast.Name) and a.annotation.id in ("bytes", "bytearray"):
          return [(st, vs[0])]
    if name == "int" and len(vs) == 1 and vs[0][0] == "lit" and not kw:
      return [(t, ONE if b else ZERO) for t, b in self.split(st, vs[0])]
    if name == "abs" and len(vs) == 1 and is_int(vs[0]):
      return [(st, C(abs(vs[0][2])))]
    if name in ("any", "all") and len(vs) == 1 and vs[0][0] in ("list", "tuple"):
      cur = [(st, name == "all")]
      for x in vs[0][1]:
        nxt = []
        for t, b in cur:
          if b != (name == "all"):
            nxt.append((t, b))
          else:
            nxt.extend(self.split(t, x))
        cur = nxt
      return [(t, C(b)) for t, b in cur]
    if name in ("any", "all") and len(vs) == 1 and vs[0][0] == "concat":
      out = []
      for t, v in self.builtin(name, (vs[0][1],), (), st, e):
        for u, b in self.split(t, v):
          if b == (name == "any"):
            out.append((u, C(b)))
          else:
            out.extend(self.builtin(name, (vs[0][2],), (), u, e))
      return out
    if name in ("any", "all") and len(vs) == 1:
      v = vs[0]
      if v[0] == "comp" and v[1] in ("list", "gen", "set"):
        a, p = any_atom(v, name == "all")
        if a is True or a is False:
          return [(st, C((a == p) == (name == "any")))]
        return [(st, ("lit", a, p == (name == "any")))]
      return [(st, ("lit", (name, v), True))]
    if name in ("sum", "len") and len(vs) == 1 and vs[0][0] == "concat" and not kw:
      return [(st, padd(self.builtin(name, (vs[0][1],), (), st, e)[0][1], self.builtin(name, (vs[0][2],), (), st, e)[0][1]))]
    if name == "sum" and len(vs) in (1, 2) and vs[0][0] == "comp" and vs[0][1] == "list" and not kw:
      t = sum_of(vs[0])
      return [(st, padd(t, vs[1]) if len(vs) == 2 else t)]
    if name == "sum" and len(vs) == 1 and vs[0][0] in ("list", "tuple"):
      r = ZERO
      for x in vs[0][1]:
        r = padd(r, x)
      return [(st, r)]
    if name in PURE_BUILTINS:
      ev_args = tuple(("@", v, self.epoch(st, v)) if name in ("list", "tuple", "dict", "set", "sorted") and self.epoch(st, v) else v for v in vs)
      return [(st, ("call", name, ev_args, kw))]
    if name and name[0].isupper():
      # builtin exception classes
      return [(st, ("exc", name))]
    return self.opaque_call("call", name, None, vs, kw, st, e)


# --- helpers ---------------------------------------------------------------------

BACK = ("slice", NONE, NONE, C(-1))
ALL = ("slice", NONE, NONE, NONE)

def _own_list(b):
  """a list made by this very expression"""
  return b[0] in ("list", "append", "concat", "lv", "mut", "store") or b[0] == "comp" and b[1] == "list" \
    or b[0] == "call" and b[1] in ("list", "sorted") or b[0] == "item" and b[2][0] == "slice"

def _reverse(b):
  if b[0] == "list" and not any(x[0] == "star" for x in b[1]):
    return ("list", b[1][::-1])
  if b[0] == "call" and b[1] == "list" and len(b[2]) == 1 and not b[3]:
    x = b[2][0]
    if x[0] == "call" and x[1] == "reversed":
      return ("call", "list", x[2], ())
    return ("call", "list", (("call", "reversed", (x,), ()),), ())
  return ("item", b, BACK)

def _cases(b):
  return b[0] == "dict" and 0 < len(b[1]) <= 8 and all(k[0] == "c" for k, _ in b[1]) and len({k for k, _ in b[1]}) == len(b[1])

EXTCONST = {"io.SEEK_SET": 0, "io.SEEK_CUR": 1, "io.SEEK_END": 2, "os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2}

def _within(y, lid):
  """a symbol of a loop inside the loop lid"""
  if y[0] not in ("idx", "lv", "last") or not isinstance(y[1], str) or y[1][:1] != lid[:1]:
    return False
  a, b = y[1][1:], lid[1:]
  return a.isdigit() and b.isdigit() and int(a) > int(b)


def _pair(ap):
  return ap


def _num(t):
  if t[0] == "c":
    return t[1] in ("int", "bool")
  return not is_seq(t)


def _distinct(a, b):
  if a == b:
    return False
  if a[0] == "c" and b[0] == "c":
    return True
  if a[0] in ("c", "poly", "idx", "sym", "lv") and b[0] in ("c", "poly", "idx", "sym", "lv"):
    d = psub(a, b) if _num(a) and _num(b) else None
    if d is not None and is_int(d) and d[2] != 0:
      return True
  return False


def _as_load(t):
  if isinstance(t, ast.Name):
    return ast.Name(id=t.id, ctx=ast.Load())
  if isinstance(t, ast.Attribute):
    n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return ast.copy_location(n, t)
  if isinstance(t, ast.Subscript):
    n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return ast.copy_location(n, t)
  return t


def _handler_names(h):
  if h.type is None:
    return []
  if isinstance(h.type, ast.Tuple):
    return [ast.unparse(x) for x in h.type.elts]
  return [ast.unparse(h.type)]


def assigned_names(loop):
  """local names (re)bound or mutated in place in the loop"""
  out = []

  def add(n):
    if n not in out:
      out.append(n)

  inner = set()       # variables of comprehensions live in a scope of their own
  for s in loop.body:
    for n in ast.walk(s):
      if isinstance(n, ast.comprehension):
        inner.update(id(x) for x in ast.walk(n.target))
  for s in loop.body + ([] if isinstance(loop, ast.While) else []):
    for n in [s] + list(walk_own(s)):
      if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        if id(n) not in inner:
          add(n.id)
      elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        b = n.func.value
        while isinstance(b, ast.Subscript):
          b = b.value
        if isinstance(b, ast.Name):
          add(b.id)
      elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
        b = n
        while isinstance(b, ast.Subscript):
          b = b.value
        if isinstance(b, ast.Name):
          add(b.id)
      elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
        add(n.target.id)
  if isinstance(loop, ast.While):
    for n in ast.walk(loop.test):
      if isinstance(n, ast.NamedExpr):
        add(n.target.id)
  else:
    for n in ast.walk(loop.target):
      if isinstance(n, ast.Name):
        add(n.id)
  return out


def _loop_target_names(loop):
  if isinstance(loop, ast.While):
    return set()
  return {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}


def _rebinds(fnode, name):
  for n in walk_own(fnode):
    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
      return True
  return False


def _assigned_in_class(c, name):
  for f in c.methods.values():
    for n in ast.walk(f.node):
      if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
        return True
  return False


def _range_bounds(it):
  return None


def _iter_count(it):
  if it[0] == "call" and it[1] == "range":
    a = it[2]
    if len(a) == 1:
      return ("call", "max0", (a[0],), ()) if not is_int(a[0]) and False else a[0]
    if len(a) == 2:
      return psub(a[1], a[0])
    return ("count", it)
  if it[0] == "call" and it[1] == "enumerate":
    return _iter_count(it[2][0])
  return ("call", "len", (it,), ())


def _bind(t, lid):
  """abstract the index of loop/comprehension lid: idx lid -> bound 0, shifting
  already bound indices."""
  def go(x):
    if not isinstance(x, tuple):
      return x
    if x == ("idx", lid):
      return ("idx", "#0")
    if len(x) == 2 and x[0] == "idx" and isinstance(x[1], str) and x[1].startswith("#"):
      return ("idx", "#%d" % (int(x[1][1:]) + 1))
    r = tuple(go(y) for y in x)
    return _renorm(r) if r != x else x
  return go(t)


def _unbind(t, lid):
  def go(x):
    if not isinstance(x, tuple):
      return x
    if x == ("idx", "#0"):
      return ("idx", lid)
    if len(x) == 2 and x[0] == "idx" and isinstance(x[1], str) and x[1].startswith("#"):
      return ("idx", "#%d" % (int(x[1][1:]) - 1))
    r = tuple(go(y) for y in x)
    return _renorm(r) if r != x else x
  return go(t)


def _renorm(r):
  if r and r[0] == "poly":
    p = ZERO
    for mono, c in r[1]:
      term = C(c)
      for f in mono:
        term = pmul(term, f)
      p = padd(p, term)
    return p
  return r


def _has_deeper(t):
  for x in subterms(t):
    if x[0] == "idx" and isinstance(x[1], str) and x[1].startswith("#") and x[1] != "#0":
      return True
    if x is not t and x[0] == "comp":
      return True
  return False


def norm_iter(it):
  """iterations with the same number of rounds look alike"""
  if it[0] == "call" and it[1] == "range" and len(it[2]) == 2 and it[2][0] == ZERO:
    it = ("call", "range", (it[2][1],), it[3])
  if it[0] == "call" and it[1] == "range" and len(it[2]) == 1:
    x = len_arg(it[2][0])
    if x is not None:
      return norm_iter(x)
    return it
  if it[0] == "call" and it[1] in ("enumerate", "list", "tuple", "iter", "reversed", "frozenset") and len(it[2]) >= 1:
    return norm_iter(it[2][0])
  if it[0] == "mcall" and it[1] in ("items", "keys", "values") and not it[3]:
    return norm_iter(it[2])
  if it[0] == "@":
    return norm_iter(it[1])
  if it[0] == "item" and it[1][0] == "comp" and it[1][1] == "list" and len(it[1][3]) == 1 and not it[1][3][0][0] and len(it[1][3][0][1]) == 1:
    e = _unbind(it[1][3][0][1][0], it[2][1]) if it[2][0] == "idx" else NONE
    if e[0] == "comp":
      return norm_iter(e)
  if it[0] == "comp" and it[1] == "list" and len(it[3]) == 1 and not it[3][0][0] and len(it[3][0][1]) == 1 and it[3][0][1][0][0] != "nested":
    return norm_iter(it[2])
  if it[0] == "item" and it[1] == ("sym", "TTable") and it[2] != ZERO:
    # the rows of a transition table have one length
    return ("item", it[1], ZERO)
  return it


def _target_names(t):
  return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


ROTATED = {}


def _own_jump(body, kind):
  """a break/continue in `body` that belongs to the enclosing loop"""
  for s in body:
    if isinstance(s, kind):
      return True
    if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
      if _own_jump(getattr(s, "orelse", []), kind):
        return True
      continue
    for f in ("body", "orelse", "finalbody"):
      if _own_jump(getattr(s, f, []) or [], kind):
        return True
    for h in getattr(s, "handlers", []):
      if _own_jump(h.body, kind):
        return True
  return False


def _first_walrus(e):
  """the assignment expression evaluated first of all in `e`, if any"""
  while True:
    if isinstance(e, ast.NamedExpr):
      return e
    if isinstance(e, ast.UnaryOp):
      e = e.operand
    elif isinstance(e, ast.Compare):
      e = e.left
    elif isinstance(e, ast.BinOp):
      e = e.left
    elif isinstance(e, ast.BoolOp):
      e = e.values[0]
    elif isinstance(e, (ast.Attribute, ast.Subscript)):
      e = e.value
    else:
      return None


class _Again(ast.NodeTransformer):
  """repeat `lead` before every continue of the loop"""
  def __init__(self, lead):
    self.lead = lead

  def visit_Continue(self, n):
    return list(self.lead) + [n]

  def skip(self, n):
    return n

  visit_For = visit_While = visit_FunctionDef = visit_ClassDef = visit_Lambda = skip


def _top(s, lead, test, body, after=()):
  """while True: lead; if not test: break; body  is  lead; while test: body; lead"""
  body = list(body)
  if _own_jump(body, ast.Continue):
    body = [x for b in body for x in _listed(_Again(lead).visit(copy.deepcopy(b)))]
  new = ast.While(test, body + list(lead), [])
  ast.copy_location(new, s)
  return list(lead) + [ast.fix_missing_locations(new)] + list(after)


def _listed(x):
  return x if isinstance(x, list) else [x]


def _firsts(s):
  """variables that every iteration of loop s sets before anything reads them"""
  first = {}
  if isinstance(s, ast.While):
    for n in ast.walk(s.test):
      if isinstance(n, ast.Name):
        first[n.id] = False
  for b in s.body:
    here = {}
    for n in ast.walk(b):
      if isinstance(n, ast.Name):
        here.setdefault(n.id, []).append(n)
    inner = None
    for k, ns in here.items():
      if k in first:
        continue
      if isinstance(b, ast.Assign):
        first[k] = all(isinstance(n.ctx, ast.Store) for n in ns)
      elif isinstance(b, (ast.For, ast.While)):
        t = {n.id for n in ast.walk(b.target) if isinstance(n, ast.Name)} if isinstance(b, ast.For) else ()
        if k in t:
          first[k] = not any(isinstance(n, ast.Name) and n.id == k for n in ast.walk(b.iter)) and not any(
            isinstance(n, ast.Name) and n.id == k for o in s.body if o is not b for n in ast.walk(o))
        else:
          if inner is None:
            inner = _firsts(b)
          first[k] = k in inner and not any(isinstance(n, ast.Name) and n.id == k for o in s.body if o is not b for n in ast.walk(o))
      else:
        first[k] = False
  return {k for k, v in first.items() if v}


PLAIN = [False]    # plain function calls at the head of a loop are no reason to rotate it


_PURE_CALLS = {"len", "isinstance", "int", "str", "abs", "min", "max", "bool", "tuple", "sum", "any", "all"}


def _acts(x):
  """x may do more than compute a value"""
  return any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and (n.func.id in _PURE_CALLS or PLAIN[0])) or isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr))
             for n in ast.walk(x))


class _Put(ast.NodeTransformer):
  def __init__(self, name, make):
    self.name, self.make = name, make

  def visit_Name(self, n):
    return self.make(n) if n.id == self.name else n


class _Subst(ast.NodeTransformer):
  def __init__(self, name, value):
    self.name, self.value = name, value

  def visit_Name(self, n):
    return copy.deepcopy(self.value) if n.id == self.name and isinstance(n.ctx, ast.Load) else n


def _leading(s):
  """lead, test, body of `while True: lead; if stop: break; body`"""
  if not (isinstance(s.test, ast.Constant) and s.test.value and not s.orelse):
    return None
  for k, x in enumerate(s.body[:4]):
    if isinstance(x, ast.If):
      test, stop, go = ast.UnaryOp(ast.Not(), x.test), x.body, x.orelse
      if not isinstance(stop[-1], (ast.Break, ast.Return)) and go and isinstance(go[-1], (ast.Break, ast.Return)):
        test, stop, go = x.test, go, stop
      if not isinstance(stop[-1], (ast.Break, ast.Return)):
        return None
      rest = list(go) + list(s.body[k + 1:])
      if not rest or len(stop) > 1 or isinstance(stop[0], ast.Return) and _own_jump(rest, ast.Break):
        return None
      after = [stop[0]] if isinstance(stop[0], ast.Return) else []
      lead = [y for y in s.body[:k] if not isinstance(y, ast.Pass)]
      temps = []
      while lead and not _acts(lead[-1]):
        y = lead.pop()
        test = _Subst(y.targets[0].id, y.value).visit(copy.deepcopy(test))
        temps.insert(0, y)
      if not any(_acts(y) for y in lead):
        return None
      return lead, ast.copy_location(test, x.test), temps + rest, temps + after
    if not (isinstance(x, ast.Pass) or isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)):
      return None
  return None


def rotate(stmts):
  """`while True: S; if not c: break; B`, `while (x := e): B`, `for x in iter(f, v): B` in the form `S; while c: B; S`"""
  if not any(isinstance(s, (ast.While, ast.For)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom)) or _default_append(s) for s in stmts):
    return stmts
  key = (PLAIN[0],) + tuple(id(s) for s in stmts)
  if key in ROTATED:
    return ROTATED[key][0]
  out = []
  for s in stmts:
    new = [s]
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and _sentinel(s.value.value):
      v = "$sentinel"
      b = ast.copy_location(ast.Expr(ast.Yield(ast.Name(v, ast.Load()))), s)
      new = _until(s, ast.Name(v, ast.Store()), s.value.value, [b])
    elif isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and _sentinel(s.iter):
      new = _until(s, s.target, s.iter, s.body)
    elif _default_append(s):
      new = [_default_append(s)]
    elif isinstance(s, ast.While) and not s.orelse:
      w = _first_walrus(s.test)
      if w is not None:
        test = _replaced(s.test, w)
        lead = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(w.target.id, ast.Store()), w)], w.value), w)
        new = _top(s, [lead], test, s.body)
      else:
        r = _leading(s)
        if r is not None:
          new = _top(s, *r)
    out.extend(new)
  ROTATED[key] = (out, stmts)
  return out


def _replaced(test, w):
  """`test` with the assignment expression `w` read as its variable"""
  if test is w:
    return ast.copy_location(ast.Name(w.target.id, ast.Load()), w)
  new = copy.copy(test)
  if isinstance(test, ast.UnaryOp):
    new.operand = _replaced(test.operand, w)
  elif isinstance(test, (ast.Compare, ast.BinOp)):
    new.left = _replaced(test.left, w)
  elif isinstance(test, ast.BoolOp):
    new.values = [_replaced(test.values[0], w)] + list(test.values[1:])
  else:
    new.value = _replaced(test.value, w)
  return new


def _default_append(s):
  """`d.setdefault(k, []).append(x)` with its two cases written out"""
  if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)):
    return None
  f = s.value.func
  c = f.value
  if not (f.attr in ("append", "extend", "add", "update") and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "setdefault" and len(c.args) == 2 and not c.keywords):
    return None
  d, k = c.func.value, c.args[0]
  if any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Yield)) for x in (d, k) for n in ast.walk(x)):
    return None
  place = ast.Subscript(d, k, ast.Load())
  put = ast.Assign([ast.Subscript(d, k, ast.Store())], c.args[1])
  new = ast.Expr(ast.Call(ast.Attribute(place, f.attr, ast.Load()), s.value.args, s.value.keywords))
  r = ast.If(ast.Compare(k, [ast.NotIn()], [d]), [put], [])
  out = ast.If(ast.Constant(True), [r, new], [])
  for n in ast.walk(out):
    if not hasattr(n, "lineno"):
      ast.copy_location(n, s)
  return ast.fix_missing_locations(out)


def _sentinel(e):
  return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "iter" and len(e.args) == 2 and not e.keywords and isinstance(e.args[1], ast.Constant)


def _until(s, target, it, body):
  call = ast.copy_location(ast.Call(it.args[0], [], []), s)
  lead = ast.copy_location(ast.Assign([target], call), s)
  v = it.args[1]
  op = ast.IsNot() if v.value is None else ast.NotEq()
  test = ast.copy_location(ast.Compare(ast.Name(target.id, ast.Load()), [op], [v]), s)
  return _top(s, [lead], test, body)


def lit_of(v, pol):
  """a truth value or its negation"""
  if pol:
    return v
  if v[0] == "c":
    return C(not v[2])
  return ("lit", v[1], not v[2])


def open_mode(name, vs):
  """text mode is what open() does anyway"""
  if name == "open" and len(vs) > 1 and vs[1][0] == "c" and vs[1][1] == "str":
    vs = (vs[0], C(vs[1][2].replace("t", ""))) + tuple(vs[2:])
    if len(vs) == 2 and vs[1] == C("r"):
      vs = vs[:1]
  return vs


HEADS = {}


def head_test(s):
  """`while True: if c: break; ...` is `while not c: ...`"""
  if id(s) in HEADS:
    return HEADS[id(s)][0]
  n, body = s.test, s.body
  conj = []
  if not s.orelse:
    while body and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break) and len(body) > 1:
      conj.append(ast.copy_location(ast.UnaryOp(ast.Not(), body[0].test), body[0].test))
      body = body[0].orelse + body[1:]
  if not conj:
    r = s
  else:
    if not (isinstance(n, ast.Constant) and n.value):
      conj.insert(0, n)
    t = conj[0] if len(conj) == 1 else ast.BoolOp(ast.And(), conj)
    r = ast.fix_missing_locations(ast.copy_location(ast.While(t, body, []), s))
  HEADS[id(s)] = (r, s)
  return r


def _split_concat(v):
  """a comprehension over two sequences one after the other"""
  it = v[2]
  if v[1] == "list" and it[0] == "poly" and len(it[1]) > 1 and all(c == 1 and len(mono) == 1 for mono, c in it[1]):
    # a sum that is iterated over is a concatenation
    new = it[1][0][0][0]
    for mono, c in it[1][1:]:
      new = ("concat", new, mono[0])
    v = ("comp", "list", new, subst(v[3], {it: new}))
    it = new
  if v[1] != "list" or it[0] != "concat":
    return v
  at = ("item", it, ("idx", "#0"))
  out = []
  for part in (it[1], it[2]):
    if part[0] == "comp" and part[1] == "list" and len(part[3]) == 1 and not part[3][0][0] and part[3][0][1][0][0] != "nested" and False:
      return v
    alts = subst(v[3], {at: ("item", part, ("idx", "#0"))})
    if contains(alts, it):
      return v
    out.append(_split_concat(("comp", "list", part, alts)))
  return ("concat", out[0], out[1])


def _parts(v):
  return _parts(v[1]) + _parts(v[2]) if v[0] == "concat" else [v]


def any_lits(v, neg=False):
  """the disjuncts of: some element is true; None if some part has no normal form"""
  out = []
  for x in _parts(v):
    if x[0] != "comp" or x[1] not in ("list", "gen", "set"):
      return None
    a, p = any_atom(x, neg)
    if a is False:
      continue
    out.append((a, p))
  return out


def sum_of(v, count=False):
  """the sum of a comprehension, one form for generators, counting and accumulating loops"""
  if v[0] == "concat":
    return padd(sum_of(v[1], count), sum_of(v[2], count))
  alts = []
  for conds, items in v[3]:
    t = ZERO
    for x in items:
      if x[0] == "nested":
        y = x[1]
        if count and y[0] == "comp":
          y = ("comp", "list", y[2], tuple((a[0], tuple(z if z[0] == "nested" else ONE for z in a[1])) for a in y[3]))
        x = sum_of(y, count) if y[0] == "comp" else ("call", "sum", (y,), ())
      t = padd(t, x)
    if t != ZERO:
      alts.append((conds, (t,)))
  if not alts:
    return ZERO
  alts = _simplify_alts(alts)
  if len(alts) == 1 and not alts[0][0] and is_int(alts[0][1][0]) and v[1] == "list" and v[2][0] != "set":
    return pmul(alts[0][1][0], ("call", "len", (v[2],), ()) if v[2][0] != "call" or v[2][1] not in ("range", "enumerate", "zip") else _iter_count(v[2]))
  out = ONE
  ps = [to_poly(a[1][0]) for a in alts]
  if all(len(p) == 1 for p in ps):
    # what every summand has in common and does not change goes outside
    ms = [next(iter(p.items())) for p in ps]
    for x in list(dict.fromkeys(ms[0][0])):
      if not any(isinstance(y[1], str) and y[1].startswith("#") or y[0] in ("lv", "last", "bound") for y in subterms(x) if len(y) > 1):
        k = min(m.count(x) for m, _ in ms)
        for _ in range(k):
          out = pmul(out, x)
          new = []
          for m, c in ms:
            m = list(m)
            m.remove(x)
            new.append((tuple(m), c))
          ms = new
    g = math.gcd(*[c for _, c in ms]) if all(type(c) is int for _, c in ms) else 1
    if all(c < 0 for _, c in ms):
      g = -g
    if out != ONE or g != 1:
      out = pmul(out, C(g))
      vals = []
      for m, c in ms:
        t = C(c // g if g != 1 else c)
        for x in m:
          t = pmul(t, x)
        vals.append(t)
      return pmul(out, sum_of(("comp", "list", v[2], tuple((a[0], (t,)) for a, t in zip(alts, vals)))))
  return ("call", "sum", (("comp", "list", v[2], tuple(sorted(((tuple(sorted(a[0], key=repr)),) + tuple(a[1:]) for a in alts), key=repr))),), ())


def renorm_lit(a, pol):
  """literal with the atom in normal form after a substitution"""
  if a[0] == "lt0":
    at, p = _lt0(_renorm(a[1]))
    return (at == (p == pol), True) if at in (True, False) else (at, p == pol)
  if a[0] in ("eq", "eq0") and len(a) == 3:
    at, p = atom_eq(_renorm(a[1]), _renorm(a[2]))
    return (at == (p == pol), True) if at in (True, False) else (at, p == pol)
  return a, pol


def any_atom(v, neg=False):
  """(atom, polarity) of: some element of the comprehension is true (neg: false)"""
  def conv(v, depth):
    alts = []
    for conds, items in v[3]:
      for x in items:
        if x[0] == "nested":
          for z in _parts(x[1]):
            if z[0] != "comp":
              alts.append((conds, (("nested", z),)))
              continue
            a, p = atom(conv(z, depth + 1), depth + 1)
            if a is True:
              alts.append((conds, (TRUE,)))
            elif a is not False and (a, not p) not in conds:
              alts.append((tuple(sorted(set(conds) | {(a, p)}, key=repr)), (TRUE,)))
          continue
        a, p = truth(x)
        if neg:
          p = not p
        if a is True or a is False:
          if a == p:
            alts.append((conds, (TRUE,)))
        else:
          if (a, not p) in conds:
            continue
          alts.append((tuple(sorted(set(conds) | {(a, p)}, key=repr)), (TRUE,)))
    alts = _simplify_alts(alts)
    return ("comp", "list", v[2], tuple(sorted(((tuple(sorted(a[0], key=repr)),) + tuple(a[1:]) for a in alts), key=repr)))
  def atom(c, depth):
    if not c[3]:
      return False, True
    if len(c[3]) == 1 and c[3][0][1] == (TRUE,) and len(c[3][0][0]) == 1:
      # x occurs in the sequence
      i = ("idx", "#%d" % depth)
      a, p = c[3][0][0][0]
      if a[0] == "eq" and p:
        for x, y in ((a[1], a[2]), (a[2], a[1])):
          if x == ("item", c[2], i) and not contains(y, i) and not contains(c[2], i):
            return ("in", y, c[2]), True
    return ("any", c), True
  return atom(conv(v, 0), 0)


def prime_alts(conds_list):
  """all prime implicants of a disjunction of conjunctions: one form for every way of writing it"""
  ordered = {}
  for cs in conds_list:
    for a, p in cs:
      if a[0] == "lt0":
        t, c = split_const(a[1])
        ordered.setdefault(t, set()).add(c)
  back = {}
  if ordered:
    def spread(a, p):
      e = _equation(a)
      if e is None or e[0] not in ordered:
        return [[(a, p)]]
      t, c = e
      lo, hi = ("lt0", padd(t, C(-c))), ("lt0", padd(t, C(-c - 1)))
      if _lt0(lo[1]) != (lo, True) or _lt0(hi[1]) != (hi, True):
        return [[(a, p)]]
      ordered[t] |= {-c, -c - 1}
      back[lo, hi] = a
      return [[(lo, False), (hi, True)]] if p else [[(lo, True)], [(hi, False)]]
    new = []
    for cs in conds_list:
      alts = [[]]
      for a, p in cs:
        alts = [x + y for x in alts for y in spread(a, p)]
      new.extend(alts)
    conds_list = new
    for t, cs in ordered.items():
      for c in cs:
        if c - 1 in cs:
          lo, hi = ("lt0", padd(t, C(c))), ("lt0", padd(t, C(c - 1)))
          if (lo, hi) not in back:
            back[lo, hi] = atom_eq(t, C(-c))[0]
  atoms = sorted({a for cs in conds_list for a, p in cs}, key=repr)
  if len(atoms) > 7 or len(conds_list) > 24:
    return None
  n = len(atoms)
  pos = {a: i for i, a in enumerate(atoms)}
  on = set()
  for cs in conds_list:
    fix = {}
    for a, p in cs:
      if fix.get(pos[a], p) != p:
        fix = None
        break
      fix[pos[a]] = p
    if fix is None:
      continue
    for bits in range(1 << n):
      if all(bool(bits >> i & 1) == p for i, p in fix.items()):
        on.add(bits)
  # x < 3 holds when x < 2 does
  below = [(i, j) for i, a in enumerate(atoms) for j, b in enumerate(atoms) if a[0] == b[0] == "lt0"
           and split_const(a[1])[0] == split_const(b[1])[0] and split_const(a[1])[1] > split_const(b[1])[1]]
  never = {bits for bits in range(1 << n) if any(bits >> i & 1 and not bits >> j & 1 for i, j in below)} if below else set()
  on |= never
  cur = {(b, 0) for b in on}
  primes = set()
  while cur:
    nxt, used = set(), set()
    for b, mask in cur:
      for i in range(n):
        if mask >> i & 1:
          continue
        o = (b ^ (1 << i), mask)
        if o in cur:
          used.add((b, mask))
          nxt.add((b & ~(1 << i), mask | 1 << i))
    primes |= cur - used
    cur = nxt
  if never:
    primes = {(b, m) for b, m in primes if any(x not in never for x in range(1 << n) if x & ~m == b & ~m)}
  out = [tuple((atoms[i], bool(b >> i & 1)) for i in range(n) if not mask >> i & 1) for b, mask in sorted(primes)]
  for (lo, hi), a in back.items():
    k = 0
    while k < len(out):
      cs = out[k]
      if (lo, False) in cs and (hi, True) in cs:
        out[k] = tuple(sorted([x for x in cs if x not in ((lo, False), (hi, True))] + [(a, True)], key=repr))
      elif (lo, True) in cs:
        rest = frozenset(x for x in cs if x != (lo, True))
        for o in out:
          if frozenset(o) == rest | {(hi, False)}:
            out[k] = tuple(sorted(list(rest) + [(a, False)], key=repr))
            out.remove(o)
            k = -1
            break
      k += 1
  return out


def _equation(a):
  """(t, c) for an atom that says t == c"""
  if a[0] == "eq0":
    t, c = split_const(a[1])
    return t, -c
  if a[0] == "eq" and is_int(a[2]):
    return a[1], a[2][2]
  if a[0] == "eq" and _diff(a) is not None:
    t, c = split_const(_diff(a))
    return t, -c
  return None


def _simplify_alts(alts):
  """alternatives of a comprehension: one form per propositional content"""
  groups = {}
  order = []
  for a in alts:
    if a[1] not in groups:
      groups[a[1]] = []
      order.append(a[1])
    if a[0] not in groups[a[1]]:
      groups[a[1]].append(a[0])
  out = []
  for v in order:
    g = groups[v]
    if len(g) > 1:
      ps = prime_alts(g)
      if ps is not None:
        g = ps
    out.extend((c, v) for c in g)
  return out
