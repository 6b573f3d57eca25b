"""Agreement of two value-flow summaries.

`agree(code, spec)` relates the paths of a function of the repository to the
paths of a specification function.  Every pair of paths whose branch literals
do not clash must have the same outcome: same result, same effects.  Loops are
paired in order; loop-carried values are related coinductively (equal before
the loop, and every pair of iterations that does not clash keeps them equal).
Only normal forms of terms are compared; nothing is executed or solved.
"""
import itertools
import time

from .terms import *
from .terms import _lt0
from .flow import Ev, _renorm, renorm_lit, norm_iter, PURE_METHODS, PURE_BUILTINS, PURE_LIBRARY
from .pyprog import AnalysisError, program

# calls whose only effect is output, time or statistics
QUIET = {"print", "flush", "time.time", "time", "write_stats"}


def renorm_atom(a):
  """(atom, pol) after a substitution inside an atom"""
  if not isinstance(a, tuple):
    return a, True
  if a[0] == "lt0":
    return _lt0(a[1])
  if a[0] == "eq":
    return atom_eq(a[1], a[2])
  if a[0] == "eq0":
    return atom_eq(a[1], ZERO)
  if a[0] == "is":
    return atom_is(a[1], a[2])
  return a, True


_atoms = {}


def loop_atoms(t):
  """the lv, last and idx terms inside a term"""
  r = _atoms.get(t)
  if r is None:
    r = set()
    if t and t[0] in ("lv", "last", "idx"):
      r.add(t)
    for x in t:
      if isinstance(x, tuple):
        r |= loop_atoms(x)
    r = frozenset(r)
    _atoms[t] = r
  return r


def rewrite(t, m):
  """bottom-up substitution with renormalisation; m: loop atom -> term"""
  if not isinstance(t, tuple):
    return t
  for a in loop_atoms(t):
    if a in m:
      break
  else:
    return t
  if t in m:
    return m[t]
  r = tuple(rewrite(x, m) if isinstance(x, tuple) else x for x in t)
  if r in m:
    return m[r]
  if r == t:
    return t
  if r and r[0] == "poly":
    return _renorm(r)
  if r and r[0] == "lit":
    a, p = renorm_atom(r[1])
    if a is True or a is False:
      return C((a == p) == r[2])
    return ("lit", a, r[2] == p)
  return r


def rewrite_cond(c, m):
  a, p = c
  a2 = rewrite(a, m)
  if a2 == a:
    return c
  b, q = renorm_atom(a2)
  return (b, p == q)


def blur(t):
  """forget which loop variable and which loop a term speaks about"""
  m = {}
  for x in loop_atoms(t):
    if x[0] in ("lv", "last"):
      m[x] = ("sym", "*")
    elif x[0] == "idx":
      m[x] = ("sym", "#i")
  return rewrite(t, m) if m else t


def lvs(t):
  return {x for x in loop_atoms(t) if x[0] in ("lv", "last")}


def iter_count(it):
  if it[0] == "call" and it[1] == "range" and len(it[2]) == 1:
    return it[2][0]
  if it[0] == "call" and it[1] == "range" and len(it[2]) == 2:
    return psub(it[2][1], it[2][0])
  if it[0] == "call" and it[1] in ("enumerate", "list", "tuple", "iter", "reversed") and len(it[2]) >= 1:
    return iter_count(it[2][0])
  return ("call", "len", (it,), ())


def zipped(it):
  """sequences iterated over side by side (they are as long as one another)"""
  if it[0] == "call" and it[1] == "zip" and not it[3]:
    return [it] + [norm_iter(x) for x in it[2]]
  return [it]


def exc_name(v):
  if v[0] in ("new", "call", "cls", "bi", "ext", "exc"):
    return str(v[1]).split(":")[-1].split(".")[-1]
  return "?"


def split_over(e):
  """something done for the elements of a joined list, as done for each part"""
  if e.kind not in ("call", "new") or e.loops is None or "over" not in e.loops:
    return [e]
  for t in (e.recv,) + tuple(e.args) + tuple(v for _, v in e.kw):
    for x in subterms(t) if t is not None else ():
      if x[0] == "over" and len(x) == 2:
        ps = parts(x[1])
        if ps:
          out = []
          for q in ps:
            m = {("item", x[1], x): ("item", q, ("over", q))}
            def f(y):
              return subst(y, m) if y is not None else None
            n = Ev(e.kind, e.name, f(e.recv), tuple(f(a) for a in e.args), tuple((k, f(v)) for k, v in e.kw), f(e.value), e.node, e.func, e.nconds, e.loops, e.info)
            if any(contains(y, x) for y in (n.recv,) + n.args + tuple(v for _, v in n.kw) if y is not None):
              return [e]
            out += split_over(n)
          return out
  return [e]


def parts(t):
  if t[0] == "concat":
    return [t[1], t[2]]
  if t[0] == "poly" and len(t[1]) > 1 and all(c == 1 and len(m) == 1 for m, c in t[1]):
    return [m[0] for m, c in t[1]]
  return None


def first_only(qual):
  p = program()
  try:
    f = p.by_qual(qual)
  except KeyError:
    return False
  return f is not None and f.kind == "func" and p.effects.first_only(f)


def functions_of(name, recv):
  """the functions of the program a call event can stand for, None: not one of ours"""
  p = program()
  if not isinstance(name, str):
    return None
  if ":" in name:
    try:
      f = p.by_qual(name)
    except KeyError:
      return None
    return [f] if f is not None and getattr(f, "node", None) is not None else None
  fs = p.methods_named(name) if recv is not None else []
  return fs or None


def handed(r):
  """the objects a call gets hold of"""
  out = set()
  for t in ([r[2]] if r[2] is not None else []) + list(r[3]) + [v for _, v in r[4] or ()]:
    t = strip(t)
    if t[0] in ("sym", "attr", "lv", "new", "item", "call", "mcall"):
      out.add(t)
  return out


def swapped(r1, r2):
  """do two calls that share an object give another result the other way round?"""
  both = handed(r1) & handed(r2) - {("sym", "self")}
  if not both:
    return False
  def overwrites(r):
    # a message whose contents go
    return r[1] in ("Clear", "CopyFrom", "ParseFromString", "MergeFrom") and r[2] is not None and strip(r[2]) in both
  f1, f2 = functions_of(r1[1], r1[2]), functions_of(r2[1], r2[2])
  if overwrites(r1) or overwrites(r2):
    return True
  if f1 is None or f2 is None:
    return False
  eff = program().effects
  return any(eff.interferes(f, g) or eff.interferes(g, f) for f in f1 for g in f2)


def collecting(k, rs):
  """only additions to a set of a table of sets, none of which looks at the table"""
  r = k if isinstance(k, tuple) else None
  while r and r[0] in ("item", "@"):
    r = r[1]
  return r is not None and r[0] == "new" and r[1].endswith(":CTL_Table") and \
    all(x[0] == "call" and x[1] in ("add", "update") and not any(r == y for z in x[3] for y in subterms(z)) for x in rs)


def entry_order(events):
  """loop events in the order the loops are entered"""
  evs = [e for e in events if e.kind in ("loop", "loopbreak", "loopret", "loopexc")]
  out = []
  for e in evs:
    if e.kind == "loop":
      out.append(e)
      continue
    k = len(out)
    for j, f in enumerate(out):
      if e.name in f.loops and f.name != e.name:
        k = j
        break
    out.insert(k, e)
  return out


def inner(ag, st, info):
  """loops entered during one iteration that ended in state st"""
  return [e for e in ag.loops_of(st, st.events[info.start_events:]) if e.info is not info]


def inner_of(ag, st, info):
  """loops entered inside loop `info` on the way to state st"""
  return [e for e in ag.loops_of(st, st.events) if info.id in e.loops and e.info is not info]


def leaves(a, b):
  """how a loop is left; the ways of leaving a while loop differ in their conditions only"""
  if a.kind == "loopexc":
    return a.kind
  if a.info.iter is None and b.info.iter is None:
    return "left"
  return "loop" if a.kind == "loop" else "break"


def has_mod(t):
  return isinstance(t, tuple) and bool(t) and (t[0] == "bin" and t[1] == "%" or any(has_mod(x) for x in t))


def demod(t):
  """the term with a % b written a - b * (a // b)"""
  if not isinstance(t, tuple) or not t or t[0] == "c":
    return t
  r = tuple(demod(x) for x in t)
  if r[0] == "bin" and r[1] == "%" and not is_seq(r[2]):
    return psub(r[2], pmul(r[3], ("bin", "//", r[2], r[3])))
  return _renorm(r) if r != t else t


def has_minmax(t):
  return isinstance(t, tuple) and bool(t) and (t[0] == "call" and t[1] in ("min", "max") or any(has_minmax(x) for x in t))


def identities(st):
  """term -> constant it is identical to on this path"""
  out = {}
  for a, pol in st.conds:
    if pol and a[0] == "is":
      x, y = a[1], a[2]
      for p, q in ((x, y), (y, x)):
        if q[0] in ("c", "ext") and p[0] not in ("c", "ext"):
          out[p] = q
    elif pol and a[0] == "eq":
      x, y = a[1], a[2]
      for p, q in ((x, y), (y, x)):
        if q[0] == "c" and q[1] in ("str", "NoneType") and p[0] != "c":
          out[p] = q
  return out


class Mismatch(Exception):
  def __init__(self, what, node=None, soft=False):
    self.what = what
    self.node = node
    self.soft = soft


BREAKS = ("loop", "loopbreak", "loopret", "loopexc", "nested")


def console(v):
  """a stream for progress messages"""
  v = strip(v) if v is not None else None
  return v is not None and (v[0] == "attr" and v[2] == "pout" or v == ("p", "pout") or v == ("var", "pout"))


def emptied(events, k):
  """the container of entry k loses entries on the way"""
  return not isinstance(k[1], str) and any(e.kind == "call" and e.recv is not None and e.name.split(".")[-1] in ("clear", "pop", "popitem", "popleft", "remove", "insert", "appendleft", "sort", "reverse") and strip(e.recv) == strip(k[0]) for e in events)


class Agree:
  def __init__(self, ignore=(), heap=True, only=None, soft_calls=(), ignore_heap=(), values=True, raises=True, spec_loop="S"):
    self.ignore = set(ignore) | QUIET
    self.heap = heap
    self.only = set(only) if only is not None else None
    self.ignore_heap = set(ignore_heap)
    self.values = values
    self.raises = raises
    self.pairs = 0
    self.seen = {}
    self.lcache = {}
    self.kcache = {}
    self.params = []
    self.same = {}
    self.lent = set()
    self.loopmemo = {}
    self.sigs = {}
    self.obligations = 0
    self.both = None
    self.inv = []
    self.boolish = lambda t: t[0] == "lit" or t[0] == "c" and t[1] == "bool"
    self.until = time.time() + 150

  # --- entry --------------------------------------------------------------
  def paths(self, code, spec):
    """list of (what, code path) disagreements"""
    out = []
    code = [p for p in code if self.relevant(p) and not self.infeasible(p)]
    spec = [p for p in spec if self.relevant(p) and not self.infeasible(p)]
    covered = set()
    self.used = self.open_loops(code) | self.open_loops(spec)
    for p in code:
      hit = False
      for s in spec:
        try:
          r = self.pair(p, s)
        except Mismatch as e:
          hit = True
          covered.add(id(s))
          out.append((e, p, s))
          break
        if r:
          hit = True
          covered.add(id(s))
      if not hit:
        out.append((Mismatch("a path of the code has no counterpart", p.node), p, None))
    if not out:
      for s in spec:
        if id(s) not in covered:
          out.append((Mismatch("no path of the code does what is required when %s" % (" & ".join(show_lit(c) for c in s.conds) or "True"), None), None, s))
    return out

  def relevant(self, p):
    if p.kind == "raise":
      if not self.raises:
        return False
      n = exc_name(p.value)
      if n in ("AssertionError", "?"):
        return False
    return True

  # --- one pair of paths ------------------------------------------------------
  def pair(self, p, s):
    """True if compatible and equal, False if incompatible, else raises"""
    if time.time() > self.until:
      raise AnalysisError("comparison takes too long")
    m = {}
    jobs = []
    self.demand = set()
    self.bound = {}
    self.same = identities(p.st)
    lc = self.loops_of(p.st, p.events)
    ls = self.loops_of(s.st, s.events)
    xc, xs = self.excepts(p.events, {}), self.excepts(s.events, {})
    if [x[:2] for x in xc] != [x[:2] for x in xs]:
      return False
    # quick clash on loop-free literals
    if self.clash(p.st, s.conds, {}, only_free=True, facts=s.st.facts):
      return False
    structural = None
    for a, b in zip(lc, ls):
      self.bind_loop(a.info, b.info, m)
      self.exits(a, b, p.st, s.st, m)
      if leaves(a, b) != leaves(b, a):
        # leaving the same loop in different ways: exclusive
        return False
    if len(lc) != len(ls):
      structural = Mismatch("different loop structure", p.node)
    if self.clash(p.st, s.conds, m, facts=s.st.facts):
      return False
    if structural:
      raise structural
    self.pairs += 1
    for a, b in zip(lc, ls):
      jobs.append((a.info, b.info))
    if p.kind != s.kind:
      raise Mismatch("ends with %s instead of %s" % (p.kind, s.kind), p.node)
    if p.kind == "raise":
      a, b = exc_name(p.value), exc_name(s.value)
      if a != b:
        raise Mismatch("raises %s instead of %s" % (a, b), p.node)
    elif self.values:
      self.eq(p.value, s.value, m, "result", p.node)
      for cn, sn in self.params:
        a, b = p.st.env.get(cn), s.st.env.get(sn)
        if a is not None and b is not None:
          self.eq(a, b, m, "the final content of the argument %s" % cn, p.node)
    self.effects(p.st, p.events, s.st, s.events, m, p.node)
    for c in s.conds:
      self.want(c[0])
    while True:
      before = len(self.demand), len(self.bound)
      for a, b in jobs:
        self.loop(a, b, m, jobs)
      if (len(self.demand), len(self.bound)) == before:
        break
    return True

  def silent(self, info):
    if info.iter is None or info.breaks or info.rets:
      return False
    for en in info.ends:
      for x in en.events[info.start_events:]:
        if x.kind == "loop":
          if not self.silent(x.info):
            return False
        elif self.keep(x) or x.kind in ("setattr", "setitem", "delitem", "except", "loopbreak", "loopret", "loopexc", "yield"):
          return False
    return True

  def open_loops(self, paths):
    """ids of the loops whose variables occur in something that matters"""
    used = set()
    done = set()
    memo = {}
    def use(t):
      if isinstance(t, tuple) and t:
        k = id(t)
        if k in memo:
          return
        memo[k] = t
        if t[0] in ("lv", "last"):
          used.add(t[1])
          return
        for x in t:
          if isinstance(x, tuple):
            use(x)
    def state(st, events, own=None):
      for k, v in st.heap.items():
        if k[0] != ("lv", own):
          use(k)
        use(v)
      for e in events:
        use(e.recv)
        use(e.args)
        use(e.value)
        use(tuple(v for _, v in e.kw))
        if e.info is not None and e.info.id not in done:
          done.add(e.info.id)
          loop(e.info)
    def loop(info):
      mine = info.id in used
      for v in info.init.values():
        use(v)
      use(info.iter)
      for en in info.ends:
        before = set(used)
        for c in en.conds[info.start_conds:]:
          use(c[0])
        for n, h in info.head.items():
          v = en.env.get(n) if isinstance(n, str) else None
          if v is not None and v[0] != "last" and v != h:
            use(v)
        state(en, en.events[info.start_events:])
        if not mine and info.id not in before:
          used.discard(info.id)     # its own iterations do not count
          memo.clear()
    for p in paths:
      use(p.value)
      for c in p.conds:
        use(c[0])
      state(p.st, p.events)
    return used

  def loops_of(self, st, events):
    """the loops that matter on a path: a loop that only builds values which are
    already summarised (no effect, no early end, no open loop variable) does not"""
    k = (id(st), len(events))
    if k in self.lcache:
      return self.lcache[k][0]
    out = []
    silent = set()
    for e in entry_order(events):
      if e.kind == "loop" and e.info.id not in self.used and self.silent(e.info):
        silent.add(e.info.id)
        continue
      if silent & set(e.loops):
        continue
      out.append(e)
    self.lcache[k] = (out, st)
    return out

  def want(self, t):
    """loop-carried values of the specification that matter"""
    if isinstance(t, tuple):
      for x in lvs(t):
        self.demand.add(("lv", x[1], x[2]))

  def infeasible(self, p):
    t = p.st.copy()
    return any(t.assume(a, y) is None for a, y in p.st.facts)

  def clash(self, st, conds, m, only_free=False, facts=()):
    t = st.copy()
    for c in conds:
      c2 = rewrite_cond(c, m) if m else c
      if only_free and isinstance(c2[0], tuple) and loop_atoms(c2[0]):
        continue
      if t.assume(c2[0], c2[1]) is None:
        return True
    self.both = t
    if st.facts or facts:
      u = t.copy()
      for c in st.facts:
        if u.assume(c[0], c[1]) is None:
          return True
      for c in facts:
        c2 = rewrite_cond(c, m) if m else c
        if only_free and isinstance(c2[0], tuple) and loop_atoms(c2[0]):
          continue
        if u.assume(c2[0], c2[1]) is None:
          return True
    if not only_free:
      for lo, hi in self.inv:
        for a, p in list(t.conds):
          if a[0] == "lt0":
            q = a[1] if p else psub(C(-1), a[1])
            r = padd(q, psub(lo, hi))
            if len(to_poly(r)) <= len(to_poly(q)):
              t.assume(*_lt0(r))
      for a, p in list(t.conds):
        if has_minmax(a):
          r = self.resolve(a, True)
          if r != a and t.assume(*renorm_lit(r, p)) is None:
            return True
    return False

  def excepts(self, events, m):
    """the exceptional steps of a path: handler and the kept effects before it"""
    out = []
    if not any(e.kind == "except" for e in events):
      return out
    seen = []
    for e in events:
      if e.kind == "except":
        out.append((e.name, tuple(seen), e))
      elif self.keep(e):
        seen.append((e.kind, e.name))
    return out

  # --- loops -----------------------------------------------------------------
  def bind_loop(self, ci, si, m):
    if ("idx", si.id) not in m:
      m[("idx", si.id)] = ("idx", ci.id)
    # candidate variables
    def carried(info):
      return {n: v for n, v in info.head.items() if v is not None and v[0] == "lv"}
    cv, sv = carried(ci), carried(si)
    used = set(m.values())
    def sig(info, n, ren):
      k = (id(info), n)
      r = self.sigs.get(k)
      if r is None:
        r = self.sigs[k] = (sig1(info, n), info)
      return r[0]
    def sig1(info, n):
      i = info.init.get(n)
      ends = sorted({repr(blur(self.val(e, n))) for e in info.ends})
      return (repr(blur(i)) if i is not None else None, tuple(ends))
    csig = {n: sig(ci, n, {}) for n in cv}
    todo = []
    def places(info):
      return {(e.recv, e.name) for en in info.ends for e in en.events[info.start_events:] if e.kind == "setattr"}
    cw, sw = places(ci), {rewrite(n, m): n for n in places(si)}
    if cw != set(sw) and self.alone(ci) and self.alone(si):
      self.lent |= {(si.id, n) for k, n in sw.items() if k not in cw} | {(ci.id, k) for k in cw if k not in sw}
    same = [(n, v) for n, v in sv.items() if isinstance(n, str) and n in cv and v not in m and csig[n] == sig(si, n, m)]
    for n, v in same + [x for x in sv.items() if x not in same]:
      if v in m:
        continue
      if self.bound.get(v) in cv.values():
        m[v] = self.bound[v]
        used.add(m[v])
        continue
      if not isinstance(n, str):
        k = rewrite(n, m)
        if k not in cv:
          # a field kept in a local while the loop runs
          near = [x for x in cv if isinstance(x, str) and cv[x] not in used and csig[x] == sig(si, n, m)]
          if near and self.alone(ci) and self.alone(si):
            x = n[1] if n[1] in near else near[0]
            m[v] = cv[x]
            used.add(cv[x])
            self.lent.add((si.id, n))
            continue
        t = ("lv", ci.id, k)
        m[v] = t
        used.add(t)
        continue
      sg = sig(si, n, m)
      cand = [k for k in cv if isinstance(k, str) and csig[k] == sg and cv[k] not in used]
      if cand:
        k = n if n in cand else cand[0]
        m[v] = cv[k]
        used.add(cv[k])
      else:
        todo.append((n, v))
    for n, v in todo:
      near = [x for x in cv if not isinstance(x, str) and x not in {rewrite(y, m) for y in sv if not isinstance(y, str)} and cv[x] not in used and csig[x] == sig(si, n, m)]
      if n in cv and cv[n] not in used:
        m[v] = cv[n]
        used.add(cv[n])
      elif near and self.alone(ci) and self.alone(si):
        m[v] = cv[near[0]]
        used.add(cv[near[0]])
        self.lent.add((ci.id, near[0]))
    for n in si.head:
      if isinstance(n, str):
        t = m.get(("lv", si.id, n))
        if t is not None and ("last", si.id, n) not in m:
          m[("last", si.id, n)] = ("last", ci.id, t[2])

  def alone(self, info):
    """nothing in the loop can see the fields it changes"""
    return not any(self.keep(e) or e.kind in ("loopexc", "yield", "except") or e.kind in BREAKS and e.info is not info for en in info.ends for e in en.events[info.start_events:])

  def exits(self, a, b, cst, sst, m):
    """a loop must not go on where the other one stops"""
    def stops(e):
      return e.kind != "loopexc" and (e.kind != "loop" or e.info.iter is None)
    if (a.info.iter is None) != (b.info.iter is None):
      return
    if stops(b):
      for ec in a.info.ends:
        self.apart(ec, a.info, inner(self, ec, a.info), sst, inner_of(self, sst, b.info), m, a.info.node,
                   "the loop goes on where it must end")
    if stops(a):
      for es in b.info.ends:
        self.apart(cst, a.info, inner_of(self, cst, a.info), es, inner(self, es, b.info), m, a.info.node,
                   "the loop ends where it must go on")

  def apart(self, cst, cinfo, lc, sst, ls, m, node, what):
    """the two states, one inside and one outside of the loop, exclude each other"""
    k = (id(cst), id(sst))
    if k in self.seen:
      return
    self.seen[k] = (cst, sst)
    if self.clash(cst, sst.conds, m, facts=sst.facts):
      return
    m2 = dict(m)
    for x, y in zip(lc, ls):
      self.bind_loop(x.info, y.info, m2)
      self.exits(x, y, cst, sst, m2)
      if x.kind != y.kind:
        return
    if [x[:2] for x in self.excepts(cst.events, {})] != [x[:2] for x in self.excepts(sst.events, {})]:
      return
    if not self.clash(cst, sst.conds, m2, facts=sst.facts):
      raise Mismatch("%s: %s" % (what, " & ".join(show_lit(c) for c in cst.conds[cinfo.start_conds:])), node)

  def val(self, st, n):
    if isinstance(n, str):
      v = st.env.get(n)
    else:
      v = st.heap.get(n)
    return v if v is not None else NONE

  def loop(self, ci, si, m, jobs):
    key_ = (id(ci), id(si), frozenset(m.items()), frozenset(self.demand), frozenset(self.bound.items()))
    r = self.loopmemo.get(key_)
    if r is not None:
      self.demand |= r[0]
      self.bound.update(r[1])
      m.update(r[2])
      return
    m0 = dict(m)
    self.loop1(ci, si, m, jobs)
    self.loopmemo[key_] = (set(self.demand), dict(self.bound), {k: v for k, v in m.items() if m0.get(k) != v}, ci, si)

  def loop1(self, ci, si, m, jobs):
    keep = self.inv
    try:
      return self.loop2(ci, si, m, jobs)
    finally:
      self.inv = keep

  def loop2(self, ci, si, m, jobs):
    self.both = None
    if (ci.iter is None) != (si.iter is None):
      w, f, fm = (ci, si, m) if ci.iter is None else (si, ci, {})
      cnt = rewrite(iter_count(f.iter), fm)
      idx = ("idx", w.id)
      for e in w.ends:
        at, pol = atom_lt(idx, cnt if w is ci else cnt)
        st = e
        if w is si:
          at, pol = rewrite_cond((at, pol), {v: k for k, v in m.items()})
        if st.query(at) is not pol:
          raise Mismatch("the loop does not run once per element", ci.node)
    elif ci.iter is not None:
      a, b = norm_iter(ci.iter), norm_iter(si.iter)
      if not (set(zipped(a)) & {rewrite(x, m) for x in zipped(b)}):
        self.eq(a, b, m, "what the loop iterates over", ci.node)
    carried = [(n, v, m[v]) for n, v in si.head.items() if v is not None and v[0] == "lv" and v in m and v in self.demand]
    back = {v: n for n, v in ci.head.items() if v is not None}
    for n, v, cvv in carried:
      i = si.init.get(n)
      cn = back.get(cvv)
      if i is None or cn is None:
        continue
      if ci.init.get(cn) is None:
        raise Mismatch("%s has no value before the loop" % (cn if isinstance(cn, str) else show_key(cn)), ci.node)
      self.eq(ci.init[cn], i, m, "the value of %s before the loop" % (n if isinstance(n, str) else show_key(n)), ci.node)
    inv = self.inv = self.ordered(si, m)
    for ec in ci.ends:
      hit = False
      for es in si.ends:
        m2 = dict(m)
        lc = [e for e in self.loops_of(ec, ec.events[ci.start_events:]) if e.info is not ci]
        ls = [e for e in self.loops_of(es, es.events[si.start_events:]) if e.info is not si]
        if [x[:2] for x in self.excepts(ec.events[ci.start_events:], {})] != [x[:2] for x in self.excepts(es.events[si.start_events:], m)]:
          continue
        if self.clash(ec, es.conds[si.start_conds:], m2, only_free=False, facts=es.facts) and not lc:
          continue
        excl = False
        for a, b in zip(lc, ls):
          self.bind_loop(a.info, b.info, m2)
          self.exits(a, b, ec, es, m2)
          if leaves(a, b) != leaves(b, a):
            excl = True
            break
        if excl:
          continue
        if len(lc) != len(ls):
          if self.clash(ec, es.conds[si.start_conds:], m2, facts=es.facts):
            continue
          raise Mismatch("different loop structure", ci.node)
        if self.clash(ec, es.conds[si.start_conds:], m2, facts=es.facts):
          continue
        if inv and self.follows(inv):
          hit = True      # cannot happen with the variables in order
          continue
        hit = True
        self.pairs += 1
        for c in es.conds[si.start_conds:]:
          self.want(c[0])
        for n, v, cvv in carried:
          cn = back.get(cvv)
          if cn is None:
            continue
          self.eq(self.val(ec, cn), self.val(es, n), m2, "the next value of %s" % (n if isinstance(n, str) else show_key(n)), ci.node)
        self.effects(ec, ec.events[ci.start_events:], es, es.events[si.start_events:], m2, ci.node, loop=(ci, si))
        for a, b in zip(lc, ls):
          self.sub(a.info, b.info, m2)
      if not hit and si.ends:
        raise Mismatch("an iteration of the loop has no counterpart", ci.node)

  def ordered(self, si, m):
    """pairs of loop variables of which one only shrinks, the other only grows, and that start in order"""
    def side(n, v, fn):
      for e in si.ends:
        x = self.val(e, n)
        if x != v and not (x[0] == "call" and x[1] == fn and v in x[2]):
          return False
      return bool(si.ends)
    hs = [(n, v) for n, v in si.head.items() if v is not None and v[0] == "lv" and v in m and si.init.get(n) is not None]
    lo = [(n, v) for n, v in hs if side(n, v, "min")]
    hi = [(n, v) for n, v in hs if side(n, v, "max")]
    out = []
    for a, u in lo:
      for b, w in hi:
        at, pol = atom_le(si.init[a], si.init[b])
        if a != b and at is pol:
          out.append((m[u], m[w]))
    return out

  def follows(self, inv):
    """add what follows from the order of those variables; True if nothing can satisfy it"""
    t = self.both
    for lo, hi in inv:
      for at, p in list(t.conds):
        if at[0] == "lt0":
          # x < lo gives x < hi; hi < x gives lo < x
          q = at[1] if p else psub(C(-1), at[1])
          for r in (padd(q, psub(lo, hi)),):
            a, y = _lt0(r)
            if len(to_poly(r)) <= len(to_poly(q)):
              if t.assume(a, y) is None:
                return True
      if t.assume(*atom_le(lo, hi)) is None:
        return True
    return False

  def sub(self, a, b, m):
    jobs = []
    self.loop(a, b, m, jobs)

  # --- effects ----------------------------------------------------------------
  def keep(self, e):
    r = self.kcache.get(id(e))
    if r is None:
      r = self.kcache[id(e)] = (self.keep1(e), e)
    return r[0]

  def keep1(self, e):
    if e.kind in ("loop", "loopbreak", "loopret", "loopexc", "new", "except", "nested"):
      return False
    if e.kind in ("setattr", "setitem", "delitem"):
      # final values are compared instead
      return e.kind == "delitem"
    if e.kind in ("call",):
      if e.pure and self.only is None:
        return False
      short = e.name.split(":")[-1].split(".")[-1]
      if (e.name in self.ignore or short in self.ignore) and not (short == "print" and e.recv is not None):
        return False
      if e.recv is not None and e.name in ("append", "extend") and e.recv[0] in ("list", "append", "concat", "comp", "lv"):
        return False
      if e.recv is not None and e.name in ("add", "update") and (e.recv[0] in ("set", "mut", "lv") or e.recv[0] == "call" and e.recv[1] == "set"):
        return False
      if self.only is not None:
        return e.name in self.only or short in self.only
      if short in PURE_METHODS or e.name in PURE_BUILTINS and (e.recv is None or e.name != "print"):
        return False
      if short in ("write", "flush") and console(e.recv):
        return False
      if e.name.startswith("math.") or e.name in PURE_LIBRARY:
        return False
    if e.kind in ("enter", "exit"):
      return False
    return True

  def joined(self, evs):
    """output written in pieces is the same output"""
    out, at = [], {}
    for e in evs:
      if e.kind in BREAKS:
        at = {}
        continue
      if e.kind == "call" and e.name == "write" and e.recv is not None and len(e.args) == 1 and not e.kw:
        r = strip(e.recv)
        if r in at:
          old = out[at[r]]
          new = Ev(old.kind, old.name, old.recv, (mkconcat(old.args[0], e.args[0]),), (), old.value, old.node, old.func, old.nconds, old.loops, old.info)
          out[at[r]] = new
          continue
        at[r] = len(out)
      elif e.kind == "call" and e.recv is not None:
        at.pop(strip(e.recv), None)
      out.append(e)
    return out

  def effects(self, cst, cev, sst, sev, m, node, heap=True, loop=None):
    ce = self.joined([y for e in cev if self.keep(e) or e.kind in BREAKS for y in split_over(e)])
    se = self.joined([y for e in sev if self.keep(e) or e.kind in BREAKS for y in split_over(e)])
    # loops matter: depth of nesting is part of an effect
    def rec(e, mm):
      r = (e.kind, e.name, e.recv, e.args, e.kw, e.value if e.kind == "yield" else None)
      return rewrite(r, mm) if mm else r
    rest = list(ce)
    for k, e in enumerate(se):
      want = rec(e, m)
      self.want(rec(e, {}))
      for j, f in enumerate(rest):
        if rec(f, {}) == want:
          break
      else:
        j = None
        if self.both is not None:
          w2 = tuple(map(self.resolve, want))
          j = next((j for j, f in enumerate(rest) if (f.kind, f.name) == (e.kind, e.name) and tuple(map(self.resolve, rec(f, {}))) == w2), None)
      if j is None:
        near = [f for f in rest if (f.kind, f.name) == (e.kind, e.name)]
        msg = "missing effect %r" % (e,)
        if near:
          msg = "effect %r where %r is required" % (near[0], e)
        raise Mismatch(msg, near[0].node if near else node)
      rest.pop(j)
    if rest:
      raise Mismatch("additional effect %r" % (rest[0],), rest[0].node)
    # order of effects on the same receiver
    def seqs(evs, mm):
      d = {}
      for e in evs:
        r = rec(e, mm)
        k = r[2] if r[2] is not None else r[1]
        if r[0] == "call" and r[2] is None and r[3] and isinstance(r[1], str) and ":" in r[1] and strip(r[3][0])[0] == "attr" and first_only(r[1]):
          k = ("call", r[1], (strip(r[3][0]),), ())
        d.setdefault(k, []).append(r)
      return d
    a, b = seqs(ce, {}), seqs(se, m)
    for k in a:
      if k in b and a[k] != b[k] and collecting(k, a[k] + b[k]):
        # sets only grow, in whatever order
        continue
      if k in b and a[k] != b[k] and (self.both is None or [tuple(map(self.resolve, x)) for x in a[k]] != [tuple(map(self.resolve, x)) for x in b[k]]):
        raise Mismatch("effects on %s happen in a different order" % (show(k) if isinstance(k, tuple) else k), node)
    cs, ss = [rec(e, {}) for e in ce if e.kind == "call"], [rec(e, m) for e in se if e.kind == "call"]
    if len(cs) == len(ss) > 1 and cs != ss and len(set(cs)) == len(cs) and set(cs) == set(ss):
      at = {r: i for i, r in enumerate(cs)}
      for i, x in enumerate(ss):
        for y in ss[i + 1:]:
          if at[x] > at[y] and swapped(x, y):
            raise Mismatch("%s must happen before %s" % (x[1], y[1]), node)
    self.obligations += len(se)
    if heap and self.heap:
      self.heaps(cst, sst, m, node, cev, sev, loop)

  def heaps(self, cst, sst, m, node, cev, sev, loop=None):
    def written(evs):
      out = {}
      for e in evs:
        if e.kind == "setattr":
          out[(e.recv, e.name)] = e
        elif e.kind == "setitem" and e.args:
          out[(e.recv, e.args[0])] = e
      return out
    wc = {k: e for k, e in written(cev).items()}
    ws = {rewrite(k, m): (k, e) for k, e in written(sev).items()}
    if loop is not None and self.lent:
      wc = {k: e for k, e in wc.items() if (loop[0].id, k) not in self.lent}
      ws = {k: x for k, x in ws.items() if (loop[1].id, x[0]) not in self.lent}
    if loop is None and self.lent:
      # fields kept in locals: what they hold afterwards
      sid = {e.info.id for e in sev if e.kind in BREAKS and e.info is not None}
      cid = {e.info.id for e in cev if e.kind in BREAKS and e.info is not None}
      def now(st, k):
        return st.heap.get(k, ("attr", k[0], k[1]) if isinstance(k[1], str) else ("item", k[0], k[1]))
      for lid, n in sorted(self.lent, key=repr):
        if lid in sid:
          k = rewrite(n, m)
          self.eq(now(cst, k), now(sst, n), m, "the value of %s" % show_key(k), node)
          wc.pop(k, None)
          ws.pop(k, None)
        elif lid in cid:
          o = [x for x in sst.heap if rewrite(x, m) == n]
          self.eq(now(cst, n), now(sst, o[0]) if o else ("attr", n[0], n[1]), m, "the value of %s" % show_key(n), node)
          wc.pop(n, None)
          ws.pop(n, None)
    for k, e in wc.items():
      if isinstance(k[1], str) and k[1] in self.ignore_heap or e.loops and k[0][0] == "lv":
        continue
      if k not in ws:
        v = cst.heap.get(k)
        d = ("attr", k[0], k[1]) if isinstance(k[1], str) else ("item", k[0], k[1])
        if v is not None and not emptied(cev, k) and (strip(v) == strip(d) or self.both is not None and strip(self.resolve(v)) == strip(d)):
          continue
        if k not in cst.heap and e.kind == "setitem":
          # overwritten container or fresh local
          if k[0][0] in ("list", "dict", "lv", "comp", "append", "concat", "store", "set"):
            continue
        raise Mismatch("writes %s, which must not change here" % show_key(k), e.node)
      sk, se = ws[k]
      self.want(sk)
      cvv = cst.heap.get(k, e.value)
      svv = sst.heap.get(sk, se.value)
      self.eq(cvv, svv, m, "the value of %s" % show_key(k), e.node)
    for k, (sk, se) in ws.items():
      if isinstance(k[1], str) and k[1] in self.ignore_heap:
        continue
      if k not in wc and k not in cst.heap:
        if se.kind == "setitem" and k[0][0] in ("list", "dict", "lv", "comp", "append", "concat", "store", "set"):
          continue
        v = sst.heap.get(sk)
        d = ("attr", sk[0], sk[1]) if isinstance(sk[1], str) else ("item", sk[0], sk[1])
        if v is not None and not emptied(sev, sk) and (strip(v) == strip(d) or self.both is not None and strip(self.resolve(rewrite(v, m))) == rewrite(strip(d), m)):
          continue
        raise Mismatch("%s is not written" % show_key(k), node)

  # --- values -------------------------------------------------------------------
  def eq(self, c, s, m, what, node):
    self.obligations += 1
    self.want(s)
    if c is None or s is None:
      if c is s:
        return
      raise Mismatch("%s is missing" % what, node)
    if rewrite(s, m) == c:
      return
    if self.unify(c, s, m):
      return
    if self.both is not None and self.resolve(c) == self.resolve(rewrite(s, m)):
      return
    if self.both is not None:
      k = {a[1]: a[2] for a, p in self.both.conds if p and a[0] == "eq" and is_int(a[2])}
      k.update({a[1]: ONE for a, p in self.both.conds if not p and a[0] == "eq" and a[2] == ZERO and direction(a[1])})
      if k and self.resolve(_renorm(subst(c, k))) == self.resolve(_renorm(subst(rewrite(s, m), k))):
        return
    if has_mod(c) or has_mod(s):
      if demod(c) == demod(rewrite(s, m)):
        return
    if self.same:
      # values known to be one and the same object on this path
      if subst(c, self.same) == subst(rewrite(s, m), self.same):
        return
    raise Mismatch("%s is %s, must be %s" % (what, show(c), show(rewrite(s, m))), node)

  def resolve(self, t, order=False):
    """the term under everything known where the two sides meet"""
    if not isinstance(t, tuple) or not t:
      return t
    st = self.both
    if order:
      pass
    elif t[0] == "lit":
      q = st.query(t[1])
      return t if q is None else C(q == t[2])
    elif t[0] in ("call", "mcall", "lv") and self.boolish(t):
      q = st.query(("truth", t))
      if q is not None:
        return C(q)
    if t[0] == "comp":
      return t
    if t[0] == "call" and t[1] in ("min", "max") and not t[3] and len(t[2]) > 1:
      xs = [self.resolve(x, order) for x in t[2]]
      for a in list(xs):
        for b in list(xs):
          if a is not b and a in xs and b in xs:
            at, p = atom_le(a, b)
            q = at if at in (True, False) else st.query(at)
            if q is not None:
              # a <= b when q == p
              le = q == p
              xs.remove((b if le else a) if t[1] == "min" else (a if le else b))
      return xs[0] if len(xs) == 1 else ("call", t[1], tuple(xs), ())
    r = tuple(self.resolve(x, order) for x in t)
    if r[0] == "store" and len(r) == 4 and r[3][0] == "item" and strip(r[3]) == ("item", strip(r[1]), strip(r[2])):
      return r[1]
    return _renorm(r) if r != t else t

  def unify(self, c, s, m):
    """bind unbound spec loop variables"""
    free = [x for x in lvs(s) if x not in m]
    if not free or len(free) > 4:
      return False
    cand = [x for x in lvs(c) if x not in m.values()]
    if len(cand) < len(free):
      return False
    for perm in itertools.islice(itertools.permutations(cand, len(free)), 120):
      mm = dict(m)
      mm.update(zip(free, perm))
      if rewrite(s, mm) == c:
        m.update(zip(free, perm))
        self.bound.update(zip(free, perm))
        return True
    return False
