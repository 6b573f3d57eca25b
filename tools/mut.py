"""Development aid: in-memory mutants and refactorings of the analysed functions.
usage: mut.py P20 [mutants|refactors] [func-substring]"""
import sys, ast, copy, importlib, time
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa import pyprog
from sa.pyprog import program, Func, AnalysisError
from sa.runner import Ctx

def own_nodes(fn):
  return list(ast.walk(fn))

def mutants(fn):
  """yield (desc, newnode)"""
  base=fn
  nodes=list(ast.walk(base))
  for i,n in enumerate(nodes):
    def mk(f):
      c=copy.deepcopy(base); m=list(ast.walk(c))[i]
      r=f(m,c)
      if r is False: return None
      ast.fix_missing_locations(c); return c
    L=getattr(n,'lineno',0)
    if isinstance(n,ast.Constant) and isinstance(n.value,int) and not isinstance(n.value,bool):
      def f(m,c): m.value=m.value+1
      yield ("const+1 L%d %s"%(L,n.value),mk(f))
      if n.value>0:
        def f(m,c): m.value=m.value-1
        yield ("const-1 L%d %s"%(L,n.value),mk(f))
    if isinstance(n,ast.Constant) and isinstance(n.value,bool):
      def f(m,c): m.value=not m.value
      yield ("boolflip L%d"%L,mk(f))
    if isinstance(n,ast.Compare) and len(n.ops)>=1:
      for k,o in enumerate(n.ops):
        alts={ast.Lt:[ast.LtE,ast.Gt],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE],ast.GtE:[ast.Gt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.In:[ast.NotIn],ast.NotIn:[ast.In],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is]}[type(o)]
        for a in alts:
          def f(m,c,k=k,a=a): m.ops[k]=a()
          yield ("cmp %s->%s L%d %s"%(type(o).__name__,a.__name__,L,ast.unparse(n)),mk(f))
    if isinstance(n,ast.BoolOp):
      def f(m,c): m.op=ast.Or() if isinstance(m.op,ast.And) else ast.And()
      yield ("boolop L%d %s"%(L,ast.unparse(n)),mk(f))
      for k in range(len(n.values)):
        def f(m,c,k=k):
          del m.values[k]
          if len(m.values)==1: m.values=m.values+[copy.deepcopy(m.values[0])]
        yield ("drop-cond %d L%d %s"%(k,L,ast.unparse(n)),mk(f))
    if isinstance(n,ast.BinOp):
      t={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Add,ast.FloorDiv:ast.Mult,ast.Mod:ast.FloorDiv,ast.BitOr:ast.BitAnd,ast.BitAnd:ast.BitOr,ast.LShift:ast.RShift,ast.RShift:ast.LShift,ast.Pow:ast.Mult,ast.Div:ast.FloorDiv}.get(type(n.op))
      if t and not (isinstance(n.op,ast.Mod) and isinstance(n.left,ast.Constant)):
        def f(m,c): m.op=t()
        yield ("binop L%d %s"%(L,ast.unparse(n)),mk(f))
    if isinstance(n,ast.AugAssign):
      t={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Add}.get(type(n.op))
      if t:
        def f(m,c): m.op=t()
        yield ("augop L%d %s"%(L,ast.unparse(n)),mk(f))
    if isinstance(n,ast.Slice):
      for fld in ("lower","upper"):
        if getattr(n,fld) is not None:
          def f(m,c,fld=fld): setattr(m,fld,ast.BinOp(getattr(m,fld),ast.Add(),ast.Constant(1)))
          yield ("slice %s+1 L%d"%(fld,L),mk(f))
    if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
      def f(m,c): m.op=ast.Not(); m.operand=ast.UnaryOp(ast.Not(),m.operand)
      yield ("not-removed L%d %s"%(L,ast.unparse(n)),mk(f))
    if isinstance(n,(ast.If,ast.While)) :
      if not (isinstance(n.test,ast.Constant)):
        def f(m,c): m.test=ast.Constant(False) if isinstance(m,ast.If) else ast.Constant(True)
        yield ("if-false L%d %s"%(L,ast.unparse(n.test)),mk(f))
        if isinstance(n,ast.If):
          def f(m,c): m.test=ast.Constant(True)
          yield ("if-true L%d %s"%(L,ast.unparse(n.test)),mk(f))
    if isinstance(n,ast.Call) and len(n.args)>=2:
      def f(m,c): m.args[0],m.args[1]=m.args[1],m.args[0]
      yield ("swapargs L%d %s"%(L,ast.unparse(n)),mk(f))
    if isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id in("min","max","any","all"):
      def f(m,c): m.func.id={"min":"max","max":"min","any":"all","all":"any"}[m.func.id]
      yield ("minmax L%d %s"%(L,ast.unparse(n)),mk(f))
    for fld in ("body","orelse","finalbody"):
      b=getattr(n,fld,None)
      if isinstance(b,list):
        for k,s in enumerate(b):
          if isinstance(s,(ast.Assign,ast.AugAssign,ast.Expr,ast.Break,ast.Continue,ast.Return,ast.Raise)) :
            if isinstance(s,ast.Expr) and (isinstance(s.value,ast.Constant) or ast.unparse(s.value).startswith("print")): continue
            def f(m,c,k=k,fld=fld):
              getattr(m,fld)[k]=ast.Pass()
            yield ("del-stmt L%d %s"%(s.lineno,ast.unparse(s)[:80]),mk(f))
        for k in range(len(b)-1):
          s,t=b[k],b[k+1]
          if isinstance(s,(ast.Assign,ast.AugAssign,ast.Expr)) and isinstance(t,(ast.Assign,ast.AugAssign,ast.Expr)):
            st={ast.unparse(x) for x in ast.walk(s) if isinstance(x,(ast.Name,ast.Attribute)) and isinstance(x.ctx,ast.Store)}
            us={ast.unparse(x) for x in ast.walk(t) if isinstance(x,(ast.Name,ast.Attribute))}
            if st&us:
              def f(m,c,k=k,fld=fld):
                bb=getattr(m,fld); bb[k],bb[k+1]=bb[k+1],bb[k]
              yield ("swap-stmt L%d"%s.lineno,mk(f))

CNT=[0]
def refactors(fn, module, cls):
  base=fn
  nodes=list(ast.walk(base))
  params=[a.arg for a in fn.args.posonlyargs+fn.args.args+fn.args.kwonlyargs+[x for x in (fn.args.vararg,fn.args.kwarg) if x]]
  locs=set(params)|{x.id for x in ast.walk(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}
  def done(c): ast.fix_missing_locations(c); return c
  def helper(name,args,body):
    h=ast.FunctionDef(name=name,args=ast.arguments(posonlyargs=[],args=[ast.arg(a) for a in args],kwonlyargs=[],kw_defaults=[],defaults=[]),body=body,decorator_list=[],lineno=1,col_offset=0)
    ast.fix_missing_locations(h)
    return h
  # noop at start and in loops
  c=copy.deepcopy(base); c.body.insert(1 if isinstance(c.body[0],ast.Expr) and isinstance(c.body[0].value,ast.Constant) else 0, ast.parse("_noop = None").body[0]); yield "noop",done(c),None
  c=copy.deepcopy(base)
  for n in ast.walk(c):
    if isinstance(n,(ast.For,ast.While)): n.body.insert(0,ast.parse("_noop = 0").body[0])
  yield "noop-loops",done(c),None
  # rename
  ren={x for x in locs if x not in params}
  g={y for x in ast.walk(fn) if isinstance(x,(ast.Global,ast.Nonlocal)) for y in x.names}
  c=copy.deepcopy(base)
  nested={x.name for x in ast.walk(fn) if isinstance(x,ast.FunctionDef) and x is not fn}
  for n in ast.walk(c):
    if isinstance(n,ast.Name) and n.id in ren-g-nested: n.id="v_"+n.id
    if isinstance(n,ast.ExceptHandler) and n.name in ren: pass
  yield "rename",done(c),None
  # all augassign
  class A(ast.NodeTransformer):
    def visit_AugAssign(s,n):
      s.generic_visit(n)
      l=copy.deepcopy(n.target)
      for x in ast.walk(l):
        if hasattr(x,'ctx') and x is l: x.ctx=ast.Load()
      return ast.Assign([n.target],ast.BinOp(l,n.op,n.value))
  if any(isinstance(n,ast.AugAssign) for n in nodes):
    yield "augassign",done(A().visit(copy.deepcopy(base))),None
  class F(ast.NodeTransformer):
    def visit_Compare(s,n):
      s.generic_visit(n)
      fl={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
      if len(n.ops)==1 and type(n.ops[0]) in fl:
        return ast.Compare(n.comparators[0],[fl[type(n.ops[0])]()],[n.left])
      return n
  if any(isinstance(n,ast.Compare) for n in nodes):
    yield "flipcmp",done(F().visit(copy.deepcopy(base))),None
  class RT(ast.NodeTransformer):
    def visit_FunctionDef(s,n):
      s.generic_visit(n); return n
    def visit_Lambda(s,n): return n
    def visit_Return(s,n):
      if n.value is None: return n
      return [ast.Assign([ast.Name("_ret",ast.Store())],n.value),ast.Return(ast.Name("_ret",ast.Load()))]
  yield "ret-temp",done(RT().visit(copy.deepcopy(base))),None
  class IE(ast.NodeTransformer):
    def visit_Assign(s,n):
      if isinstance(n.value,ast.IfExp):
        return ast.If(n.value.test,[ast.Assign(copy.deepcopy(n.targets),n.value.body)],[ast.Assign(copy.deepcopy(n.targets),n.value.orelse)])
      return n
  if any(isinstance(n,ast.IfExp) for n in nodes): yield "ifexp",done(IE().visit(copy.deepcopy(base))),None
  for i,n in enumerate(nodes):
    if isinstance(n,ast.If):
      # invert
      if n.orelse:
        c=copy.deepcopy(base); m=list(ast.walk(c))[i]
        m.test=ast.UnaryOp(ast.Not(),m.test); m.body,m.orelse=m.orelse,m.body
        yield "invert L%d"%n.lineno,done(c),None
      # condition into a temp
      c=copy.deepcopy(base)
      tgt=list(ast.walk(c))[i]
      class T(ast.NodeTransformer):
        def visit_If(s,m):
          if m is tgt:
            a=ast.Assign([ast.Name("_cond",ast.Store())],m.test); m.test=ast.Name("_cond",ast.Load())
            return [a,m]
          s.generic_visit(m); return m
      # elif chains: parent's orelse list gets two statements -> fine
      yield "cond-temp L%d"%n.lineno,done(T().visit(c)),None
      # condition into helper
      used=[x for x in dict.fromkeys(y.id for y in ast.walk(n.test) if isinstance(y,ast.Name)) if x in locs]
      if not any(isinstance(y,(ast.NamedExpr,ast.Yield,ast.Lambda)) for y in ast.walk(n.test)):
        c=copy.deepcopy(base); m=list(ast.walk(c))[i]
        h=helper("_helper_cond",used,[ast.Return(m.test)])
        m.test=ast.Call(ast.Name("_helper_cond",ast.Load()),[ast.Name(u,ast.Load()) for u in used],[])
        yield "cond-helper L%d"%n.lineno,done(c),h
      # nested and
      if isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.And) and not n.orelse:
        c=copy.deepcopy(base); m=list(ast.walk(c))[i]
        rest=m.test.values[1:]
        inner=ast.If(rest[0] if len(rest)==1 else ast.BoolOp(ast.And(),rest),m.body,[])
        m.test=m.test.values[0]; m.body=[inner]
        yield "nest-and L%d"%n.lineno,done(c),None
      # else after return
      if n.orelse and isinstance(n.body[-1],(ast.Return,ast.Raise,ast.Continue,ast.Break)):
        c=copy.deepcopy(base); tgt2=list(ast.walk(c))[i]
        class T2(ast.NodeTransformer):
          def visit_If(s,m):
            s.generic_visit(m) if m is not tgt2 else None
            if m is tgt2:
              o=m.orelse; m.orelse=[]
              return [m]+o
            return m
        yield "drop-else L%d"%n.lineno,done(T2().visit(c)),None
    if isinstance(n,ast.For):
      # early continue
      if len(n.body)==1 and isinstance(n.body[0],ast.If) and not n.body[0].orelse:
        c=copy.deepcopy(base); m=list(ast.walk(c))[i]
        f0=m.body[0]
        m.body=[ast.If(ast.UnaryOp(ast.Not(),f0.test),[ast.Continue()],[])]+f0.body
        yield "early-continue L%d"%n.lineno,done(c),None
      # for range -> while
      if isinstance(n.iter,ast.Call) and isinstance(n.iter.func,ast.Name) and n.iter.func.id=="range" and isinstance(n.target,ast.Name) and len(n.iter.args)<=2 and not n.orelse and not any(isinstance(x,ast.Continue) for x in ast.walk(n)) :
        c=copy.deepcopy(base); tgt3=list(ast.walk(c))[i]
        class T3(ast.NodeTransformer):
          def visit_For(s,m):
            if m is tgt3:
              lo=m.iter.args[0] if len(m.iter.args)==2 else ast.Constant(0)
              hi=m.iter.args[-1]
              v=m.target.id
              return [ast.Assign([ast.Name(v,ast.Store())],lo),
                      ast.While(ast.Compare(ast.Name(v,ast.Load()),[ast.Lt()],[hi]),m.body+[ast.AugAssign(ast.Name(v,ast.Store()),ast.Add(),ast.Constant(1))],[])]
            s.generic_visit(m); return m
        yield "while L%d"%n.lineno,done(T3().visit(c)),None
      elif isinstance(n.iter,(ast.Name,ast.Attribute)) and not n.orelse and False:
        pass
      if isinstance(n.iter,(ast.Name,ast.Attribute)):
        c=copy.deepcopy(base); m=list(ast.walk(c))[i]
        it=m.iter; t=m.target
        m.iter=ast.Call(ast.Name("range",ast.Load()),[ast.Call(ast.Name("len",ast.Load()),[copy.deepcopy(it)],[])],[])
        m.target=ast.Name("_k",ast.Store())
        m.body=[ast.Assign([t],ast.Subscript(it,ast.Name("_k",ast.Load()),ast.Load()))]+m.body
        yield "index-loop L%d"%n.lineno,done(c),None
    # extract a call argument / assigned value to a helper
    if isinstance(n,ast.Assign) and not isinstance(n.value,(ast.Name,ast.Constant,ast.Attribute)):
      used=[x for x in dict.fromkeys(y.id for y in ast.walk(n.value) if isinstance(y,ast.Name)) if x in locs]
      inner={y.id for y in ast.walk(n.value) if isinstance(y,ast.Name) and isinstance(y.ctx,ast.Store)}
      if not any(isinstance(y,(ast.NamedExpr,ast.Yield,ast.Lambda)) for y in ast.walk(n.value)) and "super" not in ast.unparse(n.value):
        c=copy.deepcopy(base); m=list(ast.walk(c))[i]
        used=[u for u in used if u not in inner]
        h=helper("_helper_val",used,[ast.Return(m.value)])
        m.value=ast.Call(ast.Name("_helper_val",ast.Load()),[ast.Name(u,ast.Load()) for u in used],[])
        yield "val-helper L%d"%n.lineno,done(c),h
    # list comprehension to loop
    if isinstance(n,ast.Assign) and isinstance(n.value,ast.ListComp) and len(n.value.generators)==1 and len(n.targets)==1 and isinstance(n.targets[0],ast.Name):
      c=copy.deepcopy(base); tgt4=list(ast.walk(c))[i]
      class T4(ast.NodeTransformer):
        def visit_Assign(s,m):
          if m is tgt4:
            g=m.value.generators[0]
            app=ast.Expr(ast.Call(ast.Attribute(ast.Name(m.targets[0].id,ast.Load()),"append",ast.Load()),[m.value.elt],[]))
            body=[app]
            for t in g.ifs: body=[ast.If(t,body,[])]
            return [ast.Assign(m.targets,ast.List([],ast.Load())),ast.For(g.target,g.iter,body,[])]
          return m
      yield "comp-loop L%d"%n.lineno,done(T4().visit(c)),None
    # independent statement swap
    for fld in ("body","orelse"):
      b=getattr(n,fld,None)
      if isinstance(b,list):
        for k in range(len(b)-1):
          s,t=b[k],b[k+1]
          if isinstance(s,(ast.Assign,ast.AugAssign)) and isinstance(t,(ast.Assign,ast.AugAssign)):
            def names(x,store): return {ast.unparse(y) for y in ast.walk(x) if isinstance(y,(ast.Name,ast.Attribute,ast.Subscript)) and (isinstance(y.ctx,ast.Store) or not store)}
            if any(isinstance(y,ast.Call) for y in list(ast.walk(s))+list(ast.walk(t))): continue
            if names(s,1)&names(t,0) or names(t,1)&names(s,0): continue
            c=copy.deepcopy(base); m=list(ast.walk(c))[i]; bb=getattr(m,fld); bb[k],bb[k+1]=bb[k+1],bb[k]
            yield "swap L%d"%s.lineno,done(c),None

def main():
  pid,mode=sys.argv[1],sys.argv[2]
  pat=sys.argv[3] if len(sys.argv)>3 else ""
  mod=importlib.import_module("rules."+pid)
  ctx=Ctx(pid); mod.check(ctx)
  assert not ctx.findings,ctx.findings
  prog=program()
  tot=hit=0
  for q in list(ctx.analysed):
    if pat and pat not in q: continue
    try: f=prog.by_qual(q)
    except Exception: continue
    orig=f.node
    gen=((d,c,None) for d,c in mutants(orig)) if mode=="mutants" else refactors(orig,f.module,f.cls)
    for d,c,h in gen:
      if c is None: continue
      f.node=c
      prog._mindex=None; del prog._mindex
      if h is not None:
        f.module.funcs[h.name]=Func(f.module.name+":"+h.name,h,f.module)
      x=Ctx(pid); err=None
      t0=time.time()
      try: mod.check(x)
      except AnalysisError as e: err=str(e)
      except Exception as e: err="CRASH %r"%e
      f.node=orig
      if h is not None: del f.module.funcs[h.name]
      tot+=1
      bad=bool(x.findings)
      if mode=="mutants":
        if bad: hit+=1
        else: print("SURVIVED",q,d, "ERR "+err if err else "")
      else:
        if bad or err: print("ALARM",q,d,err or x.findings[0]["message"][:3000])
        else: hit+=1
  print(mode,pid,hit,"/",tot)
main()
