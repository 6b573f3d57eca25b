"""every function must agree with itself, also after renaming locals"""
import sys, ast, time; sys.path.insert(0,'/verif')
from sa.pyprog import program, Func, AnalysisError
from sa.spec import spec_funcs, check_spec
p=program()
class Ren(ast.NodeTransformer):
  def __init__(s, names): s.names=names
  def visit_Name(s,n):
    if n.id in s.names: n.id="zz_"+n.id
    return n
bad=0;tot=0
import copy
for f in list(p.all_funcs()):
  t=time.time()
  for ren in (0,1):
    n=copy.deepcopy(f.node)
    if ren:
      a=n.args; params={x.arg for x in a.posonlyargs+a.args+a.kwonlyargs}|({a.vararg.arg} if a.vararg else set())|({a.kwarg.arg} if a.kwarg else set())
      loc={x.id for x in ast.walk(n) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}-params
      g={y for x in ast.walk(n) if isinstance(x,(ast.Global,ast.Nonlocal)) for y in x.names}
      Ren(loc-g).visit(n)
    g=Func(f.qual,n,f.module,f.cls)
    try:
      b,st=check_spec(p,f,g)
    except AnalysisError as e:
      print("ERR",f.qual,e); continue
    tot+=1
    if b:
      bad+=1
      print("BAD",ren,f.qual,len(b),b[0][0].what[:300])
  if time.time()-t>3: print("slow",f.qual,time.time()-t)
print(bad,tot)
