"""Development aid: starting point for a specification text. extract.py Module:name ..."""
import ast, sys
sys.path.insert(0,'/verif')
from sa.pyprog import program
p=program()
class Clean(ast.NodeTransformer):
  def visit_FunctionDef(s,n):
    s.generic_visit(n)
    n.returns=None; n.decorator_list=[d for d in n.decorator_list]
    for a in n.args.args+n.args.kwonlyargs+n.args.posonlyargs: a.annotation=None
    if n.args.vararg: n.args.vararg.annotation=None
    b=[x for x in n.body if not (isinstance(x,ast.Expr) and isinstance(x.value,ast.Constant))]
    n.body=[x for x in b if not isinstance(x,ast.Pass)] or [ast.Pass()]
    return n
  def visit_AnnAssign(s,n):
    if n.value is None: return None
    return ast.Assign([n.target],n.value,lineno=1)
  def visit_Expr(s,n):
    if not __import__("os").environ.get("KEEP") and isinstance(n.value,ast.Call) and isinstance(n.value.func,ast.Name) and n.value.func.id=="print": return ast.Pass()
    return n
  def visit_Assert(s,n): n.msg=None; return n
  def visit_If(s,n):
    s.generic_visit(n)
    if not n.orelse and all(isinstance(x,ast.Pass) or (isinstance(x,ast.Expr) and isinstance(x.value,ast.Call) and ast.unparse(x.value.func)=="self.print_this") for x in n.body): return ast.Pass()
    n.body=[x for x in n.body if not isinstance(x,ast.Pass)] or [ast.Pass()]
    n.orelse=[x for x in n.orelse if not isinstance(x,ast.Pass)]
    return n
cls={}
for q in sys.argv[1:]:
  f=p.func(q); node=Clean().visit(f.node)
  name=q.split(":")[1]
  t=ast.unparse(ast.fix_missing_locations(node)).replace("    ","  ")
  if "." in name:
    cls.setdefault(name.split(".")[0],[]).append(t)
  else: print(t+"\n")
for c,ts in cls.items():
  print("class %s:"%c)
  for t in ts: print("\n".join("  "+l for l in t.splitlines())+"\n")
