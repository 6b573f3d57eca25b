"""What an option that is (not) given means.

The declarations of the command-line options, module by module: which value a
flag leaves behind when it is given and when it is not, and what kind of value
another option carries.  sa/options.json lists what the rest of the program was
written against; numbers used as defaults are a matter of taste and not judged.
"""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def declarations(m):
  """{dest: (facts, node)} for the declarations of a module that can be read off"""
  out, twice = {}, set()
  for n in ast.walk(m.tree):
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_option", "add_argument")):
      continue
    if not n.args or not all(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in n.args) or any(k.arg is None for k in n.keywords):
      continue
    kw = {k.arg: k.value for k in n.keywords}
    names = [a.value for a in n.args]
    if "dest" in kw:
      if not isinstance(kw["dest"], ast.Constant):
        continue
      dest = kw["dest"].value
    else:
      long = [x for x in names if x.startswith("--")] or [x for x in names if not x.startswith("-")] or names
      dest = long[0].lstrip("-").replace("-", "_")
    act = kw.get("action")
    if act is not None and not isinstance(act, ast.Constant):
      continue
    act = act.value if act is not None else "store"
    dv = kw.get("default")
    if act in ("store_true", "store_false"):
      if dv is not None and not isinstance(dv, ast.Constant):
        continue
      base = (n.func.attr == "add_argument" and act == "store_false") if dv is None else bool(dv.value)
      facts = ["flag", act == "store_true", base]
    elif act == "store":
      t = kw.get("type")
      if t is None:
        t = "str"
      elif isinstance(t, ast.Constant) and isinstance(t.value, str):
        t = t.value
      elif isinstance(t, (ast.Name, ast.Attribute)):
        t = ast.unparse(t).split(".")[-1]
      else:
        continue
      if t not in ("str", "int", "float", "Path", "string"):
        continue
      t = "str" if t == "string" else t
      nargs = kw.get("nargs")
      facts = ["value", t, "many" if isinstance(nargs, ast.Constant) and nargs.value not in (None, "?") else "one"]
    else:
      continue
    if dest in out:
      twice.add(dest)
    out[dest] = (facts, n)
  return {k: v for k, v in out.items() if k not in twice}


def findings(prog, modules):
  """[(module, dest, message, node)]; and how many declarations were looked at"""
  base = json.load(open(os.path.join(HERE, "options.json")))
  out, n = [], 0
  for name in modules:
    m = prog.modules.get(name)
    if m is None:
      continue
    now = declarations(m)
    for dest, want in sorted(base.get(name, {}).items()):
      if dest not in now:
        continue
      n += 1
      got, node = now[dest]
      if got == want:
        continue
      if want[0] == got[0] == "flag":
        if got[1] == got[2] and want[1] != want[2]:
          msg = "giving the option for %s no longer changes anything" % dest
        else:
          msg = "%s is %s unless its option is given, must be %s" % (dest, got[2], want[2])
      elif want[0] == got[0]:
        if {want[1], got[1]} == {"str", "Path"} and want[2] == got[2]:
          continue
        msg = "the option for %s carries %s %s, must be %s %s" % (dest, got[2], got[1], want[2], want[1])
      else:
        continue
      out.append((name, dest, msg, node))
  return out, n
