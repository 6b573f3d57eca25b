"""Writes sa/classes.json from the current tree: the special methods, foreign bases and decorators of every class."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa.pyprog import program
from sa import integrity
p = program()
d = integrity.describe(p)
t = integrity.tested(p)
for q in d:
  if q in t or any(k.qual in t for k in p.mro(p.cls(q))):
    d[q]["tested"] = True
json.dump(d, open(os.path.join(integrity.HERE, "classes.json"), "w"), indent=0, sort_keys=True)
