#!/usr/bin/env python3
"""rf.py FILE.py [names]: apply behaviour-keeping edits in a scratch copy; every check must stay quiet.
FILE defines R = [(name, file, [(old, new), ...])]; a file of None means appended text."""
import importlib.util, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import json
COV = json.load(open("/tmp/cov.json")) if os.path.exists("/tmp/cov.json") else None
spec = importlib.util.spec_from_file_location("x", sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = set(sys.argv[2:])
ALL = sorted(f[:-3] for f in os.listdir(HERE + "/rules") if re.match(r"P\d+\.py", f))

def run(r):
  name, fn, edits = r
  d = tempfile.mkdtemp(prefix="rf.", dir="/tmp")
  try:
    shutil.copytree("/repo/Code", d + "/Code")
    shutil.copytree("/repo/cpp/src", d + "/cpp/src")
    p = d + "/Code/" + fn
    s = open(p).read()
    for o, n in edits:
      if o is None:
        s += "\n" + n
        continue
      if s.count(o) < 1:
        import re
        s = re.sub(r"(?m)^ *#.*\n", "", s)
        s = re.sub(r"(?m)  # .*$", "", s)
      if s.count(o) < 1:
        return name, "EDIT NOT FOUND: %r" % o[:80]
      s = s.replace(o, n, 1)
    open(p, "w").write(s)
    try: fn.endswith(".py") and compile(s, p, "exec")
    except SyntaxError as e: return name, "SYNTAX %s" % e
    env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev")
    modname = fn[:-3].replace("/", ".")
    ids = ALL if fn.endswith(".py") else ["P19"]
    if COV and fn.endswith('.py'): ids = sorted({p for q, ps in COV.items() if q.startswith(modname + ":") for p in ps}) or ALL
    out = []
    for p in ids:
      x = subprocess.run([sys.executable, HERE + "/check.py", p], env=env, capture_output=True, text=True)
      if x.returncode or "undecided" in x.stdout:
        out.append("%s rc=%d %s" % (p, x.returncode, "\n      ".join(l[:int(os.environ.get("W","260"))] for l in x.stdout.splitlines()[1:4]) + x.stderr[-300:]))
    return name, "\n   ".join(out) or "ok (%s)" % " ".join(ids)
  finally:
    shutil.rmtree(d)

with ThreadPoolExecutor(6) as ex:
  rs = [r for r in m.R if not want or r[0] in want]
  bad = 0
  for n, o in ex.map(run, rs):
    if not o.startswith("ok"): bad += 1; print(n, "::", o)
  print(len(rs) - bad, "/", len(rs), "quiet")
