"""Development aid: mutants of the C++ sources against P19. Prints the survivors."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SRC = "/repo/cpp/src"
R = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=-])<(?![<=>a-zA-Z:])", "<="), (r"(?<![->])>(?![>=])\s(?=[\w(])", ">= "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
     (r"\s\+\s", " - "), (r"\s-\s", " + "), (r"\+=", "-="), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b2\b", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
     (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"most_left_pos", "most_right_pos"), (r"most_right_pos", "most_left_pos"), (r"last_state", "last_symbol"),
     (r"\blong\b", "int"), (r"'(.)'", "'q'")]
muts = []
for f in sorted(os.listdir(SRC)):
  if not f.endswith((".cpp", ".h")): continue
  if len(sys.argv) > 1 and f not in sys.argv[1:]: continue
  ls = open(os.path.join(SRC, f)).read().split("\n")
  for i, l in enumerate(ls):
    if l.strip().startswith(("//", "#")) or "cout" in l or "cerr" in l or "<< " in l and "std::" in l: continue
    code = l.split("//")[0]
    for a, b in R:
      for m in re.finditer(a, code):
        muts.append((f, i, code[:m.start()] + b + code[m.end():]))
    if re.match(r"\s+[\w.\->\[\]()*]+(\s*[+\-]?=\s*.*|\(.*\));$", code): muts.append((f, i, ";"))
    if re.match(r"\s+return .*;", code) and False: pass
def run(k):
  f, i, new = muts[k]
  d = "/tmp/cm/%d" % k
  shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/cpp"); os.symlink("/repo/Code", d + "/Code")
  shutil.copytree(SRC, d + "/cpp/src")
  p = os.path.join(d, "cpp/src", f)
  ls = open(p).read().split("\n"); old = ls[i]; ls[i] = new; open(p, "w").write("\n".join(ls))
  r = subprocess.run([sys.executable, "/verif/check.py", "P19"], env=dict(os.environ, SA_REPO=d, SA_OUT="/tmp/cm/out%d" % k), capture_output=True, text=True)
  shutil.rmtree(d)
  return k, r.returncode, r.stdout.strip().splitlines()[-1:]
n = {0: 0, 1: 0, 2: 0}
with ThreadPoolExecutor(4) as ex:
  for k, rc, out in ex.map(run, range(len(muts))):
    n[rc if rc in n else 2] += 1
    if rc == 0: print("SURVIVED", muts[k][0], muts[k][1] + 1, muts[k][2].strip())
    elif rc != 1 and "-v" in sys.argv: print("rc", rc, muts[k], out)
print(n)
