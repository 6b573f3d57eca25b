"""Development aid: make a planted change, confirm it, keep it.
usage: mkseed.py FILE.py   where FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, subprocess, sys, runpy
SEEDS = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
for s in SEEDS:
  if only and s["id"] not in only: continue
  d = "/verif/seeded/" + s["id"]
  ok = True; msg = []
  try:
    for f, old, new in s["edits"]:
      p = "/repo/" + f; t = open(p).read()
      assert t.count(old) == 1, (s["id"], f, t.count(old), old)
      open(p, "w").write(t.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    lang = s.get("lang", "py")
    if lang == "py":
      open(d + "/demo.py", "w").write("import sys, os\nsys.path.insert(0, '/repo/Code')\nsys.dont_write_bytecode = True\n" + s["demo"])
      open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nHERE=$(cd "$(dirname "$0")" && pwd)\ncd /repo/Code && exec timeout 250 /opt/venv/bin/python "$HERE/demo.py"\n')
    else:
      open(d + "/demo.sh", "w").write(s["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("/tmp/bl.sh")
    if "missing []" not in r.stdout: ok = False; msg.append("tests: " + r.stdout)
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode == 0: ok = False; msg.append("demo passes with the change " + r.stdout[-300:])
    c = sh("cd /verif && python3 check.py %s quick" % s["property"])
    msg.append("check exit %d %s" % (c.returncode, [l[:260] for l in c.stdout.splitlines() if "[" in l][:1]))
  finally:
    sh("git -C /repo checkout -- .")
  if s.get("lang") == "cpp": sh("bash /opt/vp/build.sh")
  r = sh("bash %s/demo.sh" % d, cwd="/repo")
  if r.returncode != 0: ok = False; msg.append("demo fails without the change: " + (r.stdout + r.stderr)[-600:])
  print(s["id"], "OK" if ok else "BAD", msg)
  if not ok: sh("mkdir -p /tmp/badseeds; rm -rf /tmp/badseeds/%s; mv %s /tmp/badseeds/" % (s["id"], d))
