"""Runs the check of each planted bug's property against it; prints a table.

usage: matrix.py [--all] [ID...]   (--all: every check against every bug)
Works in scratch copies of /repo under /tmp; not run by any check.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVERY = [f"C{i:02d}" for i in range(1, 41)]


def one(bug):
  d = os.path.join(V, "seeded", bug)
  prop = json.load(open(d + "/meta.json"))["property"]
  w = tempfile.mkdtemp(prefix="matrix-", dir="/tmp")
  try:
    subprocess.check_call(["cp", "-a", "/repo", w + "/r"])
    subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=w + "/r")
    res = []
    for p in EVERY if ALL else [prop]:
      env = dict(os.environ, VERIF_REPO=w + "/r", VERIF_SEED=os.environ.get(
          "VERIF_SEED", "1"))
      r = subprocess.run(["./check", p, "--tier", "quick"], cwd=V, env=env,
                         capture_output=True, text=True, timeout=900)
      what = ""
      for line in r.stdout.splitlines():
        m = re.match(rf"{p}: (.*?) \[case", line)
        if m and r.returncode == 1:
          what = m.group(1)
          break
      if r.returncode == 1 or p == prop:
        res.append((p, r.returncode, what))
    return bug, prop, res
  finally:
    shutil.rmtree(w)


ALL = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(
    os.listdir(os.path.join(V, "seeded")))
with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "4"))) as ex:
  for bug, prop, res in ex.map(one, ids):
    own = [r for r in res if r[0] == prop]
    others = [r[0] for r in res if r[0] != prop]
    print(f"| {bug} | {prop} | " + ("caught: " + own[0][2] if own[0][1] == 1 else
                                   f"missed (exit {own[0][1]})") + " |" +
          (f" {' '.join(others)} |" if ALL else ""), flush=True)
