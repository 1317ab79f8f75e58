"""The checks: functions c01 .. c42 of the modules c_*.py."""
import importlib
import os

CHECKS = {}
for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
  if _f.startswith("c_") and _f.endswith(".py"):
    _mod = importlib.import_module("harness." + _f[:-3])
    for _n in dir(_mod):
      if len(_n) == 3 and _n[0] == "c" and _n[1:].isdigit():
        CHECKS[_n.upper()] = getattr(_mod, _n)
