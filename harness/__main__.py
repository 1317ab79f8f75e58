import json
import os
import signal
import sys

from harness import core


def main(argv):
  if not argv:
    print("usage: check ID [--tier quick|thorough] [--replay FILE]")
    return 2
  prop = argv[0]
  if prop == "--selfcheck":
    from harness import registry
    print(f"{len(registry.CHECKS)} checks: {' '.join(sorted(registry.CHECKS))}")
    return 0 if registry.CHECKS else 2
  tier = os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1"))
  only = None
  i = 1
  while i < len(argv):
    if argv[i] == "--tier":
      tier = argv[i + 1]
    elif argv[i] == "--replay":
      with open(argv[i + 1]) as f:
        r = json.load(f)
      tier, seed, only = r["tier"], r["seed"], r["case"]
    i += 2
  if tier not in ("quick", "thorough"):
    tier = "quick"

  def watchdog(*_):
    # A wall-clock limit decides nothing: the run is inconclusive.
    print(f"{prop}: inconclusive: wall-clock watchdog", file=sys.stderr)
    sys.stderr.flush()
    os._exit(2)

  signal.signal(signal.SIGALRM, watchdog)
  signal.alarm(840 if tier == "quick" else 6 * 3600)
  from harness import registry
  return core.run(prop, registry.CHECKS[prop], tier, seed, only)


sys.exit(main(sys.argv[1:]))
