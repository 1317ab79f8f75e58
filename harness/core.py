"""Case runner, verdicts, known findings, evidence."""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from harness import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Inconclusive(Exception):
  pass


class CaseViolation(Exception):
  """Raised by Ctx.fail to end the current case."""


class Endless(BaseException):
  """Raised in a case that has used far more processor time than any needs."""

  def __init__(self, frame):
    super().__init__()
    self.where = None
    while frame is not None:
      if in_repo(frame.f_code.co_filename):
        self.where = (f"{os.path.basename(frame.f_code.co_filename)}:"
                      f"{frame.f_code.co_name}")
        break
      frame = frame.f_back


def endless(signum, frame):
  del signum
  raise Endless(frame)


def jsonable(x):
  if isinstance(x, dict):
    return {str(k): jsonable(v) for k, v in x.items()}
  if isinstance(x, (list, tuple, set)):
    return [jsonable(v) for v in x]
  if isinstance(x, np.ndarray):
    return jsonable(x.tolist()) if x.size <= 60 else (
        f"array{x.shape} sha1={hashlib.sha1(np.ascontiguousarray(x)).hexdigest()[:12]}"
    )
  if isinstance(x, np.generic):
    return jsonable(x.item())
  if isinstance(x, float):
    return x if np.isfinite(x) else repr(x)
  if isinstance(x, (int, str, bool)) or x is None:
    return x
  return repr(x)


def seed_int(*parts):
  h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
  return int.from_bytes(h[:8], "big")


class Ctx:
  """What a check uses to run cases and report what its monitors saw."""

  def __init__(self, prop, tier, seed, only=None):
    self.prop = prop
    self.tier = tier
    self.seed = seed
    self.only = only
    self.thorough = tier == "thorough"
    self.t0 = time.time()
    self.evaluations = 0
    self.distinct = set()
    self.counters = {}
    self.samples = []
    self.violations = []
    self.stopped = False
    self.slowest = 0.0
    self.findings = {}
    self.case_key = None
    self.rule = ""
    self.assumptions = []
    self.needs = {}
    self.known = self._load_known()

  def _load_known(self):
    out = []
    if os.path.exists(KNOWN):
      for line in open(KNOWN):
        line = line.strip()
        if line and not line.startswith("fixed:"):
          out.append(json.loads(line))
    return [k for k in out if k["property"] == self.prop]

  def pick(self, quick, thorough):
    return thorough if self.thorough else quick

  # --- running cases -------------------------------------------------------
  def cases(self, monitor, n, fn, budget_s=None):
    """Runs fn(rng, i) for n independent seeded cases of a monitor.

    Args:
      monitor: name of the monitor
      n: number of cases
      fn: called with a fresh generator and the number of the case
      budget_s: stop starting new cases after that many seconds (a safeguard
        on slow machines; the cases run are counted in the evidence)
    """
    t = time.time()
    for i in range(n):
      key = f"{monitor}#{i}"
      if self.only is not None and key != self.only:
        continue
      if budget_s is not None and time.time() - t > budget_s and i > 0:
        self.count(f"{monitor}: stopped early after")
        break
      if len(self.violations) >= 5 or self.stopped:
        break
      self.case_key = key
      # processor time, which unlike wall-clock time does not depend on the load
      signal.signal(signal.SIGVTALRM, endless)
      signal.setitimer(signal.ITIMER_VIRTUAL, self.pick(200, 3000))
      start = time.process_time()
      s = seed_int(self.seed, self.prop, monitor, i)
      rng = np.random.default_rng(s)
      np.random.seed(s % 2**32)
      self.evaluations += 1
      try:
        with quiet():
          fn(rng, i)
      except CaseViolation:
        pass
      except Inconclusive:
        raise
      except Endless as e:
        self.stopped = True
        if e.where is None:
          raise Inconclusive("a case takes too long") from None
        try:
          self.fail("the code under test does not end", where=e.where)
        except CaseViolation:
          pass
      except Exception as e:  # pylint: disable=broad-except
        if from_repo(e):
          try:
            self.fail("the code under test raised on valid input",
                      error=f"{type(e).__name__}: {e}",
                      where=repo_frame(e))
          except CaseViolation:
            pass
        elif isinstance(e, MALFORMED):
          # what the code under test returned could not even be examined
          try:
            self.fail("an observed value is malformed",
                      error=f"{type(e).__name__}: {e}", where=last_frame(e))
          except CaseViolation:
            pass
        else:
          raise
      finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        self.slowest = max(self.slowest, time.process_time() - start)
        self.case_key = None

  # --- observations --------------------------------------------------------
  def count(self, name, k=1):
    self.counters[name] = self.counters.get(name, 0) + int(k)

  def saw(self, *key):
    """Records a distinct non-trivial situation."""
    if len(self.distinct) < 2_000_000:
      self.distinct.add(hashlib.sha1(repr(key).encode()).digest()[:10])

  def sample(self, what, **kw):
    if len(self.samples) < 6 and not any(
        s["what"] == what for s in self.samples):
      self.samples.append(jsonable({"case": self.case_key, "what": what, **kw}))

  def require(self, **minimum):
    """Minimal counts below which the run is inconclusive."""
    self.needs.update(minimum)

  # --- verdicts ------------------------------------------------------------
  def ok(self, cond, what, **detail):
    self.count("checks")
    if not cond:
      self.fail(what, **detail)

  def close(self, a, b, what, rtol=1e-9, atol=1e-9, **detail):
    """Elementwise equality up to rounding (infinities equal, NaN equal NaN)."""
    self.count("checks")
    try:
      a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError) as e:
      self.fail(what, got=a, expected=b, note=str(e), **detail)
    if a_.shape != b_.shape or not np.allclose(
        a_, b_, rtol=rtol, atol=atol, equal_nan=True):
      self.fail(what, got=a, expected=b, **detail)

  def raises(self, exc, fn, what, **detail):
    self.count("checks")
    try:
      fn()
    except exc:
      return
    except Exception as e:  # pylint: disable=broad-except
      self.fail(what, raised=f"{type(e).__name__}: {e}", **detail)
    self.fail(what, raised="nothing", **detail)

  def finding(self, mechanism, **detail):
    """A violation which is listed as a known finding under `mechanism`."""
    for k in self.known:
      if k["mechanism"] == mechanism:
        self.findings.setdefault(mechanism, k["what"])
        return
    self.fail(mechanism, **detail)

  def fail(self, what, **detail):
    self.violations.append({
        "case": self.case_key,
        "what": what,
        "detail": jsonable(detail)
    })
    raise CaseViolation(what)


# Exceptions of a monitor when it is handed something of a wrong shape or type.
MALFORMED = (TypeError, ValueError, IndexError, KeyError, AttributeError,
             ZeroDivisionError, np.linalg.LinAlgError)


def last_frame(e):
  f = traceback.extract_tb(e.__traceback__)[-1]
  return f"{os.path.basename(f.filename)}:{f.lineno}"


@contextlib.contextmanager
def quiet():
  with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
    warnings.simplefilter("ignore")
    yield


def in_repo(filename):
  return os.path.realpath(filename).startswith(boot.PKG + os.sep)


def from_repo(e):
  """Did the exception arise in, or pass through, the code under test?"""
  return repo_frame(e) is not None


def repo_frame(e):
  last = None
  for f in traceback.extract_tb(e.__traceback__):
    if in_repo(f.filename):
      last = f"{os.path.basename(f.filename)}:{f.name}"
  return last


def run(prop, fn, tier, seed, only=None):
  ctx = Ctx(prop, tier, seed, only)
  status = 0
  note = None
  try:
    fn(ctx)
  except Inconclusive as e:
    status, note = 2, f"inconclusive: {e}"
  except Exception:  # pylint: disable=broad-except
    status, note = 2, "harness error:\n" + traceback.format_exc()
  if only is None and status == 0 and not ctx.violations:
    for name, minimum in ctx.needs.items():
      got = ctx.counters.get(name, 0)
      if got < minimum:
        status = 2
        note = f"inconclusive: {name}={got}, at least {minimum} needed"
  wall = time.time() - ctx.t0
  if only is None:
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": len(ctx.distinct),
            "rule": ctx.rule,
            "samples": ctx.samples or ["none"],
            "observed": ctx.counters,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(wall, 3),
        "slowest_case_cpu_s": round(ctx.slowest, 3),
        "violations": len(ctx.violations),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
      json.dump(ev, f, indent=1)
  for m, what in ctx.findings.items():
    print(f"KNOWN-FINDING: property={prop} {what}")
  if ctx.violations:
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    path = os.path.join(VERIF, "out", f"{prop}-{seed}-{tier}.json")
    with open(path, "w") as f:
      json.dump({
          "property": prop, "seed": seed, "tier": tier,
          "case": ctx.violations[0]["case"],
          "violations": ctx.violations,
          "replay": f"./check {prop} --replay {path}",
      }, f, indent=1)
    v = ctx.violations[0]
    print(f"{prop}: {v['what']} [case {v['case']}] "
          f"{json.dumps(v['detail'])[:1500]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1
  if note:
    print(f"{prop}: {note}", file=sys.stderr)
    return status
  print(f"{prop}: held on {ctx.evaluations} executions "
        f"({len(ctx.distinct)} distinct; {ctx.counters}) in {wall:.1f}s")
  return 0
