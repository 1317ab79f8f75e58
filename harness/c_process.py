"""Monitor of C41: reproducible anywhere, and the process stays as it was."""
import hashlib
import io
import locale
import logging
import os
import pickle
import random
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

from harness import boot
from harness import c_scm
from harness import c_state
from harness import core

A, B, D, P = boot.arms, boot.bandits, boot.data, boot.parameters
PU, NU, ES, SCM = (boot.paper_utils, boot.nonlinear_utils, boot.example_scm,
                   boot.scm)


# --- the process's settings -------------------------------------------------------
def settings():
  """What a program that uses the package would not expect it to change."""
  return {
      "numpy error handling": np.geterr(),
      "numpy print options": {k: repr(v) for k, v in
                              np.get_printoptions().items()},
      "warning filters": [repr(f) for f in warnings.filters],
      "Python's random generator": hashlib.sha1(repr(
          random.getstate()).encode()).hexdigest(),
      "working directory": os.getcwd(),
      "environment": dict(os.environ),
      "matplotlib settings": {k: repr(v) for k, v in
                              matplotlib.rcParams.items()},
      "matplotlib backend": matplotlib.get_backend(),
      "open figures": plt.get_fignums(),
      # not its handlers: the first log message of a process makes one
      "logging": (logging.root.level, logging.root.disabled,
                  logging.root.manager.disable),
      "threads": sorted(t.name for t in threading.enumerate()),
      "signal handlers": [repr(signal.getsignal(s)) for s in (
          signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGCHLD,
          signal.SIGPIPE)],
      "import path": list(sys.path),
      "recursion limit": sys.getrecursionlimit(),
      "locale": locale.setlocale(locale.LC_ALL),
      "floating point": (1e-310 > 0, 1e-310 * 1.0 != 0),
      "global generator": np.random.get_state()[0],
      "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
      "hooks": (id(sys.excepthook), sys.gettrace(), sys.getprofile()),
  }


def changed(before, after):
  out = {}
  for k in before:
    if before[k] != after[k]:
      out[k] = (str(before[k])[:300], str(after[k])[:300])
      if isinstance(before[k], dict):
        out[k] = {j: (before[k].get(j), after[k].get(j))
                  for j in set(before[k]) | set(after[k])
                  if before[k].get(j) != after[k].get(j)}
  return out


WATCHED = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir",
           "os.putenv", "os.unsetenv", "os.chmod", "os.chown", "os.link",
           "os.symlink", "os.truncate", "subprocess.Popen", "os.fork",
           "os.forkpty", "os.exec", "os.system", "os.posix_spawn", "os.kill",
           "socket.connect", "socket.bind", "shutil.rmtree", "os.utime")


class Audit:
  """Records files written and processes started while it is on."""

  def __init__(self):
    self.on = False
    self.seen = []
    self.events = 0
    sys.addaudithook(self.hook)

  def hook(self, event, args):
    if not self.on:
      return
    self.events += 1
    if event == "open":
      path, mode, flags = (tuple(args) + (None, None))[:3]
      writes = (any(c in mode for c in "wax+") if isinstance(mode, str) else
                bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)))
      if not writes or isinstance(path, int):
        return
    elif event not in WATCHED:
      return
    text = [str(a)[:200] for a in args]
    if any(boot._scratch in t or t == os.devnull for t in text):  # pylint: disable=protected-access
      return  # matplotlib's caches; the scratch folder is the harness's
    self.seen.append((event, text))


# --- numpy's global generator -------------------------------------------------------
def state():
  s = np.random.get_state()
  return s[1].copy(), s[2], s[3]


def drawn(before, after, most=20000):
  """Words drawn from the generator between two states; None if re-seeded."""
  key, pos, spare = before
  if np.array_equal(key, after[0]):
    if after[1] < pos:
      return None
    # a normal number may be one that was made together with an earlier one
    return after[1] - pos + (spare != after[2])
  g = np.random.MT19937()
  s = g.state
  s["state"]["key"], s["state"]["pos"] = key.copy(), 624
  g.state = s
  for k in range(most):
    g.random_raw(1)  # makes the next block of 624 words
    if np.array_equal(g.state["state"]["key"], after[0]):
      return 624 - pos + 624 * k + after[1]
    g.random_raw(623)
  return None


# --- operations: name, thunk, does it draw from the global generator? ------------
def of_scripts(rng):
  """Objects of C37 and what can be done with them."""
  kind = int(rng.choice(len(c_state.KINDS), p=c_state.WEIGHTS /
                        c_state.WEIGHTS.sum()))
  length = 2 if c_state.KINDS[kind][0] == "bandit" else 6
  s = c_state.Script(kind, int(rng.integers(2**31)), int(rng.integers(2**31)),
                     length)
  ds = c_state.pool(int(rng.integers(2**31)))
  box = {}

  def make():
    box["obj"] = s.make(ds)

  if s.name in ("function", "generator"):  # the harness seeds in these
    make()
  else:
    yield f"new {s.name}", make, None
  for name, f in s.ops:
    yield f"{s.name}: {name}", lambda f=f: f(box["obj"], ds), None


def of_dags(rng):
  names, parents, dims, x, y, cov = c_scm.random_dag(rng, int(rng.integers(2, 14)))

  def mechanism(v):
    def f(n, ps):
      out = np.random.standard_normal((n, dims[v]) if dims[v] else n)
      for j, p in enumerate(ps):
        out = out + np.asarray(p).reshape(n, -1)[:, :1].reshape(
            (n, 1) if dims[v] else n) / (j + 1)
      return (out > 0) * 1 if v == x else out
    return f

  cpds = {v: mechanism(v) for v in names}
  box = {}

  def make():
    box["m"] = SCM.SCM("random", names, parents, cpds, cov, x, y)
  yield "new SCM", make, False
  for _ in range(3):
    n = int(rng.integers(1, 40))
    yield "SCM: generate", lambda n=n: box["m"].generate(n), True
  yield "SCM: effect", lambda: box["m"].compute_treatment_effect(50), None


def of_papers(rng):
  nonlinear = rng.uniform() < .25
  m = int(rng.integers(1, 2 if nonlinear else 4))
  z_dim = [int(v) for v in rng.integers(1, 2 if nonlinear else 4, m + 1)]
  v_dim = [0] + [int(v) for v in rng.integers(1, 2 if nonlinear else 4, m)]
  seed, latex = int(rng.integers(1000)), bool(rng.integers(2))
  cpds = PU.get_section_5_2_cpds if nonlinear else PU.get_section_5_1_cpds
  example = PU.get_section_5_2_example if nonlinear else PU.get_section_5_1_example
  box = {}

  def make_cpds():
    box["cpds"] = cpds(z_dim, v_dim, m, seed)
    return sorted(box["cpds"])

  def make():
    box["ex"] = example(z_dim, v_dim, seed, 1.0, 2.0, 3.0, m, 900, 60, latex)
    return [[a.name, a.cost] for a in box["ex"][1]]

  yield "paper mechanisms", make_cpds, False
  yield "paper example", make, None
  yield "paper model: generate", lambda: box["ex"][0].generate(50), True
  which = int(rng.integers(2, 5))

  def run():
    return box["ex"][which].run()
  yield "paper bandit: run", run, True
  yield "paper bandit: reset", lambda: box["ex"][which].reset(), False
  yield "paper bandit: run again", run, True


def of_examples(rng):
  make = ES.back_door_scm if rng.integers(2) else ES.frontdoor_scm
  box = {}

  def new():
    box["m"], truth = make()
    return truth
  yield "example model", new, True
  yield "example model: generate", lambda: box["m"].generate(40), True
  yield "example model: effect", lambda: box["m"].compute_treatment_effect(40), None


def of_functions(rng):
  dim, out = int(rng.integers(1, 3)), int(rng.integers(1, 3))
  seed, x = int(rng.integers(1000)), rng.standard_normal((9, dim))
  box = {}

  def new(s):
    box["f"] = NU.generate_random_nd_function(dim, out, seed=s, n_points=5)
  yield "function with a seed", lambda: new(seed), False
  yield "function: evaluate", lambda: box["f"](x), False
  yield "function without a seed", lambda: new(None), True
  yield "function: evaluate", lambda: box["f"](x), False


def of_blocks(rng):
  for _ in range(3):
    kind = str(rng.choice(c_scm.BLOCKS))
    _, call, _, d = c_scm.block(rng, kind, int(rng.integers(1, 40)), False)
    mean, cov = (rng.standard_normal(d), c_scm.psd(rng, d)) if d else (.5, 2.0)
    yield f"block: {kind}", lambda c=call, m=mean, v=cov: c(m, v), True
  n = int(rng.integers(2, 40))
  ps = c_scm.arrays(rng, n, 2)
  yield "block: logistic", lambda: SCM.logistic_bernoulli_cpd(
      ps, lambda q: np.reshape(q[0], (n, -1))[:, 0]), True
  yield "block: deterministic", lambda: SCM.deterministic_cpd(n, 2.0), False
  cat = rng.integers(0, 3, n)
  yield "block: categorical", lambda: SCM.categorical_conditioning(
      [cat, ps[0]], 0, [lambda k, q, j=j: np.random.normal(j, size=k)
                        for j in range(3)]), True


def of_runs(rng):
  """The single-arm runner and the plots."""
  tu = __import__("causal_effect_bandits.test_utils", fromlist=["x"])
  beta, gamma = rng.standard_normal(2), rng.standard_normal(2) * .4
  ci = [A.CIAlgorithm.CHI2, A.CIAlgorithm.CLT][int(rng.integers(2))]
  box = {}

  def make():
    box["g"] = D.LinearDataGenerator("g", 2, beta, .5, gamma=gamma)
    box["arms"] = [A.SampleSplittingArm(
        f"arm {j}", P.AIPWLinearLogistic(2), D.get_identity_fn(), ci,
        stable_splits=bool(j)) for j in range(2)]
  yield "new generator and arms", make, False
  yield "run_single_arm", lambda: tu.run_single_arm(
      box["arms"][0], box["g"], 200, 40), True
  yield "estimate_true_variance", lambda: tu.estimate_true_variance(
      box["g"], box["arms"][0], 300), True
  algo = [B.UniformAlgorithm, B.LUCBAlgorithm, B.SuccessiveEliminationAlgorithm][
      int(rng.integers(3))]

  def run():
    box["b"] = algo(box["arms"], box["g"], error_prob=.1, sample_limit=400,
                    units_per_round=30)
    box["b"].reset()
    box["out"] = box["b"].run()
    return box["out"]
  yield "bandit: run", run, True

  def plot():
    f = matplotlib.figure.Figure()
    ax = f.add_subplot()
    boot.plotting_utils.plot_bandit_results(ax, box["arms"], box["out"], 1)
    return [[l.get_label() if not l.get_label().startswith("_") else "",
             l.get_xydata()] for l in ax.lines]
  yield "plot", plot, False

  def plot3():
    fig = plt.figure()
    try:
      boot.plotting_utils.plot_3d_function(lambda v: v.sum(axis=1), 0, 1, 0, 2)
      return len(fig.axes)
    finally:
      plt.close(fig)
  if rng.uniform() < .3:
    yield "3-d plot", plot3, False


def of_large(rng):
  """The same with many units, many arms or many rounds."""
  n = int(10**rng.uniform(2.3, 4.4))
  cov = rng.integers(0, 3, (n, 2)) / 2.0
  exp = rng.integers(0, 2, n)
  d = D.ExpData(cov, exp, cov.sum(axis=1) + exp + rng.standard_normal(n))
  k, p = int(rng.integers(2, 20)), float(rng.uniform(.05, .95))
  yield "large k_fold", lambda: d.k_fold(k), True
  yield "large subsample", lambda: d.subsample(p), True
  which = int(rng.integers(4))
  e = [lambda: P.AIPWLinearLogistic(2), lambda: P.FrontDoorLinearFiniteZ(2),
       lambda: P.LinearParameterBinaryTreatment(2),
       lambda: P.LinearRegressionParameter(2)][which]()
  yield "large fit", lambda: e.fit(d), None
  yield "large score", lambda: e.calculate_score(d), None
  g = D.LinearDataGenerator("g", 2, np.ones(2), 1.0)
  yield "large generate", lambda: g.generate(n), True
  ci = [A.CIAlgorithm.CHI2, A.CIAlgorithm.CLT][int(rng.integers(2))]
  arm_list = [A.SampleSplittingArm(
      f"arm {j}", P.AIPWLinearLogistic(2), D.get_identity_fn(), ci, cost=1.0 + j % 3)
              for j in range(int(rng.integers(2, 25)))]
  yield "large update", lambda: arm_list[0].update(d, .1), None
  algo = [B.UniformAlgorithm, B.LUCBAlgorithm, B.SuccessiveEliminationAlgorithm][
      int(rng.integers(3))]
  box = {}

  def run():
    b = algo(arm_list, g, error_prob=.1, sample_limit=30 * 40, units_per_round=30)
    b.reset()
    box["out"] = b.run()
    return box["out"]
  yield "run of many rounds or arms", run, True

  def plot():
    f = matplotlib.figure.Figure()
    ax = f.add_subplot()
    boot.plotting_utils.plot_bandit_results(ax, arm_list, box["out"])
    return [l.get_xydata() for l in ax.lines]
  yield "large plot", plot, False


KINDS = {"objects": of_scripts, "large": of_large, "dag": of_dags, "paper": of_papers,
         "example": of_examples, "function": of_functions, "blocks": of_blocks,
         "runs": of_runs}


def perform(kind, seed, around=None):
  """Results and generator states of the operations of a case.

  around(name, thunk, draws) calls the thunk and judges what it did.
  """
  rng = np.random.default_rng(seed)
  np.random.seed(seed % 2**32)
  out = []
  for name, thunk, draws in KINDS[kind](rng):
    try:
      got = around(name, thunk, draws) if around else thunk()
    except (ValueError, ZeroDivisionError, np.linalg.LinAlgError) as e:
      if kind != "objects":  # there, unusable data is among the inputs
        raise
      got = f"{type(e).__name__}: {str(e)[:60]}"
    key, pos, _ = state()
    out.append([name, c_state.freeze(got),
                hashlib.sha1(key.tobytes()).hexdigest() + str(pos)])
  return out


def child():
  """Another process: the same cases in another order, with other hashes."""
  with open(sys.argv[1], "rb") as f:
    job = pickle.load(f)
  order = np.random.default_rng(job["order"]).permutation(len(job["cases"]))
  junk = [object() for _ in range(job["order"] % 1000 * 37)]  # other addresses
  out = {}
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    real, sys.stdout = sys.stdout, io.StringIO()
    for j in order:
      out[int(j)] = perform(*job["cases"][j])
      junk.append([None] * int(j))
    sys.stdout = real
  with open(sys.argv[2], "wb") as f:
    pickle.dump((out, hash("some text")), f)


def import_child():
  """What does importing the package change?"""
  before = settings()
  a, s0 = Audit(), state()
  a.on = True
  for m in ("arms", "bandits", "data", "example_scm", "nonlinear_utils",
            "paper_utils", "parameters", "plotting_utils", "scm", "test_utils"):
    __import__("causal_effect_bandits." + m)
  a.on = False
  diff = changed(before, settings())
  diff.pop("warning filters", None)  # a module asks for one when it is imported
  s1 = state()
  with open(sys.argv[1], "wb") as f:
    pickle.dump((diff, a.seen, np.array_equal(s0[0], s1[0]) and s0[1] == s1[1]), f)


def start(code, files, **env):
  e = dict(os.environ, PYTHONPATH=boot_path(), **env)
  return subprocess.Popen(
      [sys.executable, "-c", code] + files, env=e, stdin=subprocess.DEVNULL,
      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
      cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def boot_path():
  return os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# third-party packages are loaded before the settings are looked at; `harness.boot`
# would import the package, so that it is taken apart here
IMPORT = """
import os, sys
import harness
import importlib.util
spec = importlib.util.find_spec("harness.boot")
source = open(spec.origin).read()
head = source[:source.index("from causal_effect_bandits import arms")]
import types
m = types.ModuleType("harness.boot")
m.__file__ = spec.origin
exec(compile(head, spec.origin, "exec"), m.__dict__)
text = open(os.path.join(os.path.dirname(spec.origin), "c_process.py")).read()
for line in ("from harness import boot\\n", "from harness import c_scm\\n",
             "from harness import c_state\\n", "from harness import core\\n"):
  assert line in text
  text = text.replace(line, "")
a = text.index("A, B, D, P = ")
b = text.index("# --- the process's settings")
text = text[:a] + text[b:]
text = text[:text.index("KINDS = {")] + text[text.index("def import_child"):
                                            text.index("def start")]
ns = {"boot": m, "__name__": "child"}
exec(compile(text, "c_process.py", "exec"), ns)
ns["import_child"]()
"""


def c41(ctx):
  ctx.rule = (
      "sequences of operations of every part of the package, each under watch (state "
      "of the global generator before and after, process-wide settings, audit events "
      "for files and processes), and again in other processes with other hash seeds, "
      "in another order; distinct: (kind of case, operations)")
  ctx.assumptions = [
      "floating-point results agree to 1e-7 between processes",
      "the operations of third-party packages called by the package count as its own"]
  r = np.random.default_rng(ctx.seed + 41)
  share = {"objects": 150, "dag": 40, "paper": 14, "example": 20, "function": 8,
           "blocks": 40, "runs": 24, "large": 24}
  cases = [(k, int(r.integers(2**31))) for k, n in share.items()
           for _ in range(n * ctx.pick(1, 12))]
  audit = Audit()
  # unusual settings, so that a return to the default shows as well
  np.set_printoptions(precision=6, suppress=True, threshold=900)
  matplotlib.rcParams.update({"lines.linewidth": 1.3, "font.size": 9.5,
                              "figure.dpi": 90, "axes.grid": True,
                              "figure.figsize": (5.5, 4.0)})
  mine = {}
  others = []
  hashes = set()
  tmp = tempfile.mkdtemp(prefix="verif-c41-")
  try:
    if ctx.only is None or ctx.only.startswith("processes"):
      for j in range(ctx.pick(2, 4)):
        job, out = (os.path.join(tmp, f"{n}{j}") for n in ("job", "out"))
        with open(job, "wb") as f:
          pickle.dump(dict(cases=cases, order=int(r.integers(2**31))), f)
        others.append((start("from harness import c_process as c; c.child()",
                             [job, out], PYTHONHASHSEED=str(j * 17 + 3)), out))

    def watch(name, thunk, draws, info):
      # numpy's default here, so that a change to "ignore" shows
      with np.errstate(all="warn" if len(name) % 4 else "ignore"):
        return judge(name, thunk, draws, info)

    def judge(name, thunk, draws, info):
      before, s0 = settings(), state()
      audit.seen, audit.on = [], True
      try:
        out = thunk()
      finally:
        audit.on = False
        s1, after = state(), settings()
        words = drawn(s0, s1)
        info = dict(operation=name, **info)
        ctx.ok(words is not None, "an operation re-seeds the global generator",
               **info)
        ctx.ok(draws is not False or words == 0, "an operation that needs no random "
               "numbers, or has a seed of its own, draws from the global "
               "generator", words=words, **info)
        if draws:
          ctx.ok(words > 0, "an operation does not draw from the global generator",
                 **info)
        diff = changed(before, after)
        ctx.ok(not diff, "an operation changes a setting of the process",
               changed=diff, **info)
        ctx.ok(not audit.seen, "an operation writes a file, starts a process or the "
               "like", events=audit.seen[:5], **info)
        ctx.count("operations watched")
        ctx.count("operations that drew", words > 0)
        ctx.count("operations that did not draw", words == 0)
      return out

    def one(i):
      if i not in mine:
        kind, seed = cases[i]
        mine[i] = perform(kind, seed, lambda *a: watch(*a, dict(kind=kind,
                                                                case_seed=seed)))
        ctx.saw(kind, tuple(o[0] for o in mine[i]))
        ctx.count(f"cases of {kind}")
        ctx.sample(kind, operations=[o[0] for o in mine[i]])
      return mine[i]

    ctx.cases("operations", len(cases), lambda rng, i: one(i))
    # mpl's lazily built parts etc. are the harness's: everything was used above
    ctx.count("audit events", audit.events)

    def process(rng, j):
      del rng
      p, out = others[j]
      _, err = p.communicate(timeout=ctx.pick(700, 10000))
      ctx.ok(p.returncode == 0, "the cases end otherwise in another process",
             error=err.decode()[-600:])
      with open(out, "rb") as f:
        theirs, h = pickle.load(f)
      hashes.add(h)
      for i, (kind, seed) in enumerate(cases):
        a, b = one(i), theirs[i]
        for x, y in zip(a, b):
          ctx.ok(x[0] == y[0] and c_state.equal(x[1], y[1]), "an operation has "
                 "another result in another process", kind=kind, case_seed=seed,
                 operation=x[0], got=y[1], here=x[1])
          ctx.ok(x[2] == y[2], "an operation draws another number of random values "
                 "in another process", kind=kind, case_seed=seed, operation=x[0])
          ctx.count("results compared between processes")

    def process_case(rng, j):
      try:
        process(rng, j)
      except subprocess.TimeoutExpired:
        raise core.Inconclusive("another process takes too long") from None

    ctx.cases("processes", len(others), process_case)

    def importing(rng, j):
      del rng, j
      out = os.path.join(tmp, "import")
      p = start(IMPORT, [out])
      _, err = p.communicate(timeout=600)
      ctx.ok(p.returncode == 0, "the package cannot be imported",
             error=err.decode()[-600:])
      with open(out, "rb") as f:
        diff, seen, same = pickle.load(f)
      ctx.ok(not diff, "importing the package changes a setting of the process",
             changed=diff)
      ctx.ok(not seen, "importing the package writes a file, starts a process or the "
             "like", events=seen[:5])
      ctx.ok(same, "importing the package uses the global generator")
      ctx.count("imports watched")

    ctx.cases("import", 1, importing)
    ctx.count("hash seeds", len(hashes))
  finally:
    for p, _ in others:
      if p.poll() is None:
        p.kill()
        p.wait()
    for n in os.listdir(tmp):
      os.unlink(os.path.join(tmp, n))
    os.rmdir(tmp)
  ctx.require(**{"operations watched": 800, "operations that drew": 200,
                 "operations that did not draw": 200, "imports watched": 1,
                 "results compared between processes": 1500, "hash seeds": 2})

