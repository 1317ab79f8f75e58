"""Monitors of C32-C34: paper experiments, random functions and plots."""
import contextlib
import functools
import math
import re

import numpy as np
import scipy.stats

from harness import boot
from harness import scripted as S

A, B, D, P = boot.arms, boot.bandits, boot.data, boot.parameters
PU, NU, PL = boot.paper_utils, boot.nonlinear_utils, boot.plotting_utils


@contextlib.contextmanager
def recording_fits(log):
  """Records the data every estimator of the two families is fitted to."""
  saved = []
  for cls in (P.AIPW, P.FrontDoorLinearFiniteZ):
    def wrap(original):
      def fit(self, d):
        log.append((self, d))
        return original(self, d)
      return fit
    saved.append((cls, cls.fit))
    cls.fit = wrap(cls.fit)
  try:
    yield
  finally:
    for cls, f in saved:
      cls.fit = f


def parse(name):
  """The variables in the name of a back-door arm, e.g. Z_1V_2 or $Z_1V_2$."""
  got = re.findall(r"([ZV])_?\{?(\d+)\}?", name)
  rest = re.sub(r"([ZV])_?\{?(\d+)\}?", "", name).strip("$ ,")
  return None if rest or not got else [a + b for a, b in got]


@functools.lru_cache(maxsize=None)
def factors(delta, units):
  """Chi-square bounds over the estimate, a row for each number of scores."""
  f = np.arange(1, units)[:, None]
  return f / scipy.stats.chi2.ppf([[1 - delta / 2, delta / 2]], f)


def check_construction(ctx, arm, kind, delta, units, info):
  """Is the arm's interval after its first update one of the construction asked for?

  Args:
    ctx: the context
    arm: the arm
    kind: the construction asked for
    delta: the level of the update
    units: how many units the arm got
    info: details for reports
  """
  low, high = arm.ci
  v = arm.var_est
  # however many units were held out
  chi2 = np.any(np.all(np.isclose(
      [low, high], v * factors(delta, units), rtol=1e-9, atol=0), axis=1))
  if kind is A.CIAlgorithm.CHI2:
    good = chi2
  elif kind is A.CIAlgorithm.CLT:
    good = not chi2 and np.isfinite(high) and (
        low == 0 or np.isclose(high + low, 2 * v))
  else:
    good = not chi2 and low == 0 and (
        np.isinf(high) or high - v >= math.sqrt(math.log(4 / delta) / units))
  ctx.ok(good or not v > 0, "the interval of an arm is not of the construction "
         "asked for", arm=arm.name, construction=str(kind), ci=arm.ci, var_est=v,
         **info)
  ctx.count("intervals of a construction", v > 0)


def check_arms(ctx, out, m, z_dim, v_dim, costs, data, column_of, info, kind=None):
  """Updates every arm with data and compares what it sees with its name.

  Args:
    ctx: the context
    out: (model, arms, bandits...) as returned by the code under test
    m: number of back-door paths
    z_dim: dimensions of the Z
    v_dim: dimensions of the V
    costs: cost of a Z, a V and of Z0
    data: data from the model
    column_of: maps a column of fitted covariates to a column of the model's data
    info: details for reports
    kind: the construction of intervals asked for, if one was
  """
  model, arm_list = out[0], out[1]
  layout = {}
  start = 0
  dims = {f"Z{i}": z_dim[i] for i in range(m + 1)}
  dims.update({f"V{i}": v_dim[i] for i in range(1, m + 1)})
  for v in model.cov_variables:
    layout[str(v)] = list(range(start, start + dims[str(v)]))
    start += dims[str(v)]
  ctx.ok(data.cov.shape[1] == start, "the model's covariates do not have the "
         "dimensions asked for", got=data.cov.shape[1], expected=start, **info)
  ctx.ok(len(arm_list) == 2**m + 1, "wrong number of arms", got=len(arm_list),
         **info)
  seen = {}
  for arm in arm_list:
    log = []
    before = [np.array(f) for f in (data.cov, data.exp, data.rsp)]
    with recording_fits(log):
      arm.update(data, .05)
    ctx.ok(all(np.array_equal(f, g) for f, g in zip(
        (data.cov, data.exp, data.rsp), before)), "updating an arm modified the "
           "data", arm=arm.name, **info)
    ctx.ok(log, "an arm does not fit its estimator", arm=arm.name, **info)
    est, d = log[-1]
    cols = []
    for j in range(d.cov.shape[1]):
      c = column_of(d, j)
      ctx.ok(c is not None, "an arm sees a column that is not one of the model's "
             "covariates", arm=arm.name, column=j, values=d.cov[:4, j], **info)
      cols.append(c)
    if isinstance(est, P.FrontDoorLinearFiniteZ):
      key = "front-door"
      want, cost = layout["Z0"], costs[2]
    else:
      names = parse(arm.name)
      ctx.ok(names is not None, "the name of a back-door arm does not name its "
             "variables", name=arm.name, **info)
      ctx.ok(sorted(int(v[1:]) for v in names) == list(range(1, m + 1)),
             "the name does not choose Z_i or V_i for every i", name=arm.name,
             **info)
      if "latex" in info:
        quoted = arm.name.startswith("$") and arm.name.endswith("$")
        ctx.ok(quoted if info["latex"] else "$" not in arm.name, "the name of an "
               "arm is not in the notation asked for", name=arm.name, **info)
      key = tuple(sorted(names, key=lambda v: int(v[1:])))
      want = sum((layout[v] for v in names), [])
      cost = sum(costs[0] if v[0] == "Z" else costs[1] for v in names)
    ctx.ok(key not in seen, "two arms are the same", name=arm.name, **info)
    seen[key] = arm
    ctx.ok(sorted(cols) == sorted(want), "an arm does not see exactly the columns "
           "of the variables in its name", name=arm.name, got=cols, expected=want,
           layout=layout, **info)
    ctx.close(arm.cost, cost, "an arm's cost is not the sum of the costs of its "
              "variables", name=arm.name, **info)
    ctx.ok(np.isfinite(arm.ate) and est.has_enough_samples() and
           arm.get_num_units() == len(data),
           "an arm cannot be updated with data from the model", name=arm.name,
           ate=arm.ate, units=arm.get_num_units(), **info)
    if kind is not None:
      check_construction(ctx, arm, kind, .05, len(data), info)
    ctx.count("arms checked")
  ctx.ok("front-door" in seen and len(seen) == 2**m + 1,
         "not every choice of Z_i or V_i has an arm", arms=list(seen), **info)
  for arm in arm_list:
    arm.reset()


def check_bandits(ctx, rng, out, limit, units, info, runs=True):
  model, arm_list = out[0], out[1]
  kinds = (B.LUCBAlgorithm, B.SuccessiveEliminationAlgorithm,
           B.UniformAlgorithm)
  for k, b in zip(kinds, out[2:]):
    ctx.ok(isinstance(b, k), "the bandits are not LUCB, successive elimination "
           "and uniform", got=type(b).__name__, **info)
  ctx.ok(len(out) == 5, "another number of results", **info)
  if not runs:
    return
  asked = []
  original = type(model).generate

  def generate(self, n):
    asked.append((self, n))
    return original(self, n)

  type(model).generate = generate
  try:
    for b in out[2:]:
      for arm in arm_list:
        arm.reset()
      asked.clear()
      r = b.run()
      name = type(b).__name__
      ctx.ok(set(r.samples_by_arm) == set(arm_list),
             "a bandit does not run over the returned arms", bandit=name, **info)
      ctx.ok(asked and all(s is model for s, _ in asked),
             "a bandit does not use the returned model", bandit=name, **info)
      ctx.ok(all(n == units for _, n in asked), "a bandit uses another batch size",
             bandit=name, asked=[n for _, n in asked][:5], **info)
      c = r.cum_samples
      ctx.ok(all(v <= limit for v in c[:-1]), "a bandit exceeds its budget",
             bandit=name, cum_samples=c, **info)
      ctx.ok(c[-1] > limit or len(r.best_arm) == 1, "a bandit stops before its "
             "budget is used", bandit=name, cum_samples=c, **info)
      ctx.count("bandit runs")
      ctx.saw(name, tuple(c))
  finally:
    type(model).generate = original
  del rng


# --- C32 ----------------------------------------------------------------------
def c32(ctx):
  ctx.rule = (
      "experiments with 1-4 back-door paths and random dimensions and costs, built "
      "on tagged mechanisms and by the Section 5.1 and 5.2 constructors; every arm "
      "is updated and the columns its estimator is fitted to are identified; "
      "distinct: (paths, dimensions, costs) and bandit runs")

  def case(rng, i):
    m = int(rng.integers(1, 5))
    many = i % 45 == 22
    if many:
      m = int(rng.integers(9, 12)) if rng.integers(2) else 10
    z_dim = [int(v) for v in rng.integers(1, 4, m + 1)]
    v_dim = [0] + [int(v) for v in rng.integers(1, 4, m)]
    if many or i % 3 == 0:
      z_dim = [1] * (m + 1)
      v_dim = [0] + [1] * m
    costs = [float(rng.choice([.5, 1, 2, 7])), float(rng.choice([.25, 1, 3])),
             float(rng.choice([.5, 1, 11]))]
    limit, units = int(rng.integers(50, 900)), int(rng.integers(20, 80))
    if i % 4 == 3:  # few units per round
      limit, units = int(rng.integers(10, 60)), int(rng.integers(2, 11))
    if i % 8 == 6:  # budgets of a few units
      limit, units = int(rng.integers(1, 14)), int(rng.integers(1, 4))
    latex = bool(rng.integers(2))
    names = [f"Z{j}" for j in range(m + 1)] + [f"V{j}" for j in range(1, m + 1)]
    dims = dict(zip(names, z_dim + v_dim[1:]))
    base = {v: 1000 * (j + 1) for j, v in enumerate(names)}
    count = [0]

    def make(v):
      def f(n, parents):
        del parents
        if v == "X":
          return np.arange(n) % 2
        u = np.arange(n) * 1.0
        if v == "Y":
          return u
        # a few different values per column, the column in the hundreds
        return np.column_stack([base[v] + 100 * c + (u * (c + 3) // 2) % 5
                                for c in range(dims[v])])
      return f

    cpds = {v: make(v) for v in names + ["X", "Y"]}
    ci = list(A.CIAlgorithm)[i % 3]
    np.random.seed(int(rng.integers(2**31)))
    out = PU.generate_example_from_cpd(
        z_dim, v_dim, costs[0], costs[1], costs[2], m, cpds, limit, units, latex,
        ci)
    info = dict(paths=m, z_dim=z_dim, v_dim=v_dim, costs=costs, latex=latex)
    model = out[0]
    data = model.generate(80)

    def column_of(d, j):
      col = np.asarray(d.cov[:, j])
      tag = math.floor(col.min() / 100) * 100
      hits = [c for c in range(data.cov.shape[1])
              if math.floor(data.cov[:, c].min() / 100) * 100 == tag]
      # the units' values belong to their exposures and responses
      if len(hits) != 1:
        return None
      u = np.asarray(d.rsp).astype(int)
      if not np.array_equal(data.cov[u, hits[0]], col) or not np.array_equal(
          np.asarray(d.exp), u % 2):
        return None
      return hits[0]

    check_arms(ctx, out, m, z_dim, v_dim, costs, data, column_of, info, ci)
    check_bandits(ctx, rng, out, limit, units, info, runs=m < 4)
    ctx.saw(m, tuple(z_dim), tuple(v_dim), tuple(costs))
    ctx.sample("experiment", names=[a.name for a in out[1]], **info)
    ctx.count("experiments")
    del count

  ctx.cases("tagged", ctx.pick(90, 1500), case)

  def real(rng, i):
    nonlinear = i % 3 == 2
    m = int(rng.integers(1, 3 if nonlinear else 4))
    hi = 2 if nonlinear else 4
    z_dim = [int(v) for v in rng.integers(1, hi, m + 1)]
    v_dim = [0] + [int(v) for v in rng.integers(1, hi, m)]
    costs = [float(v) for v in rng.choice([.5, 1, 2, 3, 5], 3)]
    limit, units = int(rng.integers(200, 1500)), int(rng.integers(50, 150))
    if i % 3 == 0 and m < 3:  # many units per round
      units = int(10**rng.uniform(3, 3.8 if nonlinear else 4.3))
      limit = int(units * rng.uniform(.5, 12))
      ctx.count("paper experiments with large rounds")
    f = PU.get_section_5_2_example if nonlinear else PU.get_section_5_1_example
    latex = bool(rng.integers(2))
    out = f(z_dim, v_dim, int(rng.integers(1000)), costs[0], costs[1], costs[2], m,
            limit, units, latex)
    info = dict(section="5.2" if nonlinear else "5.1", paths=m, z_dim=z_dim,
                v_dim=v_dim, costs=costs, latex=latex)
    data = out[0].generate(400)
    if not 10 <= data.exp.sum() <= 390:
      return

    def column_of(d, j):
      col = set(np.asarray(d.cov[:, j]).tolist())
      hits = [c for c in range(data.cov.shape[1])
              if col <= set(data.cov[:, c].tolist())]
      return hits[0] if len(hits) == 1 else None

    check_arms(ctx, out, m, z_dim, v_dim, costs, data, column_of, info)
    check_bandits(ctx, rng, out, limit, units, info, runs=m < 3)
    ctx.count("paper experiments")
    ctx.saw("real", nonlinear, m, tuple(z_dim), tuple(v_dim))

  ctx.cases("paper", ctx.pick(18, 240), real, budget_s=ctx.pick(120, 1200))
  ctx.require(**{"intervals of a construction": 200, "arms checked": 300, "experiments": 50, "bandit runs": 60,
                 "paper experiments": 6})


# --- C33 ----------------------------------------------------------------------
def c33(ctx):
  ctx.rule = (
      "pairs of instances of the Section 5.1 and 5.2 models and of random "
      "functions made with the same seed under different states of the global "
      "generator, and with different seeds; distinct: (kind, seed, dimensions)")

  def draw(cpds, m, z_dim, v_dim, seed, n=200):
    """A sample of every variable from the same stream of random numbers."""
    out = {}
    for i in range(1, m + 1):
      for v, ps in ((f"V{i}", []), (f"Z{i}", [f"V{i}"])):
        np.random.seed(seed + 7 * i)
        out[v] = cpds[v](n, [out[p] for p in ps])
    np.random.seed(seed + 1)
    out["X"] = cpds["X"](n, [out[f"V{i}"] for i in range(1, m + 1)])
    np.random.seed(seed + 2)
    out["Z0"] = cpds["Z0"](n, [out["X"]])
    np.random.seed(seed + 3)
    out["Y"] = cpds["Y"](n, [out["Z0"]] + [out[f"Z{i}"]
                                         for i in range(1, m + 1)])
    del z_dim, v_dim
    return out

  def another(rng, seed, top=2**40):
    """Another seed, often one that looks similar to a careless eye."""
    kind = int(rng.integers(5))
    out = seed + (int(rng.integers(1, 1000)), 2**int(rng.integers(1, 33)),
                  10**int(rng.integers(1, 10)), 2**32, -1)[kind]
    return out if 0 <= out < top and out != seed else seed + 1

  x_pairs, x_same = [0], [0]

  def disturb(rng):
    np.random.seed(int(rng.integers(2**31)))
    np.random.uniform(size=int(rng.integers(1, 50)))

  def model(rng, i):
    nonlinear = i % 6 == 5
    m = int(rng.integers(1, 3 if nonlinear else 4))
    hi = 3 if nonlinear else 4
    z_dim = [int(v) for v in rng.integers(1, hi, m + 1)]
    v_dim = [0] + [int(v) for v in rng.integers(1, hi, m)]
    f = PU.get_section_5_2_cpds if nonlinear else PU.get_section_5_1_cpds
    seed = int(rng.choice([0, 1, 2, int(rng.integers(10**6))]))
    other = another(rng, seed)
    if nonlinear:  # functions of two-dimensional inputs are slow to fit
      z_dim = [min(v, 2 if rng.uniform() < .3 else 1) for v in z_dim]
      v_dim = [min(v, 2 if rng.uniform() < .3 else 1) for v in v_dim]
      if i % 18 == 5:  # three dimensions are slower yet, so now and then
        m, z_dim, v_dim = 1, [1, 3], [0, 1]
        if rng.uniform() < .3:
          z_dim, v_dim = ([3, 1], [0, 1]) if rng.integers(2) else ([1, 1], [0, 3])
    info = dict(section="5.2" if nonlinear else "5.1", paths=m, seed=seed,
                z_dim=z_dim, v_dim=v_dim)
    args = (z_dim, v_dim, m)
    disturb(rng)
    first = f(*args, seed)
    disturb(rng)
    diff = f(*args, other)
    disturb(rng)
    second = f(*args, seed)
    s = int(rng.integers(2**30))
    a, b, c = (draw(q, m, z_dim, v_dim, s) for q in (first, second, diff))
    for v in a:
      ctx.ok(np.array_equal(a[v], b[v]), "two models with the same seed differ",
             variable=v, first=a[v][:3], second=b[v][:3], **info)
      ctx.count("mechanisms compared")
    z0 = lambda q: np.unique(np.asarray(q["Z0"]).reshape(200, -1), axis=0)
    ctx.ok(not np.array_equal(z0(a), z0(c)), "another seed gives the same mediator "
           "values", other=other, **info)
    for v in [f"Z{j}" for j in range(1, m + 1)] + ["Y"]:
      ctx.ok(not np.array_equal(a[v], c[v]), "another seed gives the same mechanism",
             variable=v, other=other, **info)
    # a treatment is binary, so a pair may agree by chance, but not all pairs
    x_pairs[0] += 1
    x_same[0] += int(np.array_equal(a["X"], c["X"]))
    ctx.ok(x_pairs[0] < 12 or x_same[0] < x_pairs[0],
           "other seeds never give another treatment mechanism", pairs=x_pairs[0])
    ctx.saw(info["section"], seed, tuple(z_dim), tuple(v_dim))
    ctx.sample("model", y=a["Y"][:3], other_y=c["Y"][:3], **info)
    ctx.count("models compared")
    ctx.count("nonlinear models", nonlinear)

  ctx.cases("models", ctx.pick(60, 900), model, budget_s=ctx.pick(150, 3000))

  def example(rng, i):
    # the same through the complete examples
    nonlinear = i % 4 == 3
    m = int(rng.integers(1, 3))
    z_dim, v_dim = [2] + [1] * m, [0] + [1] * m
    f = PU.get_section_5_2_example if nonlinear else PU.get_section_5_1_example
    seed = int(rng.integers(0, 1000)) if i % 3 else i % 2
    outs = []
    s = int(rng.integers(2**30))
    other = another(rng, seed)
    for sd in (seed, seed, other):
      disturb(rng)
      out = f(z_dim, v_dim, sd, 1.0, 1.0, 1.0, m, 1000, 100)
      np.random.seed(s)
      outs.append(out[0].generate(100))
    info = dict(section="5.2" if nonlinear else "5.1", paths=m, seed=seed)
    ctx.ok(np.array_equal(outs[0].cov, outs[1].cov) and
           np.array_equal(outs[0].exp, outs[1].exp) and
           np.array_equal(outs[0].rsp, outs[1].rsp),
           "two examples with the same seed have different models", **info)
    ctx.ok(not np.array_equal(outs[0].rsp, outs[2].rsp),
           "examples with different seeds have the same model", other=other,
           **info)
    ctx.count("examples compared")

  ctx.cases("examples", ctx.pick(12, 120), example, budget_s=ctx.pick(100, 1500))

  def function(rng, i):
    dim, out = int(rng.integers(1, 3)), int(
        rng.integers(1, 4) if rng.uniform() < .8 else rng.integers(4, 9))
    seed = int(rng.choice([0, 1, int(rng.integers(10**6))]))
    kw = dict(dim=dim, out_dim=out, n_points=int(rng.choice([4, 6, 8])))
    if rng.integers(2):
      import sklearn.gaussian_process as gp
      # a kernel with free parameters may be fitted as flat
      kw["kernel"] = gp.kernels.RBF(float(rng.uniform(.3, 2)),
                                    length_scale_bounds="fixed")
      kw["alpha"] = float(rng.choice([.01, 1, 100]))
    if rng.integers(2):
      kw.update(min_x=-2, max_x=2)
    info = {k: repr(v) for k, v in kw.items()}
    info["seed"] = seed
    disturb(rng)
    f = NU.generate_random_nd_function(seed=seed, **kw)
    if rng.integers(2):
      # functions that share some, but not all arguments
      near = dict(kw)
      which = int(rng.integers(3)) if "kernel" in kw else 2
      if which == 0:
        near["kernel"] = gp.kernels.RBF(float(rng.uniform(3, 5)),
                                        length_scale_bounds="fixed")
      elif which == 1:
        near["alpha"] = kw["alpha"] * 7
      else:
        near.update(dict(min_x=-5, max_x=3) if "min_x" in kw else
                    dict(min_x=-3, max_x=5))
      other = NU.generate_random_nd_function(seed=seed, **near)
      w = rng.uniform(-1, 1, (30, dim))
      u, v = other(w), f(w)
      if np.ptp(u, axis=0).max() > 1e-2 * np.abs(u).max():
        ctx.ok(np.abs(u - v).max() > 1e-5 * np.abs(u).max(),
               "functions of different kernels, alphas or intervals are the same",
               other={k: repr(v) for k, v in near.items()}, **info)
      ctx.count("functions with other kernels or intervals")
    disturb(rng)
    o = NU.generate_random_nd_function(seed=another(rng, seed, 2**32), **kw)
    g = NU.generate_random_nd_function(seed=seed, **kw)
    n = int(rng.integers(2, 40) if i % 6 else rng.integers(1000, 9000))
    x = rng.uniform(-1, 1, (n, dim))
    xc = np.array(x)
    y = f(x)
    ctx.ok(np.array_equal(x, xc), "evaluating a function modified its input", **info)
    ctx.ok(np.shape(y) == (n, out) and np.all(np.isfinite(y)),
           "a function does not map (n, dim) to (n, out_dim)", got=np.shape(y),
           expected=(n, out), **info)
    scale = max(np.abs(y).max(), 1e-12)
    t = dict(rtol=1e-7, atol=1e-7 * scale)
    ctx.close(g(x), y, "two functions with the same seed differ", **t, **info)
    disturb(rng)
    ctx.close(f(x), y, "a function changes from call to call", **t, **info)
    p = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    ctx.close(f(x[p]), y[p], "the value at a row depends on the other rows", **t,
              **info)
    far = np.concatenate([x, rng.uniform(-30, 30, (3, dim))])
    ctx.close(f(far)[:n], y, "the value at a row depends on the other rows", **t,
              **info)
    big = rng.uniform(-1, 1, (30, dim))
    v = f(big)
    flat = np.ptp(v, axis=0) < 1e-3 * np.abs(v).max(axis=0)
    if "kernel" in kw:
      ctx.ok(not flat.any(), "a component is constant", **info)
    if not flat.all():
      ctx.ok(np.abs(o(big) - v).max() > 1e-5 * np.abs(v).max(),
             "functions with different seeds are the same", **info)
    for a in range(out):
      for b in range(a):
        if flat[a] or flat[b]:
          continue
        ctx.ok(np.abs(v[:, a] - v[:, b]).max() > 1e-5 * np.abs(v[:, a]).max(),
               "two output components are the same function", components=(a, b),
               **info)
        ctx.count("component pairs")
    ctx.count("functions compared")
    ctx.saw("function", seed, dim, out, tuple(info.values()))

  ctx.cases("functions", ctx.pick(60, 900), function, budget_s=ctx.pick(150, 3000))
  ctx.require(**{"models compared": 20, "nonlinear models": 3,
                 "examples compared": 4, "functions compared": 20,
                 "component pairs": 15})


# --- C34 ----------------------------------------------------------------------
def series(line):
  return [tuple(p) for p in np.asarray(line.get_xydata(), dtype=float)]


def same_series(a, b):
  a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
  return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12,
                                            equal_nan=True)


def c34(ctx):
  import matplotlib.pyplot as plt
  from mpl_toolkits.mplot3d import axes3d
  ctx.rule = (
      "histories of bandit runs and random histories (with infinite and NaN "
      "entries) plotted for random subsets of arms and numbers of dropped rounds; "
      "3-d plots of asymmetric functions; the artists of the figure are read back; "
      "distinct: (arms, rounds, dropped)")

  def history(rng, big):
    if not big and rng.uniform() < .5:
      s = S.scenario(rng, ("grid", "shrink", "late", "zero"), finite=True)
      r = S.run_scenario(s)
      if not r.overrun:
        return r.arms, r.out
    k, n = int(rng.integers(1, 6)), int(rng.integers(1, 30))
    if rng.uniform() < .06:  # a long run
      n = int(np.exp(rng.uniform(np.log(30), np.log(1500))))
    if rng.uniform() < .06:  # many arms
      k = int(rng.integers(6, 41))
    if big:
      k, n = int(rng.integers(25, 60)), int(rng.integers(1100, 2500))
    names = S.arm_names(rng, k)
    arm_list = [S.ScriptArm(j, [(0.0, 1.0, .5)], 1.0, None, names[j])
                for j in range(k)]
    h = [{}, {}, {}]
    for a in arm_list:
      v = rng.uniform(0, 10, n)
      lo, hi = v - rng.uniform(0, 1, n), v + rng.uniform(0, 1, n)
      late = int(rng.integers(0, n + 1)) if rng.uniform() < .5 else 0
      lo[:late], hi[:late] = 0, np.inf
      if rng.integers(2):  # else in the burn-in, where the estimates are finite
        v[:late] = np.inf
      for d, x in zip(h, (lo, hi, v)):
        d[a] = [float(q) for q in x]
    samples = {a: [5] * n for a in arm_list}
    cum = [int(c) for c in np.cumsum(rng.integers(1, 50, n))]
    return arm_list, B.BanditData(h[0], h[1], h[2], samples, cum, arm_list[:1])

  def frozen(o):
    return repr([[(a.name, [repr(float(x)) for x in d[a]]) for a in d] for d in (
        o.lcb_by_arm, o.ucb_by_arm, o.var_est_by_arm, o.samples_by_arm)]) + repr(
            list(o.cum_samples)) + repr([a.name for a in o.best_arm])

  def case(rng, i, big=False):
    arm_list, o = history(rng, big)
    n = len(o.cum_samples)
    k = int(rng.choice([0, 0, 1, int(rng.integers(0, n + 3))]))
    sub = [arm_list[j] for j in rng.permutation(len(arm_list))[
        :len(arm_list) if big else int(rng.integers(1, len(arm_list) + 1))]]

    def some(points):  # all points, unless they are too many to look at
      if not big or len(points) < 8:
        return points
      return [points[j] for j in rng.choice(len(points), 8, replace=False)]

    before = frozen(o)
    fig, ax = plt.subplots()
    try:
      if k == 0 and rng.integers(2):
        back = PL.plot_bandit_results(ax, sub, o)
      elif k == 0 and rng.integers(2):
        back = PL.plot_bandit_results(ax=ax, arm_list=sub, bdata=o,
                                      initial_points_to_ignore=0)
      else:
        back = PL.plot_bandit_results(ax, sub, o, k)
      info = dict(arms=[a.name for a in sub], rounds=n, dropped=k)
      ctx.ok(frozen(o) == before, "plotting altered the results", **info)
      ctx.ok(back is ax, "the axes are not returned", got=type(back).__name__,
             **info)
      lines = [(l.get_label(), series(l)) for l in ax.lines]
      x = list(o.cum_samples)[k:]
      fills = []
      for c in ax.collections:
        for path in c.get_paths():
          fills.append(np.asarray(path.vertices, dtype=float))
      used = set()
      for a in sub:
        want = {}
        for what, h in (("variance estimates", o.var_est_by_arm),
                        ("lower bounds", o.lcb_by_arm),
                        ("upper bounds", o.ucb_by_arm)):
          want[what] = list(zip(x, list(h[a])[k:]))
        named = [j for j, (name, _) in enumerate(lines) if name == a.name]
        # different arms may share a name
        ctx.ok(len(named) == sum(b.name == a.name for b in sub),
               "an arm does not have one curve with its name",
               arm=a.name, curves=len(named), **info)
        own = [j for j in named if j not in used
               and same_series(lines[j][1], want["variance estimates"])]
        ctx.ok(own, "the curve with the arm's name is not its variance estimates",
               arm=a.name, got=lines[named[0]][1][:6],
               expected=want["variance estimates"][:6], **info)
        used.add(own[0])
        for what in ("lower bounds", "upper bounds"):
          hit = [j for j, (_, p) in enumerate(lines)
                 if j not in used and same_series(p, want[what])]
          if hit:
            used.add(hit[0])
            continue
          looked = some(want[what])
          ctx.ok(any(all(np.any(np.all(np.isclose(f, p), axis=1)) for p in
                         looked) for f in fills) or not looked,
                 f"the {what} of an arm are not drawn", arm=a.name,
                 expected=want[what][:6], **info)
        ctx.count("curves checked", 3)
      ctx.ok(len(used) == len(lines), "something else is drawn",
             lines=len(lines), used=len(used), **info)
      # the shaded bands lie between the bounds
      corner = {}
      for a in sub:
        for t in range(k, n):
          corner.setdefault(float(o.cum_samples[t]), []).extend(
              [o.lcb_by_arm[a][t], o.ucb_by_arm[a][t]])
      for f in fills:
        for px, py in some(f):
          if np.isfinite(py):
            ctx.ok(any(np.isclose(py, c) for c in corner.get(float(px), [])),
                   "a shaded band is not between the bounds", point=(px, py),
                   **info)
            ctx.count("band corners")
      texts = [t.get_text() for t in ax.get_legend().get_texts()]
      ctx.ok(sorted(texts) == sorted(a.name for a in sub),
             "the legend does not list the arms", legend=texts, **info)
      ctx.saw(len(sub), n, k)
      ctx.sample("plot", points=lines[0][1][:3], **info)
      ctx.count("plots checked")
    finally:
      plt.close(fig)
    del i

  ctx.cases("histories", ctx.pick(150, 3000), case)
  ctx.cases("many arms and rounds", ctx.pick(2, 10),
            lambda rng, i: case(rng, i, True))

  def surface(rng, i):
    xl, yl = float(rng.uniform(-5, 2)), float(rng.uniform(-5, 2))
    xh, yh = xl + float(rng.uniform(.5, 6)), yl + float(rng.uniform(.5, 6))
    a, b = rng.standard_normal(2)
    shape = i % 2

    def f(q):
      q = np.asarray(q)
      v = np.sin(a * q[:, 0]) + b * q[:, 1]**2 + q[:, 0] * .3
      return v if shape == 0 else v[:, None]

    got = []
    original = axes3d.Axes3D.plot_surface

    def spy(self, x, y, z, *args, **kw):
      got.append((np.array(x), np.array(y), np.array(z)))
      if i < 2:
        return original(self, x, y, z, *args, **kw)

    axes3d.Axes3D.plot_surface = spy
    fig = plt.figure()
    try:
      PL.plot_3d_function(f, xl, xh, yl, yh)
    finally:
      axes3d.Axes3D.plot_surface = original
      plt.close("all")
    info = dict(x=(xl, xh), y=(yl, yh))
    ctx.ok(len(got) == 1, "no surface is drawn", surfaces=len(got), **info)
    x, y, z = got[0]
    x, y = np.broadcast_arrays(x, y)
    ctx.ok(x.shape == z.shape, "the grid and the surface have different shapes",
           **info)
    want = np.asarray(f(np.c_[x.ravel(), y.ravel()])).reshape(x.shape)
    ctx.close(z, want, "the surface is not f at the plotted grid points", **info)
    ctx.close([x.min(), x.max(), y.min(), y.max()], [xl, xh, yl, yh],
              "the grid does not span the asked ranges", **info)
    ctx.ok(len(np.unique(x)) > 10 and len(np.unique(y)) > 10, "the grid is too "
           "coarse", **info)
    ctx.count("grid points", x.size)
    ctx.saw("surface", xl, yl)
    del fig

  ctx.cases("surfaces", ctx.pick(40, 400), surface)
  ctx.require(**{"plots checked": 50, "curves checked": 200, "grid points": 10000})
