"""Monitors of C38-C40: whole problems, the notebook, the single-arm runner."""
import ast
import importlib
import inspect
import itertools
import json
import math
import os
import re

import numpy as np
from scipy import stats as st

from harness import boot
from harness import scripted as S

A, B, D, P = boot.arms, boot.bandits, boot.data, boot.parameters


# --- C38 ----------------------------------------------------------------------
class Scores:
  """An estimator whose score of a unit is its response."""

  def reset(self):
    pass

  def fit(self, d):
    pass

  def has_enough_samples(self):
    return True

  def calculate_score(self, d):
    return np.asarray(d.rsp)

  def calculate_cs_width(self, delta, sub_g, rho):
    del delta, sub_g, rho
    return 0.0


def linear_problem(rng):
  """A linear generator and what is known about adjusting for its columns.

  The first c covariates confound; every set that contains them is valid. With
  the residual variance v of the response given the exposure and the set, the
  asymptotic variance of the estimator is v E[1 / (e (1 - e))] and the fourth
  moment of its scores is 3 v^2 E[1 / e^3 + 1 / (1 - e)^3].
  """
  c, free = int(rng.integers(0, 3)), int(rng.integers(1, 4))
  d = c + free
  beta = np.concatenate([rng.uniform(-1, 1, c), rng.choice([-1, 1], free) *
                         rng.uniform(.8, 2.5, free)])
  gamma = np.concatenate([rng.choice([-1, 1], c) * rng.uniform(.3, .7, c),
                          np.zeros(free)])
  tau = float(rng.uniform(-2, 2))
  sigma = float(rng.choice([.5, 1, 2]))
  g = D.LinearDataGenerator(
      "lin", d, beta, tau, lambda n: sigma * np.random.standard_normal(n), gamma)
  s = math.sqrt(sum(gamma**2))
  x, w = np.polynomial.hermite_e.hermegauss(60)
  inv = float((w * (2 + 2 * np.cosh(s * x))).sum() / w.sum())
  cube = float((w * 2 * (1 + np.exp(s * x))**3).sum() / w.sum())

  def variance(cols):
    return inv * (sigma**2 + sum(beta[j]**2 for j in range(d) if j not in cols))

  return g, c, d, tau, variance, 3 * cube / inv**2


def front_variance(p):
  """The exact effect and asymptotic variance in the front-door example.

  The error of the variance estimate is mostly that of the fitted tables; a
  generous kurtosis covers it.
  """
  g = lambda x: 1 / (1 + math.exp(-x))
  u1 = p["mu_u"]
  px = {(x, u): (g(p["alpha_1"] * u) if x else 1 - g(p["alpha_1"] * u))
        for x in (0, 1) for u in (0, 1)}
  pz = {(z, x): (g(p["beta"] * x) if z else 1 - g(p["beta"] * x))
        for z in (0, 1) for x in (0, 1)}
  pu = {0: 1 - u1, 1: u1}
  mx = {x: sum(px[x, u] * pu[u] for u in (0, 1)) for x in (0, 1)}
  eu = {x: px[x, 1] * u1 / mx[x] for x in (0, 1)}
  mu = lambda z, x: p["gamma"] * z + p["alpha_2"] * eu[x]
  first = second = 0
  terms = []
  for u, x, z in itertools.product((0, 1), repeat=3):
    prob = pu[u] * px[x, u] * pz[z, x]
    ratio = (pz[z, 1] - pz[z, 0]) / pz[z, x]
    rest = sum(mu(k, x) * (pz[k, 1] - pz[k, 0]) for k in (0, 1))
    rest += (1 / mx[1] if x else -1 / mx[0]) * (
        sum(mu(z, k) * mx[k] for k in (0, 1)) -
        sum(mu(j, k) * pz[j, x] * mx[k] for j in (0, 1) for k in (0, 1)))
    phi = p["alpha_2"] * (u - eu[x]) * ratio + rest
    terms.append((prob, phi, ratio))
    first += prob * phi
  for prob, phi, ratio in terms:
    second += prob * ((phi - first)**2 + ratio**2)
  return first, second, 13


def converges(ctx, arm, n, tau, var, kurtosis, what, sums, **info):
  """Are the estimates of n held-out units where they have to be?

  sums collects the standardised deviations of all cases of a kind: a bias too
  small for one case shows in their mean.
  """
  zs = ((arm.ate - tau) / math.sqrt(var / n),
        (arm.var_est / var - 1) / math.sqrt((kurtosis - 1) / n))
  for z, of, limit in zip(zs, (
      "effect estimate", "variance estimate"), (7.5, 9)):
    ctx.ok(abs(z) < limit, f"the {of} of {what} does not approach the truth",
           standard_errors=z, ate=arm.ate, effect=tau, var_est=arm.var_est,
           variance=var, held_out=n, **info)
    got = sums.setdefault((what, of), [])
    got.append(z)
    if len(got) >= 15:
      ctx.ok(abs(np.mean(got)) < .35 + 6.5 / math.sqrt(len(got)),
             f"the {of} of {what} is biased", cases=len(got),
             mean_standard_errors=np.mean(got), **info)
  ctx.count("estimates compared with the truth")


def c38(ctx):
  ctx.rule = (
      "linear, back-door and front-door models with known effects and asymptotic "
      "variances: arms fed 8000-40000 units, bandits run until confident, and "
      "thousands of interval sequences of normal scores; distinct: problems")

  sums = {}

  def estimates(rng, i):
    n = int(rng.integers(8000, ctx.pick(20000, 40000)))
    kind = i % 3
    stable = bool(rng.integers(2))
    ci = list(A.CIAlgorithm)[int(rng.integers(3))]
    kw = dict(ci_algorithm=ci, stable_splits=stable, burn_in=100)
    if kind == 0:
      g, c, d, tau, variance, kurtosis = linear_problem(rng)
      k = int(rng.integers(max(c, 1), d + 1))
      cols = list(range(c)) + [int(v) for v in rng.permutation(
          np.arange(c, d))[:k - c]]
      cols = [int(v) for v in rng.permutation(cols)]
      var = variance(cols)
      arm = A.SampleSplittingArm(
          "linear", P.AIPWLinearLogistic(len(cols), min_overlap=.01),
          D.get_coordinate_mask_fn(cols), **kw)
      info = dict(columns=cols, beta=g.beta, gamma=g.gamma)
    elif kind == 1:
      g, p = boot.example_scm.back_door_scm()
      tau = p["tau"]
      var = sum(w * (1 / e + 1 / (1 - e)) for w, e in (
          (1 - p["mu_z"], .5), (p["mu_z"], .5 + p["alpha"])))
      kurtosis = 3 / var**2 * sum(w * (e**-3 + (1 - e)**-3) for w, e in (
          (1 - p["mu_z"], .5), (p["mu_z"], .5 + p["alpha"])))
      arm = A.SampleSplittingArm("back-door", P.AIPWLinearLogistic(1),
                                 D.get_identity_fn(), **kw)
      info = dict(parameters=p)
    else:
      g, p = boot.example_scm.frontdoor_scm()
      tau, var, kurtosis = front_variance(p)
      # the same model, responses measured from another origin
      shift = float(rng.choice([0, 0, 8, -30]))
      drop = D.get_remove_coordinates_fn(0)
      arm = A.SampleSplittingArm(
          "front-door", P.FrontDoorLinearFiniteZ(1),
          lambda d: drop(D.ExpData(d.cov, d.exp, d.rsp + shift)), **kw)
      info = dict(parameters=p, shift=shift)
    for b in np.diff(np.r_[0, np.sort(rng.integers(1, n, 3)), n]):
      arm.update(g.generate(int(max(b, 50))), .1)
    held = arm.get_num_units() // 2
    converges(ctx, arm, held, tau, var, kurtosis, f"the {arm.name} arm", sums,
              **info)
    ctx.saw("estimates", kind, round(float(arm.ate), 9))
    ctx.sample(arm.name, ate=arm.ate, effect=tau, var_est=arm.var_est,
               variance=var)

  ctx.cases("estimates", ctx.pick(60, 900), estimates)

  runs = {"n": 0, "wrong": 0}

  def best(rng, i):
    """Bandits over adjustment sets of a linear model."""
    while True:
      g, c, d, _, variance, kurtosis = linear_problem(rng)
      sets = [list(range(c)) + list(s) for r in range(d - c + 1)
              for s in itertools.combinations(range(c, d), r) if c + r]
      costs = [float(rng.choice([1, 1, 2, .5])) for _ in sets]
      adj = np.array([k * variance(s) for s, k in zip(sets, costs)])
      keep = [int(v) for v in rng.permutation(len(sets))[:int(
          rng.integers(2, 5))]]
      order = np.sort(adj[keep])
      if len(keep) > 1 and order[1] > 1.6 * order[0]:
        break
    arm_list = [
        A.SampleSplittingArm(
            f"adjusts for {sets[k]}",
            P.AIPWLinearLogistic(len(sets[k]), min_overlap=.01),
            D.get_coordinate_mask_fn(sets[k]), ci_algorithm=A.CIAlgorithm.CLT,
            cost=costs[k]) for k in keep
    ]
    s = S.Scenario()
    s.algo = S.ALGOS[i % 3]
    s.units, s.error_tol = 400, 0.0
    s.error_prob = float(rng.choice([.05, .1]))
    s.limit = s.units * 60 * len(arm_list)
    b = S.make_bandit(s, arm_list, g)
    data = g.generate(70 * s.units) if rng.integers(2) else None
    out = b.run(data)
    info = dict(algorithm=s.algo, beta=g.beta, gamma=g.gamma,
                adjusted_variances=dict(zip([a.name for a in arm_list],
                                            adj[keep])),
                rounds=len(out.cum_samples))
    ctx.ok(out.cum_samples[-1] <= s.limit, "intervals do not separate although "
           "the variances differ by more than half", **info)
    ctx.ok(len(out.best_arm) == 1, "a confident run does not return one arm",
           **info)
    right = arm_list[int(np.argmin(adj[keep]))]
    runs["n"] += 1
    if out.best_arm[0] is not right:
      runs["wrong"] += 1
      ctx.ok(st.binom.sf(runs["wrong"] - 1, runs["n"], .1) > 1e-8,
             "bandits return the wrong arm more often than error_prob",
             runs=runs["n"], wrong=runs["wrong"],
             returned=out.best_arm[0].name, **info)
    for a, k in zip(arm_list, keep):
      if a.get_num_units() >= 1200:
        ctx.ok(abs(a.var_est / variance(sets[k]) - 1) <
               9 * math.sqrt((kurtosis - 1) / (a.get_num_units() / 2)),
               "the variance estimate of an arm is far from its asymptotic "
               "variance", arm=a.name, var_est=a.var_est,
               variance=variance(sets[k]), **info)
    ctx.count("bandit runs")
    ctx.count("wrong answers", out.best_arm[0] is not right)
    ctx.saw("best", s.algo, tuple(out.cum_samples))
    ctx.sample(f"run of {s.algo}", best=out.best_arm[0].name, **info)

  ctx.cases("best arm", ctx.pick(60, 600), best)

  def coverage(rng, i):
    ci = list(A.CIAlgorithm)[i % 3]
    delta = float(rng.choice([.1, .2, .3]))
    stable = bool(rng.integers(2))
    m = ctx.pick(700, 4000)
    var = float(10**rng.uniform(-2, 2))
    if ci is A.CIAlgorithm.FINITE_SAMPLE:
      var = min(var, 1.0)
    pulls, n = 3, 600
    joint = single = 0
    arm = A.SampleSplittingArm("normal", Scores(), lambda d: d, ci,
                               stable_splits=stable, burn_in=2)
    for _ in range(m):
      arm.reset()
      inside = []
      for _ in range(pulls):
        y = rng.normal(1.0, math.sqrt(var), n)
        lo, hi = arm.update(D.ExpData(np.zeros((n, 1)), np.arange(n) % 2, y),
                            delta)
        inside.append(lo <= var <= hi)
      joint += all(inside)
      single += inside[-1]
    se = math.sqrt(delta * (1 - delta) / m)
    info = dict(interval=ci.value, delta=delta, variance=var, sequences=m,
                joint=joint / m, last=single / m)
    if ci is A.CIAlgorithm.CHI2:
      ctx.ok(abs(single / m - (1 - delta)) < 6.5 * se + .01,
             "chi2 intervals of normal scores do not cover at the nominal rate",
             **info)
    else:
      ctx.ok(joint / m > 1 - delta - 6.5 * se,
             "the intervals of all pulls together cover less often than 1-delta",
             **info)
    ctx.count("interval sequences", m)
    ctx.saw("coverage", ci.value, delta, joint, single)
    ctx.sample(f"coverage {ci.value}", **info)

  ctx.cases("coverage", ctx.pick(6, 24), coverage)
  ctx.assumptions.append(
      "statistical thresholds: a correct package exceeds one with probability "
      "below 1e-7 per run")
  ctx.require(**{"estimates compared with the truth": 40, "bandit runs": 40,
                 "interval sequences": 3000})


# --- C39 ----------------------------------------------------------------------
NOTEBOOK = os.path.join(boot.REPO, "notebooks", "paper_experiments.ipynb")

# Sizes of the experiments as they are run here.
SMALL = {
    "n_instances": 1,
    "n_repetitions": 2,
    "sample_limit": 12000,
    "units_per_round": 500,
    "back_door_size_list": [2, 3],
    "sample_limit_list": [6000, 6000],
}


class Shrink(ast.NodeTransformer):
  """Replaces the sizes that a cell of the notebook assigns or passes."""

  def __init__(self, small):
    self.small = small
    self.changed = 0

  def constant(self, name, old):
    self.changed += 1
    return ast.copy_location(
        ast.parse(repr(self.small[name]), mode="eval").body, old)

  def visit_Assign(self, node):  # pylint: disable=invalid-name
    self.generic_visit(node)
    t = node.targets[0]
    if isinstance(t, ast.Name) and t.id in self.small:
      node.value = self.constant(t.id, node.value)
    return node

  def visit_keyword(self, node):  # pylint: disable=invalid-name
    self.generic_visit(node)
    if node.arg in ("sample_limit", "units_per_round") and isinstance(
        node.value, ast.Constant):
      node.value = self.constant(node.arg, node.value)
    return node

  def visit_Attribute(self, node):  # pylint: disable=invalid-name
    """Private attributes may have other names: "arm._data_transformer"."""
    self.generic_visit(node)
    if node.attr in ("_eta", "_data_transformer"):
      return ast.copy_location(ast.Call(
          ast.Name("private" + node.attr, ast.Load()), [node.value], []), node)
    return node

  def visit_If(self, node):  # pylint: disable=invalid-name
    """Accepts every instance: "if min_gap > 5"."""
    self.generic_visit(node)
    t = node.test
    if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and (
        t.left.id == "min_gap"):
      t.comparators = [ast.copy_location(ast.Constant(-1), t.comparators[0])]
      self.changed += 1
    return node


def transformer_of(arm):
  """The data transformer of an arm, under whatever name it is kept."""
  found = getattr(arm, "_data_transformer", None)
  if found is None:
    (found,) = [v for v in vars(arm).values() if inspect.isfunction(v)]
  return found


def cells():
  with open(NOTEBOOK) as f:
    nb = json.load(f)
  out = []
  for i, c in enumerate(nb["cells"]):
    if c["cell_type"] != "code":
      continue
    text = "".join(c["source"])
    text = re.sub(r"^[!%].*$", "", text, flags=re.M)
    out.append((i, text))
  return out


def c39(ctx):
  import matplotlib.pyplot as plt
  ctx.rule = (
      "the code cells of the companion notebook executed in order in one name "
      "space, with smaller sizes; every bandit run they make is logged and "
      "audited; distinct: (cell, run, sampled arms)")
  original = {c: c.run for c in (B.UniformAlgorithm, B.LUCBAlgorithm,
                                 B.SuccessiveEliminationAlgorithm)}

  def audit(bandit, out, data, info):
    arms = bandit._arms if hasattr(bandit, "_arms") else list(out.lcb_by_arm)
    n = len(out.cum_samples)
    info = dict(info, algorithm=type(bandit).__name__, rounds=n,
                arms=[a.name for a in arms])
    ctx.ok(n > 0 and out.best_arm and all(any(a is b for b in arms)
                                          for a in out.best_arm),
           "a run returns no arm or one that is not a candidate", **info)
    for h in (out.lcb_by_arm, out.ucb_by_arm, out.var_est_by_arm,
              out.samples_by_arm):
      ctx.ok(set(h) == set(arms) and all(len(h[a]) == n for a in arms),
             "a recorded history is not complete", **info)
    got = np.cumsum([sum(out.samples_by_arm[a][t] for a in arms)
                     for t in range(n)])
    ctx.ok(np.array_equal(got, out.cum_samples),
           "the cumulative samples are not the sums of the arms' samples",
           cumulative=out.cum_samples, sums=got, **info)
    for a in arms:
      ctx.ok(sum(out.samples_by_arm[a]) <= a.get_num_units(),
             "an arm saw fewer units than recorded", arm=a.name,
             recorded=sum(out.samples_by_arm[a]), seen=a.get_num_units(), **info)
      lo, hi = np.array(out.lcb_by_arm[a]), np.array(out.ucb_by_arm[a])
      v = np.array(out.var_est_by_arm[a])
      ctx.ok(not np.isnan(lo).any() and not np.isnan(hi).any() and
             np.all(lo >= 0) and np.all(lo <= v) and np.all(v <= hi),
             "a variance estimate lies outside its recorded interval", arm=a.name,
             lower=lo[:5], estimate=v[:5], upper=hi[:5], **info)
    ctx.count("bandit runs audited")
    ctx.count("bandit runs on a fixed dataset", data is not None)
    ctx.saw(info["cell"], info["algorithm"], tuple(out.cum_samples),
            tuple(tuple(out.samples_by_arm[a]) for a in arms))

  def selection(runs, pictures, number):
    """The arms of a figure are the best ones of the run before it."""
    out = runs[-1][2]
    final = {a: out.var_est_by_arm[a][-1] for a in out.var_est_by_arm}
    for _, lines in pictures:
      labels = {label for label, *_ in lines}
      inside = [v for a, v in final.items() if a.name in labels]
      outside = [v for a, v in final.items() if a.name not in labels]
      ctx.ok(inside and (not outside or max(inside) <= min(outside)),
             "the figure shows other arms than the best ones", cell=number,
             plotted=sorted(labels), estimates={a.name: v for a, v in
                                                final.items()})

  def comparison(space, runs, pictures, number):
    """The numbers collected and shown are those of the runs of the cell."""
    info = dict(cell=number)
    lucb = [(d, o) for c, d, o in runs if c is B.LUCBAlgorithm]
    se = [(d, o) for c, d, o in runs if c is B.SuccessiveEliminationAlgorithm]
    ctx.ok(len(lucb) == len(se) > 0, "the experiment does not run both algorithms "
           "equally often", lucb=len(lucb), se=len(se), **info)
    for k, ((d1, o1), (d2, o2)) in enumerate(zip(lucb, se)):
      ctx.ok(d1 is not None and d2 is not None and all(
          np.array_equal(getattr(d1, f), getattr(d2, f))
          for f in ("cov", "exp", "rsp")),
             "the algorithms are compared on different data", repetition=k, **info)
      ctx.ok([a.name for a in o1.lcb_by_arm] == [a.name for a in o2.lcb_by_arm],
             "the algorithms are compared on different arms", repetition=k, **info)
      ctx.ok(not any(np.array_equal(d1.cov, d.cov) for d, _ in lucb[:k]),
             "two repetitions of an experiment use the same data", repetition=k,
             **info)
    want = {
        "LUCB": [(len(o.lcb_by_arm), o.cum_samples[-1]) for _, o in lucb],
        "SE": [(len(o.lcb_by_arm), o.cum_samples[-1]) for _, o in se],
        "niform": [(len(o.lcb_by_arm), len(o.lcb_by_arm) * max(
            sum(h) for h in o.samples_by_arm.values())) for _, o in se]}
    for key, name in (("LUCB", "LUCB_samples"), ("SE", "SE_samples"),
                      ("niform", "uniform_bandit_samples")):
      got = space[name]
      if isinstance(got, dict):
        got = sorted((1 + 2**m, v) for m, vs in got.items() for v in vs)
        ctx.ok(got == sorted(want[key]), f"{name} are not those of the runs",
               got=got, expected=sorted(want[key]), **info)
      else:
        ctx.ok(list(got) == [v for _, v in want[key]],
               f"{name} are not those of the runs", got=list(got),
               expected=[v for _, v in want[key]], **info)
    ctx.count("comparisons of algorithms", len(lucb))
    ctx.ok(pictures, "the experiment shows no figure", **info)
    ticks, lines = pictures[-1]
    for key, pairs in want.items():
      at = [p for p, t in ticks if key in t]
      curve = [(x, y) for label, x, y in lines if key in label]
      if at:  # a box plot
        med = np.median([v for _, v in pairs])
        ctx.ok(any(len(set(y)) == 1 and np.isclose(y[0], med) and
                   np.isclose(np.mean(x), at[0]) for _, x, y in lines if len(x)),
               "a box of the figure does not show the collected numbers",
               algorithm=key, median=med, position=at[0], **info)
      else:
        ctx.ok(len(curve) == 1, "an algorithm has no curve", algorithm=key, **info)
        means = {k: np.mean([v for q, v in pairs if q == k]) for k, _ in pairs}
        x, y = curve[0]
        ctx.ok(len(x) == len(means) and all(
            int(a) in means and np.isclose(b, means[int(a)])
            for a, b in zip(x, y)),
               "a curve of the figure is not the mean of the collected numbers",
               algorithm=key, got=list(zip(x, y)), expected=means, **info)
      ctx.count("curves and boxes checked")

  def whole(rng, i):
    small = dict(SMALL)
    if i:
      small["n_instances"] = int(rng.integers(1, 3))
      small["sample_limit"] = int(rng.integers(3000, 30000))
      small["units_per_round"] = int(rng.integers(200, 1500))
      small["num_back_door_paths"] = int(rng.integers(2, 5))
      k = int(rng.integers(1, 4))
      small["back_door_size_list"] = [int(v) for v in rng.integers(2, 5, k)]
      small["sample_limit_list"] = [int(v) for v in rng.integers(
          2000, 9000, k)]
    space = {"__name__": "notebook", "private_eta": lambda a: a.eta,
             "private_data_transformer": transformer_of}
    current = [None]
    shown = []
    runs = []
    pictures = []

    def spied(cls):
      def run(self, *a, **kw):
        data = a[0] if a else kw.get("all_data")
        for arm in getattr(self, "_arms", ()):
          ctx.ok(arm.get_num_units() == 0 and arm.num_pulled == 0 and
                 not arm.eta.has_enough_samples(),
                 "a run of an experiment starts with arms that know data",
                 cell=current[0], algorithm=cls.__name__, arm=arm.name,
                 units=arm.get_num_units(), pulls=arm.num_pulled)
        out = original[cls](self, *a, **kw)
        audit(self, out, data, dict(cell=current[0]))
        runs.append((cls, data, out))
        return out
      return run

    show = plt.show

    def spy_show(*a, **kw):
      del a, kw
      fig = plt.gcf()
      shown.append((current[0], [(len(ax.lines), len(ax.collections))
                                 for ax in fig.axes]))
      for ax in fig.axes:
        fig.canvas.draw()
        pictures.append((
            [(p, t.get_text()) for p, t in zip(ax.get_xticks(),
                                               ax.get_xticklabels())],
            [(l.get_label(), np.array(l.get_xdata(), dtype=float),
              np.array(l.get_ydata(), dtype=float)) for l in ax.lines]))
      plt.close("all")

    for c in original:
      c.run = spied(c)
    plt.show = spy_show
    try:
      for number, text in cells():
        current[0] = number
        tree = Shrink(small)
        code = tree.visit(ast.parse(text))
        ast.fix_missing_locations(code)
        try:
          exec(compile(code, f"notebook cell {number}", "exec"), space)  # pylint: disable=exec-used
        except Exception as e:  # pylint: disable=broad-except
          if type(e).__name__ == "CaseViolation":
            raise
          ctx.fail("a cell of the notebook does not run", cell=number,
                   error=f"{type(e).__name__}: {e}")
        ctx.count("cells run")
        ctx.count("sizes replaced", tree.changed)
        if {"LUCB_samples", "SE_samples"} <= {
            n.id for n in ast.walk(code) if isinstance(n, ast.Name)}:
          comparison(space, runs, pictures, number)
        elif runs:
          selection(runs, pictures, number)
        runs.clear()
        pictures.clear()
    finally:
      for c, f in original.items():
        c.run = f
      plt.show = show
      plt.close("all")
      plt.rcdefaults()
    ctx.ok(all(any(n > 0 for n, _ in axes) for _, axes in shown) and shown,
           "a figure of the notebook is empty", figures=shown)
    ctx.count("figures", len(shown))
    # what the experiments conclude
    for name in ("LUCB_samples", "SE_samples", "uniform_bandit_samples"):
      v = space.get(name)
      ctx.ok(v is None or all(q > 0 for x in (
          v.values() if isinstance(v, dict) else [v]) for q in x),
             "an experiment collects no sample sizes", name=name)
    ctx.sample("figures", figures=shown)

  ctx.cases("notebook", ctx.pick(3, 16), whole)
  ctx.require(**{"cells run": 7, "bandit runs audited": 10, "figures": 4,
                 "comparisons of algorithms": 4, "curves and boxes checked": 9,
                 "sizes replaced": 5})


# --- C40 ----------------------------------------------------------------------
def c40(ctx):
  ctx.rule = (
      "the single-arm runner and the true-variance helper on recording arms, "
      "generators and estimators; distinct: (sizes, delta)")
  tu = importlib.import_module("causal_effect_bandits.test_utils")

  class Arm(A.VarianceEstimatorArm):
    """Logs what it is given; reports made-up numbers."""

    def __init__(self, rng):
      super().__init__("spy", None, None)
      self.rng, self.log, self.units = rng, [], []

    def update(self, new_data, delta):
      self.units.append(list(new_data.cov[:, 0]))
      lo, v, hi = np.sort(self.rng.uniform(0, 9, 3))
      effect = float(self.rng.standard_normal())
      self.log.append((len(new_data), delta, lo, hi, v, effect))
      return self.ci

    # what is reported, under the public names alone
    ci = property(lambda self: self.log[-1][2:4])
    var_est = property(lambda self: self.log[-1][4])
    ate = property(lambda self: self.log[-1][5])

  def run(rng, i):
    del i
    arm = Arm(rng)
    gen = S.TagGen(S.Log(10**6))
    inc = int(rng.integers(1, 60))
    top = int(rng.integers(1, 12 * inc))
    if rng.uniform() < .3:
      top = inc * int(rng.integers(1, 9))
    delta = float(rng.uniform(.01, .9))
    if rng.uniform() < .2:
      out, delta = tu.run_single_arm(arm, gen, top, inc), .05
    else:
      out = tu.run_single_arm(arm, gen, top, inc, delta)
    rounds = -(-top // inc)
    info = dict(max_samples=top, increment=inc, delta=delta)
    ctx.ok(len(arm.log) == rounds, "the arm is not updated until max_samples are "
           "reached", updates=len(arm.log), expected=rounds, **info)
    ctx.ok(all(n == inc and e == delta for n, e, *_ in arm.log),
           "an update does not get increment units and the given delta",
           got=[x[:2] for x in arm.log], **info)
    flat = [u for b in arm.units for u in b]
    ctx.ok(len(set(flat)) == len(flat), "a unit is used twice", **info)
    ctx.ok(list(out["n_samples"]) == [inc * (k + 1) for k in range(rounds)],
           "n_samples is wrong", got=out["n_samples"], **info)
    for key, col in (("LCBs", 2), ("UCBs", 3), ("var_estimates", 4)):
      ctx.close(out[key], [x[col] for x in arm.log],
                f"{key} are not what the arm reported", **info)
    ate = [k for k in out if k.startswith("ATE")]
    ctx.ok(len(ate) == 1, "no effect estimates are returned", keys=list(out))
    ctx.close(out[ate[0]], [x[5] for x in arm.log],
              "the effect estimates are not what the arm reported", **info)
    ctx.count("single-arm runs")
    ctx.saw(top, inc, delta)
    ctx.sample("run", n_samples=out["n_samples"], **info)

  ctx.cases("runner", ctx.pick(300, 5000), run)

  def truth(rng, i):
    d = int(rng.integers(1, 5))
    beta, gamma = rng.standard_normal(d), .4 * rng.standard_normal(d)
    tau = float(rng.standard_normal())
    sigma = float(rng.uniform(.3, 3))
    g = D.LinearDataGenerator(
        "lin", d, beta, tau, lambda n: sigma * np.random.standard_normal(n),
        gamma)
    bound = float(rng.choice([.01, .05]))
    eta = P.AIPWLinearLogistic(d, min_overlap=bound)
    kept = []
    make = g.generate

    def generate(n):
      kept.append(make(n))
      return kept[-1]

    g.generate = generate
    if i % 3 == 0:  # the fit of an arm that has seen data is replaced
      eta.fit(make(200))
    arm = A.SampleSplittingArm("a", eta, D.get_identity_fn())
    n = int(rng.integers(200, 4000))
    if i % 30 == 7:
      n = int(10**rng.uniform(4, 5.3))
    got = tu.estimate_true_variance(g, arm, n)
    info = dict(n=n, beta=beta, gamma=gamma, tau=tau)
    ctx.ok(len(kept) == 1 and len(kept[0]) == n,
           "the helper does not draw one sample of n_samples units",
           drawn=[len(k) for k in kept], **info)
    x = kept[0]
    e = 1 / (1 + np.exp(-x.cov.dot(gamma)))
    e = np.clip(e, bound, 1 - bound)
    r = x.rsp - x.cov.dot(beta) - tau * x.exp
    want = np.var(r * (x.exp / e - (1 - x.exp) / (1 - e)) + tau)
    ctx.close(got, want, "the true variance is not the variance of the scores "
              "under the true nuisance functions", rtol=1e-8, **info)
    ctx.count("true variances")
    ctx.saw("truth", round(float(got), 9))

  ctx.cases("truth", ctx.pick(150, 3000), truth)
  ctx.require(**{"single-arm runs": 200, "true variances": 100})
