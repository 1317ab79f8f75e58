"""Scripted arms, tagged data and the event log of a bandit run."""
import math

import numpy as np

from harness import boot

A, B, D = boot.arms, boot.bandits, boot.data

ALGOS = ("uniform", "lucb", "se")


class Overrun(Exception):
  """The run handed out more batches than any correct run could."""


class Log:
  """The events of one run, in the order in which they happened."""

  def __init__(self, max_updates):
    self.events = []
    self.max_updates = max_updates
    self.n_updates = 0

  def update(self, arm, new_data, delta):
    ids = np.array(new_data.cov)[:, 0]
    aligned = (
        np.array_equal(np.asarray(new_data.rsp), 2.0 * ids + 1) and
        np.array_equal(np.asarray(new_data.exp), ids % 2) and
        np.array_equal(new_data.cov[:, 1], 0.5 * ids))
    self.events.append(
        ("upd", arm, tuple(int(i) for i in ids), float(delta), aligned))
    self.n_updates += 1
    if self.n_updates > self.max_updates:
      raise Overrun()

  def clear(self):
    self.events = []
    self.n_updates = 0

  def gen(self, n):
    self.events.append(("gen", n))

  @property
  def updates(self):
    return [e for e in self.events if e[0] == "upd"]

  @property
  def gens(self):
    return [e for e in self.events if e[0] == "gen"]


def tagged(ids):
  """Data in which every unit carries its id in all its fields."""
  ids = np.asarray(ids, dtype=float)
  return D.ExpData(
      np.column_stack([ids, 0.5 * ids]), ids % 2, 2.0 * ids + 1)


class TagGen(D.DataGenerator):
  """Generates units with ids that have never been used before."""

  def __init__(self, log, first=10**6):
    super().__init__("tagged")
    self.log = log
    self.next = first

  def generate(self, n_samples):
    self.log.gen(n_samples)
    ids = np.arange(self.next, self.next + n_samples)
    self.next += n_samples
    return tagged(ids)


class StubEta:
  """An estimator no bandit algorithm has any business with."""

  def reset(self):
    pass

  def fit(self, d):
    pass

  def has_enough_samples(self):
    return True


class ScriptArm(A.VarianceEstimatorArm):
  """An arm whose interval and estimate after its k-th pull are scripted."""

  def __init__(self, idx, traj, cost, log, name=None):
    super().__init__(name or f"arm{idx}", StubEta(), lambda d: d, cost)
    self.idx = idx
    self.traj = traj
    self.log = log
    self.cost = cost
    self.pulls = 0
    self.units = 0

  def state(self, pulls):
    """(lower, upper, estimate) after so many pulls, not yet times cost."""
    if pulls == 0:
      return (-math.inf, math.inf, None)
    return self.traj[min(pulls, len(self.traj)) - 1]

  def adjusted(self, pulls):
    lo, hi, est = self.state(pulls)
    return (self.cost * lo, self.cost * hi,
            None if est is None else self.cost * est)

  def update(self, new_data, delta):
    self.log.update(self.idx, new_data, delta)
    self.pulls += 1
    self.units += len(new_data)
    return self.ci

  def reset(self):
    self.pulls = 0
    self.units = 0

  def get_num_units(self):
    return self.units

  @property
  def ci(self):
    return self.state(self.pulls)[:2]

  @property
  def var_est(self):
    return self.state(self.pulls)[2]

  @property
  def num_pulled(self):
    return self.pulls

  @property
  def ate(self):
    return 0.0


# --- trajectories ------------------------------------------------------------
# All numbers are dyadic rationals with few bits and the costs are small, so that
# products, sums and comparisons are exact however the code arranges them.

COSTS = (1.0, 1.0, 1.0, .5, 2.0, 4.0, .25, 3.0, 1.5, 2, 1, np.float64(.75))


def q(x):
  return math.floor(x * 64) / 64


def traj_grid(rng, n):
  out = []
  for _ in range(n):
    lo, est, hi = sorted(rng.integers(0, 9, 3) / 2)
    out.append((float(lo), float(hi), float(est)))
  return out


def traj_shrink(rng, n, true, late=0, adversarial=False, tail_zero=False):
  """Intervals that contain `true` and shrink to width at most 1/32."""
  out = [(0.0, math.inf, math.inf)] * late
  w = 2.0**rng.integers(0, 4)
  for _ in range(n):
    a, b = q(w * rng.uniform(0, 1)), q(w * rng.uniform(0, 1))
    lo, hi = max(0.0, true - a), true + b
    est = q(lo + rng.uniform(0, 1) * (hi - lo))
    est = min(max(est, lo), hi)
    if adversarial:
      est = q(rng.uniform(0, 2 * hi + 1))  # may lie outside the interval
    out.append((lo, hi, est))
    if rng.uniform() < .8:
      w /= 2
  if tail_zero:
    out.append((true, true, true))
  else:
    lo, hi = max(0.0, true - 1 / 64), true + 1 / 64
    out.append((lo, hi, q(rng.uniform(0, 8)) if adversarial else true))
  return out


def traj_cluster(rng, n, true, estimate):
  """Like traj_shrink, but estimates stay at a common value while they can."""
  return [(lo, hi, min(max(estimate, lo), hi))
          for lo, hi, _ in traj_shrink(rng, n, true)[:-1]
         ] + [(true - 1 / 64, true + 1 / 64, true)]


def traj_chain(rng, n, true, tol):
  """Valid intervals of changing widths around tol, then narrow ones."""
  out = []
  for _ in range(n):
    lo = max(0.0, true - q(tol * 2.0**rng.integers(-4, 2) * rng.uniform()))
    hi = true + q(tol * 2.0**rng.integers(-4, 2) * rng.uniform())
    est = min(max(q(lo + rng.choice([0, 1, rng.uniform()]) * (hi - lo)), lo), hi)
    out.append((lo, hi, est))
  return out + [(true - 1 / 64, true + 1 / 64, true)]


def hold(rng, n, true):
  """Intervals that contain all true values and so decide nothing."""
  out = []
  for _ in range(n):
    lo = min(true) - q(rng.uniform())
    hi = max(true) + 8 + q(rng.uniform(0, 4))
    out.append((lo, hi, min(true) + float(rng.integers(0, 9)) / 2))
  return out


def arm_names(rng, k):
  """Names of k arms: distinct or not, short, long, with common beginnings."""
  number = [str(i) for i in range(k)]
  if rng.uniform() < .2:
    number = [str(int(rng.integers(max(1, k - 1)))) for _ in range(k)]
  u = rng.uniform()
  if u < .6:
    return ["arm" + i for i in number]
  if u < .65:
    return number
  if u < .7:  # as the paper's experiments with latex names
    return ["$Z_1V_{" + i + "}$" for i in number]
  if u < .85:
    words = ["AIPW", "back-door", "Z1, Z2, V1", "with selected covariates",
             "front-door", "mediators (Z)", "random forest", "naive é"]
    head = " ".join(words[int(j)] for j in rng.integers(0, 8, rng.integers(3, 30)))
    return [head + " " + i for i in number]
  return [i + " " + "x" * int(rng.integers(0, 100)) for i in number]


# Powers of two, so that scaling is exact.
SCALES = (1.0, 1.0, 1.0, 2.0**-30, 2.0**-60, 2.0**20, 2.0**40, 2.0**-9)
OFFSETS = (0.0, 0.0, 0.0, 0.0, 0.0, 2.0**20, 2.0**30)


class Scenario:
  """One bandit problem with scripted arms."""

  def arm(self, i, log):
    return ScriptArm(i, self.trajs[i], self.costs[i], log, self.names[i])

  def rescale(self):
    """Multiplies everything that is measured in variances by self.scale."""
    f = self.scale
    self.trajs = [[tuple(v * f for v in p) for p in t] for t in self.trajs]
    self.true = [v * f for v in self.true]
    self.error_tol *= f


def scenario(rng, kinds, algo=None, finite=None, many=False):
  s = Scenario()
  s.algo = algo or ALGOS[rng.integers(3)]
  s.kind = kinds[rng.integers(len(kinds))]
  k = int(rng.integers(2, 7))
  if many:
    k = int(rng.integers(10, 81))
  elif rng.uniform() < .06:
    k = int(rng.integers(7, 26) if rng.uniform() < .8 else rng.integers(26, 81))
  s.k = k
  s.costs = [COSTS[i] for i in rng.integers(len(COSTS), size=k)]
  if rng.uniform() < .3:
    s.costs = [1.0] * k
  n = int(rng.integers(1, 9))
  if rng.uniform() < .06:
    n = int(rng.integers(9, 60))
  s.long = rng.uniform() < .012
  if s.long:  # hundreds of rounds
    s.k = k = min(k, 4)
    s.costs = [s.costs[0]] * k
  s.error_tol = float(rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 4.0]))
  s.units = int(rng.choice([1, 2, 3, 5, 10, 17]))
  if rng.uniform() < .03 and not s.long:
    s.units = int(rng.choice([100, 128, 257, 1000, 1025]))
  # dyadic true values; in convergent scenarios the adjusted ones are separated
  base = rng.permutation(np.arange(1, k + 1))
  s.true = [float(b) / (1 if rng.uniform() < .5 else 1) for b in base]
  if rng.uniform() < .4:
    s.true = [float(v) for v in rng.integers(1, 6, size=k)]
  if s.kind == "cluster":
    s.costs = [s.costs[0]] * k
    s.true = [float(v) for v in rng.choice([1, 1.25, 1.5, 1.75, 8, 9], size=k)]
    s.error_tol = float(rng.choice([0.0, 0.0, 1 / 64, .25]))
  if s.kind == "chain":  # steps below the tolerance that add up to more
    s.costs = [s.costs[0]] * k
    s.error_tol = float(rng.choice([.5, 1, 4]))
    s.true = [float(v) for v in 1 + s.error_tol / s.costs[0] * rng.choice([.25, .625, .875]) *
              rng.permutation(k)]
  off = float(OFFSETS[rng.integers(len(OFFSETS))])
  s.true = [v + off for v in s.true]
  s.names = arm_names(rng, k)
  adj = sorted(c * t for c, t in zip(s.costs, s.true))
  s.separated = adj[1] - adj[0] >= .25 and max(s.costs) / 32 < (
      adj[1] - adj[0]) / 2
  if s.kind == "grid":
    s.trajs = [traj_grid(rng, n + 6) for _ in range(k)]
  elif s.kind == "tied":
    t = traj_shrink(rng, n, s.true[0])
    s.trajs = [t if rng.uniform() < .6 else traj_grid(rng, n) for _ in range(k)]
    s.costs = [s.costs[0]] * k
  elif s.kind == "cluster":
    mid = off + float(rng.choice([1, 1.25, 1.5]))
    s.trajs = [traj_cluster(rng, n, s.true[i], mid) for i in range(k)]
  elif s.kind == "chain":
    s.trajs = [traj_chain(rng, n, s.true[i], s.error_tol / s.costs[0])
               for i in range(k)]
  else:
    s.trajs = [
        traj_shrink(
            rng, n, s.true[i],
            late=int(rng.integers(0, 5)) if s.kind == "late" else 0,
            adversarial=s.kind == "adversarial",
            tail_zero=s.kind == "zero") for i in range(k)
    ]
  if s.long:
    n = int(rng.integers(90, 400))
    if rng.uniform() < .2:
      n = int(rng.integers(1100, 1500))
    s.trajs = [hold(rng, n, s.true) + t for t in s.trajs]
  # A run without budget is only sure to end if the intervals separate.
  can_be_infinite = s.kind in ("shrink", "late", "zero") and s.separated
  if finite is None:
    finite = not can_be_infinite or rng.uniform() < .5
  s.finite = finite or not can_be_infinite
  longest = max(len(t) for t in s.trajs)
  if s.finite:
    rounds = int(rng.integers(0, longest + 6))
    if s.long:
      rounds = max(rounds, longest // 2 if longest < 1000 else longest)
    per_round = s.units * (k if s.algo == "uniform" else 2)
    s.limit = int(rounds * per_round + rng.integers(-1, 2) * rng.integers(2))
    s.limit = max(s.limit, 0)
    # sometimes exactly on a boundary, where "exceeds" and "reaches" differ
    max_rounds = s.limit // (2 * s.units) + 3
    if rng.uniform() < .1:
      s.limit += .5
  else:
    s.limit = None if rng.uniform() < .5 else np.inf
    max_rounds = 3 * k * longest + 5
  s.max_updates = k * (max_rounds + 2)
  s.error_prob = float(rng.choice([.05, .1, .2, .01, .5]))
  s.stable = bool(rng.uniform() < .5)
  s.seed = int(rng.integers(2**31))
  s.scale = float(SCALES[rng.integers(len(SCALES))])
  s.rescale()
  # What the arms were used for before: nothing, or a run that was reset.
  s.earlier = None
  if rng.uniform() < .25:
    s.earlier = ("same bandit", "uniform", "lucb", "se")[int(rng.integers(4))]
  return s


def make_bandit(s, arm_list, gen):
  cls = {
      "uniform": B.UniformAlgorithm,
      "lucb": B.LUCBAlgorithm,
      "se": B.SuccessiveEliminationAlgorithm
  }[s.algo]
  return cls(
      arm_list,
      gen,
      error_prob=s.error_prob,
      error_tol=s.error_tol,
      confidence=.05,
      sample_limit=s.limit,
      units_per_round=s.units)


class Result:
  pass


def run_scenario(s):
  """Runs the real algorithm on scripted arms and returns the log and result."""
  r = Result()
  r.log = Log(s.max_updates)
  r.arms = [s.arm(i, r.log) for i in range(s.k)]
  r.gen = TagGen(r.log)
  r.bandit = make_bandit(s, r.arms, r.gen)
  r.data = None
  if s.stable:
    r.data = tagged(np.arange(100, 100 + s.units * (s.max_updates + 2)))
    r.before = [np.array(x) for x in (r.data.cov, r.data.exp, r.data.rsp)]
  if s.earlier is not None:
    np.random.seed(s.seed + 1)
    other, algo = r.bandit, s.algo
    if s.earlier != "same bandit":
      s.algo = s.earlier
      other = make_bandit(s, r.arms, r.gen)
      s.algo = algo
    try:
      other.run(r.data) if s.seed % 2 else other.run()
    except Overrun:
      pass
    (r.bandit if s.seed % 3 else other).reset()
    r.log.clear()
  np.random.seed(s.seed)
  r.overrun = False
  r.out = None
  try:
    r.out = r.bandit.run(r.data) if s.stable else r.bandit.run()
  except Overrun:
    r.overrun = True
  return r


def describe(s, r=None):
  d = dict(
      algorithm=s.algo, kind=s.kind, costs=s.costs, units_per_round=s.units,
      sample_limit=s.limit, error_tol=s.error_tol, error_prob=s.error_prob,
      fixed_dataset=s.stable, used_before=s.earlier, trajectories=s.trajs)
  if r is not None:
    d["sampled"] = [e[1] for e in r.log.updates][:60]
  return dict(scenario=d)


def rounds_from_log(s, r):
  """Groups the update events into rounds by the shape of the algorithm.

  Uniform: every k updates. LUCB: k updates, then pairs. Successive elimination:
  candidates only ever leave, so the first arm of a round is one that has been
  sampled in the round before.
  """
  seq = [e[1] for e in r.log.updates]
  out = []
  if s.algo == "se":
    for j in seq:
      if not out or j in out[-1]:
        out.append([])
      out[-1].append(j)
    return out
  i = 0
  while i < len(seq):
    n = s.k if (s.algo == "uniform" or i == 0) else 2
    out.append(seq[i:i + n])
    i += n
  return out


def survivors(s, t, cand):
  """The candidates left after round t (from 1) that sampled cand."""
  arms = {i: s.arm(i, None) for i in cand}
  st = {i: arms[i].adjusted(t) for i in cand}
  low = min(v[2] for v in st.values())
  leaders = [i for i in cand if st[i][2] == low]
  ref = min(st[i][1] for i in leaders)
  return [
      i for i in cand
      if st[i][0] < ref or (i in leaders and st[i][1] == ref)
  ]


def se_reference(s, rounds):
  """The candidates of successive elimination in each of so many rounds.

  Args:
    s: the scenario
    rounds: maximal number of rounds

  Returns:
    list of candidate lists; the run ends with confidence before the first that
    has a single element (the list ends with it).
  """
  cand = list(range(s.k))
  out = [cand]
  for t in range(1, rounds + 1):
    cand = survivors(s, t, cand)
    out.append(cand)
    if len(cand) == 1:
      break
  return out
