"""Monitors of C10-C16: arms over spy and real estimators."""
import math

import numpy as np
import scipy.stats as st

from harness import boot
from harness import c_bandits
from harness import scripted as S
from harness import spies

A, B, D, P = boot.arms, boot.bandits, boot.data, boot.parameters
CI = A.CIAlgorithm

STABLE_BATCHES = (1, 2, 3, 4, 5, 7, 8, 12, 21)


def make_arm(rng, kind, eta, transformer=None, stable=None, **kw):
  transformer = transformer or D.get_identity_fn()
  stable = bool(rng.integers(2)) if stable is None else stable
  if kind == "boot":
    kw = {k: v for k, v in kw.items() if k == "n_bootstraps"}
    kw.setdefault("n_bootstraps", int(rng.integers(4, 12)))
    return A.BootstrapArm("boot", eta, transformer, stable_splits=stable, **kw)
  kw = {k: v for k, v in kw.items() if k != "n_bootstraps"}
  kw.setdefault("burn_in", float(rng.integers(2, 30)))
  kw.setdefault("sub_gscale", float(rng.choice([.25, .5, 1, 2, 3])))
  kw.setdefault("eta_sub_gscale", float(rng.choice([.5, 1, 2])))
  kw.setdefault("tau_bound", float(rng.choice([.5, 1, 2, 10])))
  kw.setdefault("rho", float(rng.choice([.1, 1, 2])))
  return A.SampleSplittingArm(
      "split", eta, transformer, ci_algorithm=kind, stable_splits=stable, **kw)


KINDS = (CI.CHI2, CI.CLT, CI.FINITE_SAMPLE, "boot")


def name(kind):
  return kind if isinstance(kind, str) else kind.value


def feed(rng, n_batches, sizes=STABLE_BATCHES, first=1000, n_features=2,
         large=0.0, mixed=False, start=0.0):
  """Yields batches of new tagged units.

  Args:
    rng: generator
    n_batches: number of batches
    sizes: the usual sizes
    first: first id
    n_features: number of covariates
    large: probability of a batch of 22 to 4000 units
    mixed: whether types and memory layouts differ between batches
    start: probability that the first batch has 300 to 4000 units
  """
  nxt = first
  for t in range(n_batches):
    n = int(rng.choice(sizes))
    if t == 0 and start and rng.uniform() < start:
      n = int(300 * (4000 / 300)**rng.uniform())
    elif rng.uniform() < large:
      n = int(22 * ((300 if rng.uniform() < .8 else 4000) / 22)**rng.uniform())
    ids = np.arange(nxt, nxt + n)
    nxt += n
    b = spies.tagged(rng.permutation(ids), n_features)
    if mixed:
      b.exp = b.exp.astype(rng.choice([np.float64, np.int64, np.int8, bool]))
      b.rsp = b.rsp.astype(rng.choice([np.float64, np.float32]))
      b.cov = b.cov.astype(rng.choice([np.float64, np.float32]))
      if rng.integers(2):
        b.cov = np.asfortranarray(b.cov)
      if rng.integers(2):
        b.exp, b.rsp = np.repeat(b.exp, 2)[::2], np.repeat(b.rsp, 2)[::2]
    yield b


def pulls(rng, few, many=30, p=.04):
  """A number of updates: mostly less than few, now and then up to many."""
  return int(rng.integers(few, many + 1)) if rng.uniform() < p else int(
      rng.integers(1, few))


def spoil(d):
  """Overwrites the caller's arrays."""
  d.cov[...] = -7
  d.exp[...] = 9
  d.rsp[...] = 1e9


# --- C11 ----------------------------------------------------------------------
def c11(ctx):
  ctx.rule = (
      "sequences of tagged batches (0-21 units, some up to 300, in several types; "
      "2-8 updates, some up to 30; identity and column-selecting transformers, stable and fresh splits, split-sample arms with every "
      "interval and bootstrap arms) against a recording estimator; the caller's "
      "arrays are overwritten after each update; distinct: distinct splits")

  def case(rng, i):
    kind = KINDS[i % 4]
    eta = spies.SpyEta(need=1)
    stable = bool((i // 4) % 2)
    tr = [None, D.get_coordinate_mask_fn([0, 1]), D.get_coordinate_mask_fn([0]),
          D.get_remove_coordinates_fn(1)][int(rng.integers(4))]
    arm = make_arm(rng, kind, eta, tr, stable)
    received = set()
    side = {}
    halves = 0
    info = dict(arm=name(kind), stable_splits=stable)
    n = 1 + pulls(rng, 8)
    sizes = STABLE_BATCHES + ((0, 0) if rng.uniform() < .2 else ())
    for t, b in enumerate(feed(rng, n, sizes, large=.03, start=.05,
                               mixed=rng.uniform() < .4)):
      ctx.count("batches of more than 21 units", len(b) > 21)
      ids = spies.ids_of(b)
      received |= set(ids)
      halves += len(ids) // 2
      copy = [np.array(x) for x in (b.cov, b.exp, b.rsp)]
      eta.events.clear()
      arm.update(b, .2)
      ctx.ok(all(np.array_equal(x, y) for x, y in zip(
          copy, (b.cov, b.exp, b.rsp))) and len(b) == len(ids),
             "an update modified the caller's data", **info)
      ctx.ok(all(e[2] for e in eta.events if e[0] in ("fit", "score")),
             "covariates, exposure and response of a unit were mixed up "
             "(or later changes to the caller's data reached the arm)",
             update=t, **info)
      fits = [e for e in eta.events if e[0] == "fit"]
      ctx.ok(fits, "an update did not fit the estimator", update=t, **info)
      for e in eta.events:
        if e[0] in ("fit", "score"):
          ctx.ok(len(set(e[1])) == len(e[1]) and set(e[1]) <= received,
                 "a fold contains a unit twice or one that was never received",
                 update=t, fold=e[1][:30], **info)
      scores = [e for e in eta.events if e[0] == "score"]
      if scores:
        pairs = spies.held_out(eta.events, received)
        ctx.ok(pairs, "no fit and held-out score of this update partition the "
               "units received", update=t, received=len(received),
               fits=[e[1] for e in fits][:3], scores=[e[1] for e in scores][:3],
               **info)
        for f, h in pairs:
          check_sides(ctx, t, set(f), set(h), set(ids), received, side, stable,
                      info)
        final = eta.fitted
        ctx.ok(any(final == f or set(final) == set(f) for f, _ in pairs),
               "the estimator the arm is left with was not fitted to the fitting "
               "fold", update=t, final=final[:30], **info)
        want = [e for e in scores if set(e[1]) == set(pairs[0][1])]
        vals = eta.scores(want[-1][1], want[-1][3])
        ctx.ok(math.isclose(arm.ate, np.mean(vals), rel_tol=1e-9, abs_tol=1e-9),
               "the effect estimate was not computed on the held-out units",
               update=t, **info)
        ctx.saw(tuple(sorted(pairs[0][1])))
        ctx.sample(f"split of {name(kind)} arm", fitted=sorted(pairs[0][0])[:20],
                   held_out=sorted(pairs[0][1])[:20], stable=stable)
      else:
        sure = halves if stable else len(received) // 2
        ctx.ok(sure < 2, "no held-out unit was scored although enough were "
               "received", received=len(received), update=t, **info)
      spoil(b)
      ctx.count("updates checked")

  ctx.cases("folds", ctx.pick(800, 30000), case)

  def leak(rng, i):
    """Real AIPW arm whose fold may lack treated units: who saw which unit?"""
    rec = {"fit": None, "score": None}
    stable = i % 4 == 0
    eta = P.AIPW(1, RecordingRegressor(rec), RecordingClassifier(rec),
                 min_units=int(rng.integers(2, 6)))
    kind = KINDS[int(rng.integers(2))]
    if i % 3 == 1:
      kind = "boot"
    arm = make_arm(rng, kind, eta, stable=stable,
                   **(dict(n_bootstraps=3) if kind == "boot" else {}))
    rare = int(rng.integers(2, 5))
    nxt = 0
    for t in range(5):
      n = int(rng.integers(8, 25))
      ids = np.arange(nxt, nxt + n)
      nxt += n
      exp = np.zeros(n)
      exp[rng.permutation(n)[:rare + 2 * (t == 0)]] = 1
      rec["score"] = None
      arm.update(D.ExpData(ids[:, None] * 1.0, exp, ids * 1.0 % 11), .1)
      if rec["score"] is None:
        ctx.count("updates without enough data")
        continue
      ctx.ok(not rec["fit"] & rec["score"],
             "units used to fit the response model are also scored",
             update=t, shared=sorted(rec["fit"] & rec["score"])[:20],
             stable_splits=stable)
      ctx.ok(rec["fit"] | rec["score"] == set(range(nxt)),
             "units received are neither fitted nor scored", update=t)
      ctx.count("real updates checked")
      ctx.saw("leak", tuple(sorted(rec["score"])))

  ctx.cases("leak", ctx.pick(150, 4000), leak)

  def randomness(rng, i):
    kind = KINDS[i % 4]
    stable = True
    n = int([6, 9, 10, 13][int(rng.integers(4))])
    m = ctx.pick(1500, 20000)
    eta = spies.SpyEta(need=1)
    arm = make_arm(rng, kind, eta, stable=stable, n_bootstraps=4)
    # Positions of a batch that land in the fitting fold, over many batches.
    hist = np.zeros((m, n), dtype=bool)
    for t in range(m):
      if t % 8 == 0:
        arm.reset()
        received = set()
        nxt = 0
      ids = np.arange(nxt, nxt + n)
      nxt += n
      received |= set(ids.tolist())
      eta.events.clear()
      arm.update(spies.tagged(ids), .2)
      pairs = spies.held_out(eta.events, received)
      if not pairs:
        return  # judged above
      f = set(pairs[0][0])
      hist[t] = [j in f for j in ids.tolist()]
    p = hist.mean()
    se = math.sqrt(p * (1 - p) / m)
    pos = hist.mean(axis=0)
    ctx.ok(np.all(abs(pos - p) < 6 * se),
           "the fold of a unit depends on its position in the batch",
           arm=name(kind), frequency_by_position=pos)
    a = hist.sum(axis=1)
    same = np.mean((a * (a - 1) + (n - a) * (n - a - 1)) / (n * (n - 1)))
    for gap in (1, 2, n // 2):
      s = np.mean(hist[:, gap:] == hist[:, :-gap], axis=0)
      ctx.ok(np.all(abs(s - same) < 6 * math.sqrt(same * (1 - same) / m)),
             "neighbouring units are not split independently", arm=name(kind),
             gap=gap, same_side=s, expected=same)
    rep = np.mean(hist[1:] == hist[:-1], axis=0)
    e = p * p + (1 - p)**2
    ctx.ok(np.all(abs(rep - e) < 6 * math.sqrt(e * (1 - e) / m)),
           "successive batches are split alike", arm=name(kind), repeats=rep,
           expected=e)
    ctx.count("splits in randomness test", m)

  ctx.cases("random", 4, randomness)
  ctx.require(**{"updates checked": 1000, "real updates checked": 50,
                 "splits in randomness test": 1000})


def check_sides(ctx, t, f, h, batch, received, side, stable, info):
  if stable:
    d = len(f & batch) - len(h & batch)
  else:
    d = len(f) - len(h)
  ctx.ok(abs(d) <= 1, "a batch is not split into halves", update=t,
         difference=d, **info)
  if stable:
    for u in received:
      now = u in f
      ctx.ok(side.setdefault(u, now) == now,
             "a unit changed sides despite stable splits", unit=u, update=t,
             **info)


class RecordingRegressor:
  """A regressor that remembers the ids (last column) it was fitted to."""

  def __init__(self, rec):
    self.rec = rec

  def fit(self, x, y):
    self.rec["fit"] = set(int(v) for v in np.asarray(x)[:, -1])
    self.mean = float(np.mean(y))
    return self

  def predict(self, x):
    self.rec["score"] = set(int(v) for v in np.asarray(x)[:, -1])
    return np.full(len(x), self.mean)

  def __sklearn_clone__(self):
    return RecordingRegressor(self.rec)


class RecordingClassifier(RecordingRegressor):

  def fit(self, x, y):
    return self

  def predict_proba(self, x):
    return np.full((len(x), 2), .5)

  def __sklearn_clone__(self):
    return RecordingClassifier(self.rec)


# --- C12 ----------------------------------------------------------------------
def c12(ctx):
  ctx.rule = (
      "update sequences (1-8 updates of 0-21 units, some of 30 updates and of 300 "
      "units) of tagged and of linear-model data on arms with spy "
      "estimators (scores depend on the fitted units) and with real estimators "
      "whose fit and score calls are recorded; distinct: distinct estimates")

  def case(rng, i):
    kind = KINDS[i % 4]
    eta = spies.SpyEta(
        need=int(rng.integers(1, 6)),
        offset=float(rng.choice([0, 0, 0, 2**20, -2**27])),
        spike=float(rng.choice([0, 0, 1e4, -1e6])),
        scale=1.0 if rng.uniform() < .6 else float(10**rng.uniform(-12, 8)),
        flat=rng.uniform() < .06)
    arm = make_arm(rng, kind, eta)
    info = dict(arm=name(kind), offset_of_scores=eta.offset, equal=eta.flat,
                outlying_score=eta.spike, scale_of_scores=eta.scale)
    total = 0
    received = set()
    empty = (0,) if rng.uniform() < .3 else ()  # an update without new units
    for t, b in enumerate(feed(rng, pulls(rng, 9), sizes=STABLE_BATCHES
                               + empty * 2, large=.03, start=.05,
                               mixed=rng.uniform() < .4)):
      ctx.count("updates without units", not len(b))
      total += len(b)
      received |= set(spies.ids_of(b))
      eta.events.clear()
      out = arm.update(b, .2)
      ctx.ok(tuple(out) == tuple(arm.ci) or np.allclose(out, arm.ci),
             "update does not return the new interval", **info)
      ctx.ok(arm.num_pulled == t + 1, "the number of pulls is wrong",
             got=arm.num_pulled, expected=t + 1, **info)
      ctx.ok(arm.get_num_units() == total, "the number of units is wrong",
             got=arm.get_num_units(), expected=total, **info)
      pairs = spies.held_out(eta.events, received)
      if not pairs:
        ctx.ok(arm.ate is None or math.isnan(arm.ate),
               "an effect is estimated, but not from the scores of all held-out "
               "units under a fit to the current fitting fold", update=t,
               ate=arm.ate, **info)
        ctx.count("updates without enough data")
        continue
      f, h = pairs[-1]
      s = eta.scores(h, f)
      ctx.close(arm.ate, np.mean(s), "the effect estimate is not the mean score "
                "of the held-out units", update=t, held_out=h[:20],
                atol=1e-9 * eta.scale, **info)
      ctx.close(arm.var_est, np.mean((s - np.mean(s))**2),
                "the variance estimate is not the mean squared deviation of the "
                "held-out scores", update=t, held_out=h[:20],
                rtol=1e-9 if not eta.offset else 1e-7, atol=1e-9 * eta.scale**2,
                **info)
      ctx.count("scaled scores", eta.scale != 1)
      ctx.count("equal scores", eta.flat)
      ctx.saw(name(kind), float(arm.var_est))
      ctx.count(f"estimates {name(kind)}")
      ctx.sample(f"estimates of {name(kind)} arm", held_out=len(h), fitted=len(f),
                 ate=arm.ate, var_est=arm.var_est)

  ctx.cases("spy", ctx.pick(1200, 40000), case)

  def real(rng, i):
    eta, tr, make = real_eta(rng, i)
    # the two linear estimators have no width for the finite-sample interval
    kind = KINDS[int(rng.choice([0, 1, 3] if i % 6 in (3, 4) else 4))]
    arm = make_arm(rng, kind, eta, tr, n_bootstraps=4)
    seen = []
    orig = eta.calculate_score

    def score(d):
      seen.append(d)
      return orig(d)

    eta.calculate_score = score
    total = 0
    for t in range(int(rng.integers(2, 5))):
      n = int(rng.integers(30, 90))
      total += n
      seen.clear()
      arm.update(make(n), .1)
      ctx.ok(arm.num_pulled == t + 1 and arm.get_num_units() == total,
             "pulls or units of a real arm are miscounted")
      if not seen or not np.isfinite(arm.var_est):
        continue
      halves = [d for d in seen if abs(len(d) - total / 2) <= (t + 1) / 2 + .5]
      ctx.ok(halves, "no scored fold is half of the data", total=total,
             scored=[len(d) for d in seen])
      want = []
      for d in halves:
        s = orig(d)
        want.append((np.mean(s), np.mean((s - np.mean(s))**2)))
      ctx.ok(any(np.allclose([arm.ate, arm.var_est], w, rtol=1e-8, atol=1e-9)
                 for w in want),
             "estimates of a real arm are not those of its held-out scores",
             got=(arm.ate, arm.var_est), expected=want,
             estimator=type(eta).__name__, arm=name(kind))
      ctx.count("real estimates")
      ctx.saw("real", type(eta).__name__, round(float(arm.var_est), 9))

  ctx.cases("real", ctx.pick(80, 2000), real)

  def base(rng, i):
    del i
    arm = A.VarianceEstimatorArm("base", spies.SpyEta(), lambda d: d)
    for t, b in enumerate(feed(rng, int(rng.integers(1, 5)))):
      arm.update(b, .1)
      ctx.ok(arm.num_pulled == t + 1, "pulls of the base arm are miscounted",
             got=arm.num_pulled)
    ctx.count("base arms")

  ctx.cases("base", 5, base)
  ctx.require(**{"real estimates": 40, "estimates boot": 100,
                 "updates without units": 50,
                 "scaled scores": 100, "equal scores": 50, "estimates CLT": 100})


def front_data(rng, n, n_features=1, rare=True):
  x = (rng.uniform(size=n) < .5).astype(int)
  z = np.column_stack([
      (rng.uniform(size=n) < np.where(x == 1, .7, .35)).astype(int)
      for _ in range(n_features)
  ])
  if rare:  # a value that needs smoothing
    z[rng.uniform(size=n) < .04] = 2
  y = z.sum(axis=1) * 1.5 + rng.standard_normal(n) + .3 * x
  return D.ExpData(z, x, y)


def linear_data(rng, n, d=2, p=None):
  z = rng.standard_normal((n, d))
  e = 1 / (1 + np.exp(-.7 * z[:, 0])) if p is None else p
  x = (rng.uniform(size=n) < e).astype(int)
  y = z.sum(axis=1) + 2 * x + rng.standard_normal(n)
  return D.ExpData(z, x, y)


def real_eta(rng, i):
  d = int(rng.integers(1, 4))
  mu = int(rng.integers(1, 6))
  which = i % 6
  mo = float(rng.choice([.01, .05, .1, .25, .4]))
  if which == 0:
    eta = P.AIPWLinearLogistic(d, min_units=mu, min_overlap=mo)
  elif which == 1:
    eta = P.AIPWKernelRidgeLogistic(d, min_units=mu, min_overlap=mo)
  elif which == 2:
    eta = P.AIPWKernelGradientBoosting(d, min_units=mu, min_overlap=mo)
  elif which == 3:
    eta = P.LinearParameterBinaryTreatment(d)
  elif which == 4:
    eta = P.LinearRegressionParameter(d, l_reg=float(rng.choice([.01, .1, 1])))
  else:
    eta = P.FrontDoorLinearFiniteZ(
        d, min_units=mu, min_overlap=mo,
        min_ratio_to_uniform=float(rng.choice([1.5, 3, 10, 50])))
    return eta, D.get_identity_fn(), lambda n: front_data(rng, n, d)
  return eta, D.get_identity_fn(), lambda n: linear_data(rng, n, d)


# --- C13 ----------------------------------------------------------------------
def expected_ci(kind, scores, delta, pull, arm_kw, u):
  n = len(scores)
  m = np.mean(scores)
  v = np.mean((scores - m)**2)
  if kind is CI.CHI2:
    return (v * (n - 1) / st.chi2.ppf(1 - delta / 2, df=n - 1),
            v * (n - 1) / st.chi2.ppf(delta / 2, df=n - 1))
  if kind is CI.CLT:
    dk = 6 * delta / (np.pi * pull)**2
    se = math.sqrt(np.var((scores - m)**2) / n)
    z = st.norm.ppf(1 - dk / 2)
    return (max(v - z * se, 0), v + z * se)
  b, s, tb = arm_kw["burn_in"], arm_kw["sub_gscale"], arm_kw["tau_bound"]
  if n < b:
    return (0, np.inf)
  lam = max(s, 8 * s * s)
  w = 5 / 8 * (math.sqrt(2 * s) + tb) * math.sqrt(
      2 * math.log(lam * n / b) / n + .5 + math.log(4 / delta)) / math.sqrt(
          n) + u**2
  return (max(v - w, 0), v + w)


def width_defined(s, b, delta):
  """Is the documented width real for every fold size tried?"""
  n = np.arange(math.ceil(b), 10000)
  lam = max(s, 8 * s * s)
  return np.all(2 * np.log(lam * n / b) / n + .5 + math.log(4 / delta) > 1e-3)


def c13(ctx):
  ctx.rule = (
      "split-sample arms with scripted scores, all three constructions, random "
      "parameters, levels from 1e-6 to 0.95 and fold sizes 2 to 60 (some to 1000, "
      "a few to 200,000), scores of scales 1e-8 to 1e6, "
      "1-7 updates (some to 120), compared "
      "with the closed forms; twin arms at two levels; distinct: distinct "
      "intervals")

  def case(rng, i, big=False):
    kind = KINDS[i % 3]
    kw = dict(
        burn_in=float(rng.choice([2, 3, 5, 8, 13, 20, 1.5, 60, 150.5])),
        sub_gscale=float(rng.choice([.25, .5, 1, 2, 3])),
        tau_bound=float(rng.choice([.1, .5, 1, 2, 10])),
        eta_sub_gscale=float(rng.choice([.5, 1, 3])),
        rho=float(rng.choice([.1, .5, 1, 2])))
    if rng.uniform() < .3:  # small enough that lambda' = sub_gscale
      s = float(rng.uniform(.01, .124))
      if width_defined(s, kw["burn_in"], .95):
        kw["sub_gscale"] = s
    ctx.count("small sub_gscale", kw["sub_gscale"] < .125)
    width = None if rng.uniform() < .9 else float(rng.choice([0.0, np.inf]))
    seed = int(rng.integers(2**31))
    deltas = sorted(float(x) for x in rng.choice(
        [1e-6, 1e-3, .01, .05, .1, .2, .4, .5, .7, .95], 2, replace=False))
    per_pull = rng.uniform() < .3
    stable = bool(rng.integers(2))
    batches = [spies.ids_of(b) for b in feed(rng, pulls(rng, 8, 120, .03),
                                             large=.04)]
    scale = 1.0 if rng.uniform() < .7 else float(10**rng.uniform(-8, 6))
    if big:  # folds of many units
      sizes = np.exp(rng.uniform(np.log(2e4), np.log(2e5), 2)).astype(int)
      batches = [list(range(sizes[0])), list(range(sizes[0], sum(sizes)))]
    hist = []
    for delta in deltas:
      eta = spies.SpyEta(need=1, width=width, scale=scale)
      arm = make_arm(rng, kind, eta, stable=stable, **kw)
      np.random.seed(seed)
      received = set()
      cis = []
      for t, ids in enumerate(batches):
        received |= set(ids)
        eta.events.clear()
        eta.width_calls.clear()
        d_now = delta if not per_pull else delta / (1 + t % 3)
        out = arm.update(spies.tagged(ids), d_now)
        pairs = spies.held_out(eta.events, received)
        info = dict(kind=name(kind), delta=d_now, pull=t + 1, scale=scale, **kw)
        ctx.close(out, arm.ci, "update returns another interval than ci", **info)
        cis.append(arm.ci)
        if not pairs or len(pairs[-1][1]) < 2:
          ctx.close(arm.ci, (0, np.inf), "interval without enough data", **info)
          continue
        f, h = pairs[-1]
        s = eta.scores(h, f)
        u = eta.true_width(d_now / 2, kw["eta_sub_gscale"], kw["rho"])
        want = expected_ci(kind, s, d_now, t + 1, kw, u)
        # (the lower bound may be the difference of two large numbers)
        ctx.close(arm.ci, want, f"the {name(kind)} interval is not the documented "
                  "one", n=len(s), v=np.var(s), u=u, rtol=1e-7, atol=1e-9 * (
                      min(1, scale**2) + 10 * np.var(s) +
                      (np.isfinite(want[1]) and want[1])),
                  **info)
        if d_now <= .5:
          ctx.ok(arm.ci[0] <= arm.var_est * (1 + 1e-12) + 1e-12 and
                 arm.var_est <= arm.ci[1] * (1 + 1e-12) + 1e-12,
                 "the interval does not contain the variance estimate",
                 ci=arm.ci, var_est=arm.var_est, **info)
        ctx.count(f"intervals {name(kind)}")
        ctx.count("burn-in intervals", kind is CI.FINITE_SAMPLE and
                  np.isinf(want[1]) and np.isfinite(u))
        ctx.saw(name(kind), float(arm.ci[0]), float(arm.ci[1]))
        ctx.sample(f"{name(kind)} interval", ci=arm.ci, expected=want, n=len(s),
                   **info)
      hist.append(cis)
    for small, big in zip(*hist):
      ctx.ok(small[0] <= big[0] * (1 + 1e-9) + 1e-9 and
             big[1] <= small[1] * (1 + 1e-9) + 1e-9,
             "an interval shrinks when delta shrinks", kind=name(kind),
             deltas=deltas, at_smaller_delta=small, at_larger_delta=big)
      ctx.count("nested pairs")

  ctx.cases("closed form", ctx.pick(1500, 50000), case)
  ctx.cases("large folds", ctx.pick(9, 60), lambda rng, i: case(rng, i, True))

  def bad(rng, i):
    kind = KINDS[i % 4]
    for v in (0.0, 1.0, -.1, 1.5, 2, -np.inf, np.inf, np.nan,
              -float(rng.uniform()), 1 + float(rng.uniform())):
      arm = make_arm(rng, kind, spies.SpyEta())
      ctx.raises(ValueError, lambda: arm.update(spies.tagged(range(20)), v),
                 f"delta={v} is accepted by a {name(kind)} arm")
      arm = make_arm(rng, kind, spies.SpyEta())
      arm.update(spies.tagged(range(20)), .1)
      state = lambda: (arm.num_pulled, arm.get_num_units(), tuple(arm.ci),
                       arm.var_est, arm.ate)
      before = state()
      ctx.raises(ValueError, lambda: arm.update(spies.tagged(range(20, 40)), v),
                 f"delta={v} is accepted by a {name(kind)} arm")
      ctx.ok(state() == before, f"the refused delta={v} changed a {name(kind)} arm",
             before=before, after=state())
    ctx.count("invalid levels tried", 20)

  ctx.cases("levels", 8, bad)

  def settings(rng, i):
    good = dict(burn_in=5.0, sub_gscale=1.0, tau_bound=1.0)
    for key, values in (("burn_in", (0.0, 1.0, -4.0)),
                        ("sub_gscale", (0.0, -1.0, -1e-9)),
                        ("tau_bound", (0.0, -1.0, -1e-9))):
      for v in values:
        arm = make_arm(rng, CI.FINITE_SAMPLE, spies.SpyEta(), **{**good, key: v})
        ctx.raises(ValueError, lambda: arm.update(spies.tagged(range(40)), .1),
                   f"a finite-sample interval is computed with {key}={v}")
        arm = make_arm(rng, (CI.CHI2, CI.CLT)[i % 2], spies.SpyEta(),
                       **{**good, key: v})
        arm.update(spies.tagged(range(40)), .1)
        ctx.count("settings tried")

  ctx.cases("settings", 4, settings)

  def real(rng, i):
    """The width comes from the real estimator at level delta/2."""
    d = int(rng.integers(1, 3))
    if i % 2:
      eta, make = P.AIPWLinearLogistic(d), lambda n: linear_data(rng, n, d)
    else:
      eta, make = P.FrontDoorLinearFiniteZ(d), lambda n: front_data(rng, n, d)
    kw = dict(burn_in=20.0, sub_gscale=1.0, tau_bound=1.0,
              eta_sub_gscale=float(rng.choice([.5, 1, 2])),
              rho=float(rng.choice([.1, 1])))
    arm = make_arm(rng, CI.FINITE_SAMPLE, eta, **kw)
    seen = {}
    orig = eta.calculate_score
    eta.calculate_score = lambda x: seen.setdefault("s", orig(x))
    for t in range(3):
      seen.clear()
      delta = float(rng.choice([.01, .1, .3]))
      arm.update(make(int(rng.integers(40, 400))), delta)
      if "s" not in seen:
        continue
      u = eta.calculate_cs_width(delta / 2, kw["eta_sub_gscale"], kw["rho"])
      ctx.close(arm.ci, expected_ci(CI.FINITE_SAMPLE, seen["s"], delta, t + 1, kw,
                                    u),
                "the finite-sample interval of a real arm is not the documented "
                "one", rtol=1e-7, u=u, delta=delta,
                atol=1e-9 * (1 + 10 * np.var(seen["s"])))
      ctx.count("real intervals")

  ctx.cases("real", ctx.pick(40, 600), real)
  ctx.require(**{"intervals chi2": 300, "intervals CLT": 300,
                 "intervals finite_sample": 300, "nested pairs": 300,
                 "burn-in intervals": 20, "real intervals": 40,
                 "small sub_gscale": 30})


# --- C14 ----------------------------------------------------------------------
def hostile(rng, n, d, kind, finite_z):
  """Finite but awkward data."""
  z = rng.standard_normal((n, d))
  if finite_z:
    z = np.floor(rng.uniform(0, 3, (n, d)))
  x = (rng.uniform(size=n) < .5).astype(int)
  y = z.sum(axis=1) + x + rng.standard_normal(n)
  if kind == "constant covariates":
    z[...] = 1.0
  elif kind == "zero covariates":
    z[...] = 0.0
  elif kind == "collinear covariates":
    z = np.tile(z[:, :1], (1, d))
  elif kind == "covariate equals exposure":
    z = np.tile(x[:, None] * 1.0, (1, d))
  elif kind == "constant response":
    y[...] = 3.0
  elif kind == "zero response":
    y[...] = 0.0
  elif kind == "exact response":
    y = 2.0 * z[:, 0] + x
  elif kind == "huge response":
    y = y * 1e8
  elif kind == "tiny response":
    y = y * 1e-12
  elif kind == "huge covariates" and not finite_z:
    z = z * 1e5
  elif kind == "tiny covariates":
    z = z * 1e-9
  elif kind == "separable":
    x = (z[:, 0] > np.median(z[:, 0])).astype(int)
  elif kind == "few treated":
    x[...] = 0
    x[:max(1, n // 8)] = 1
  elif kind == "few controls":
    x[...] = 1
    x[:max(1, n // 8)] = 0
  elif kind == "all treated":
    x[...] = 1
  elif kind == "all control":
    x[...] = 0
  elif kind == "one treated":
    x[...] = 0
    x[int(rng.integers(n))] = 1
  elif kind == "outliers":
    y[rng.integers(n)] = 1e10
  elif kind == "binary response":
    y = y > 1
  elif kind == "integer response":
    y = np.round(y * 3).astype(int)
  t = [int, float, bool, np.int32][int(rng.integers(4))]
  return D.ExpData(z, x.astype(t), y)


HOSTILE = ("plain", "constant covariates", "zero covariates",
           "collinear covariates", "covariate equals exposure",
           "constant response", "zero response", "exact response",
           "huge response", "tiny response", "huge covariates",
           "tiny covariates", "separable", "few treated", "few controls",
           "all treated", "all control", "one treated", "outliers",
           "binary response", "integer response")


def c14(ctx):
  ctx.rule = (
      "update sequences of awkward finite data (constant, collinear, separable, "
      "extreme, unbalanced, tiny batches) on every estimator with every interval "
      "construction; distinct: (estimator, interval, data, fold situation)")

  def case(rng, i):
    d = int(rng.integers(1, 4))
    mu = int(rng.integers(1, 7))
    which = int(rng.integers(6))
    etas = [
        lambda: P.AIPWLinearLogistic(d, min_units=mu),
        lambda: P.AIPWKernelRidgeLogistic(d, min_units=mu),
        lambda: P.AIPWKernelGradientBoosting(d, min_units=mu),
        lambda: P.FrontDoorLinearFiniteZ(d, min_units=mu),
        lambda: P.LinearParameterBinaryTreatment(d),
        lambda: P.LinearRegressionParameter(d),
    ]
    eta = etas[which]()
    groups = {4: 1, 5: None}.get(which, mu)
    kind = KINDS[i % 4]
    if kind is CI.FINITE_SAMPLE and which >= 4:
      kind = CI.CLT
    if kind == "boot":
      if which >= 4:
        kind = CI.CHI2
    stable = bool(rng.integers(2))
    arm = make_arm(rng, kind, eta, stable=stable, n_bootstraps=6)
    fits = {}
    orig_fit = eta.fit
    orig_score = eta.calculate_score

    def fit(x):
      fits.setdefault("all", []).append((int(np.sum(x.exp)), len(x)))
      return orig_fit(x)

    def score(x):
      fits["scored"] = len(x)
      return orig_score(x)

    eta.fit, eta.calculate_score = fit, score
    mix = HOSTILE[i % len(HOSTILE)] if rng.uniform() < .7 else None
    log = []
    total = 0
    for t in range(int(rng.integers(1, 7))):
      n = int(rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 60]))
      if rng.uniform() < .03:
        n = int(rng.integers(61, 250))
      total += n
      what = mix or HOSTILE[int(rng.integers(len(HOSTILE)))]
      b = hostile(rng, n, d, what, which == 3)
      fits.clear()
      delta = float(rng.choice([1e-4, .01, .05, .1, .3]))
      log.append((n, what, delta))
      info = dict(estimator=type(eta).__name__, arm=name(kind), min_units=mu,
                  batches=list(log), stable_splits=stable, n_features=d)
      out = arm.update(b, delta)
      lo, hi = arm.ci
      ctx.ok(tuple(out) == (lo, hi), "update returns another interval than ci",
             **info)
      real = all(isinstance(v, (int, float, np.integer, np.floating))
                 for v in (lo, hi, arm.var_est, arm.ate))
      ctx.ok(real, "a bound or estimate is not a real number",
             got=[type(v).__name__ for v in (lo, hi, arm.var_est, arm.ate)],
             **info)
      ctx.ok(not math.isnan(lo) and not math.isnan(hi) and 0 <= lo <= hi,
             "the interval is not well-formed", ci=(lo, hi), **info)
      ctx.ok(not math.isnan(arm.var_est) and arm.var_est >= 0,
             "the variance estimate is not a nonnegative number",
             var_est=arm.var_est, **info)
      # The whole fitting fold is what was fitted first in this update.
      treated, size = fits["all"][0]
      held = total - size
      lacking = held < 2 or (groups is not None and
                             min(treated, size - treated) < groups)
      if lacking:
        ctx.ok((lo, hi) == (0, np.inf) and arm.var_est == np.inf and
               math.isnan(arm.ate), "short of data, but the report is not vacuous",
               ci=(lo, hi), var_est=arm.var_est, ate=arm.ate, treated=treated,
               fitting=size, held_out=held, **info)
        ctx.count("vacuous reports")
      elif groups is not None:
        ctx.ok(np.isfinite(arm.var_est) and np.isfinite(arm.ate),
               "enough data, but no finite estimates", var_est=arm.var_est,
               ate=arm.ate, treated=treated, fitting=size, held_out=held, **info)
        ctx.count("estimates with enough data")
      ctx.saw(type(eta).__name__, name(kind), what, lacking, held < 2)
      ctx.sample("vacuous" if lacking else "estimate", data=what, ci=(lo, hi),
                 var_est=arm.var_est, estimator=type(eta).__name__)

  ctx.cases("hostile", ctx.pick(900, 20000), case, ctx.pick(90, 3600))
  ctx.require(**{"vacuous reports": 100, "estimates with enough data": 100})


# --- C15 ----------------------------------------------------------------------
def c15(ctx):
  ctx.rule = (
      "long update sequences of CLT arms with spy and real estimators; the level "
      "implied by each reported interval is recovered and summed; distinct: "
      "(delta, pull, level)")

  def levels(arm, scores):
    n = len(scores)
    se = math.sqrt(np.var((scores - np.mean(scores))**2) / n)
    if not se > 1e-9 * max(1.0, abs(arm.var_est)):
      return None
    return 2 * st.norm.sf((arm.ci[1] - arm.var_est) / se), (
        2 * st.norm.sf((arm.var_est - arm.ci[0]) / se) if arm.ci[0] > 0 else 0)

  def case(rng, i):
    delta = float([.01, .05, .1, .3, .9][i % 5])
    pulls = int(ctx.pick(rng.integers(30, 250), rng.integers(100, 1500)))
    if i % 3 == 2:
      d = 1
      eta = P.AIPWLinearLogistic(d, min_units=2)
      make = lambda n: linear_data(rng, 2 * n, d)
      pulls = min(pulls, 60)
    else:
      eta = spies.SpyEta(need=1)
      make = lambda n: spies.tagged(np.arange(n_seen[0] - n, n_seen[0]))
    n_seen = [0]
    sizes = [(6, 6), (2, 9), (4, 5, 40), (3, 60)][int(rng.integers(4))]
    arm = A.SampleSplittingArm("clt", eta, D.get_identity_fn(),
                               ci_algorithm=CI.CLT,
                               stable_splits=bool(rng.integers(2)) or pulls > 300)
    seen = {}
    orig = eta.calculate_score

    def score(x):
      seen["s"] = orig(x)
      return seen["s"]

    eta.calculate_score = score
    up = down = 0.0
    used = 0
    for t in range(pulls):
      seen.clear()
      if isinstance(eta, spies.SpyEta):
        eta.events.clear()
      n_new = int(rng.choice(sizes))
      n_seen[0] += n_new
      arm.update(make(n_new), delta)
      if "s" not in seen or not np.isfinite(arm.ci[1]):
        continue
      lv = levels(arm, seen["s"])
      if lv is None:
        continue
      up += lv[0]
      down += lv[1]
      used += 1
      # 1e-6 relative: the level is recovered through the normal tail
      ctx.ok(max(up, down) <= delta * (1 + 1e-6),
             "the levels implied by the CLT intervals add up to more than delta",
             delta=delta, pull=t + 1, level=lv, total=max(up, down))
      ctx.count("pulls checked")
      ctx.saw(delta, t, round(lv[0], 12))
    if used == pulls and pulls > 100:
      ctx.count("sequences using 95% of the budget", up > .95 * delta)
    ctx.sample("CLT budget", delta=delta, pulls=pulls, total=up)

  ctx.cases("budget", ctx.pick(40, 300), case)

  def many(rng, i):
    """Thousands of pulls, most of them without new units."""
    delta = float([.05, .3, .01, .9][i % 4])
    eta = spies.SpyEta(need=1)
    arm = A.SampleSplittingArm("clt", eta, D.get_identity_fn(),
                               ci_algorithm=CI.CLT,
                               stable_splits=bool(rng.integers(3)))
    n = int(rng.integers(60, 200))
    empty = spies.tagged(np.arange(0))
    pulls = int(ctx.pick(rng.integers(2500, 6000), rng.integers(5000, 40000)))
    seen = {}
    orig = eta.calculate_score

    def score(x):
      seen["s"] = orig(x)
      return seen["s"]

    eta.calculate_score = score
    total = 0.0
    for t in range(pulls):
      arm.update(empty if t else spies.tagged(np.arange(n)), delta)
      eta.events.clear()
      lv = levels(arm, seen["s"])
      if lv is None:
        return
      total += max(lv)
      ctx.ok(total <= delta * (1 + 1e-6),
             "the levels implied by the CLT intervals add up to more than delta",
             delta=delta, pull=t + 1, level=lv, total=total)
      ctx.count("pulls of long sequences")
    ctx.saw("long", delta, pulls)

  ctx.cases("long", ctx.pick(6, 24), many)
  ctx.require(**{"pulls checked": 1000, "pulls of long sequences": 10000})


# --- C16 ----------------------------------------------------------------------
def c16(ctx):
  ctx.rule = (
      "bootstrap arms with a recording estimator: every fit and score of an "
      "update is replayed against the documented scheme; distinct: (number of "
      "resamples, level, interval)")

  def case(rng, i):
    boots = int(rng.choice([0, 2, 3, 5, 10, 17, 40]))
    delta = float(rng.choice([.03125, .0625, .125, .25, .5, .1, .05, .3, .7]))
    tiny = rng.uniform() < .015
    if tiny:
      boots, delta = 0, float(rng.choice([.02, .01, .005, 2**-9]))
    huge = i % 90 == 4
    if huge:  # tens of thousands of units
      boots, tiny = int(rng.choice([2, 3, 5, 10])), False
    eta = spies.SpyEta(need=int(rng.integers(1, 6)),
                       offset=float(rng.choice([0, 0, 0, 1e3, -1e5])))
    stable = bool(rng.integers(2))
    arm = A.BootstrapArm("boot", eta, D.get_identity_fn(), n_bootstraps=boots,
                         stable_splits=stable)
    vary = rng.uniform() < .4 and not tiny
    received = set()
    ctx.count("small levels", tiny)
    small = rng.uniform() < .3 and not tiny and not huge  # so small that a resample can leave no unit
    for t, b in enumerate(feed(rng, int(rng.integers(1, 2 if tiny or huge else 5)),
                               sizes=(4, 5, 6, 8) if small else (24, 40, 56)
                               if not huge else (16000, 30000, 60000),
                               large=.03, mixed=rng.uniform() < .3)):
      received |= set(spies.ids_of(b))
      eta.events.clear()
      if vary:
        delta = float(rng.choice([.0625, .125, .25, .5, .1, .3, .7]))
      b_want = boots or math.ceil(4 / delta)
      arm.update(b, delta)
      info = dict(n_bootstraps=boots, delta=delta, update=t, stable=stable)
      # Group the events by fit.
      groups = []
      for e in eta.events:
        if e[0] == "fit":
          groups.append((e[1], []))
        elif e[0] == "score":
          ctx.ok(groups, "scores before any fit", **info)
          if set(e[1]) not in [set(x) for x in groups[-1][1]]:
            groups[-1][1].append(e[1])
      pairs = spies.held_out(eta.events, received)
      if len(eta.fitted) < eta.need:
        ctx.close(arm.ci, (0, np.inf), "the interval without enough data is not "
                  "the vacuous one", **info)
        continue
      ctx.ok(pairs, "no fit and score partition the units received", **info)
      fold, held = pairs[-1]
      fold_set = set(fold)
      resamples = []
      for f, scored in groups:
        for h in scored:
          if set(h) == set(held):
            ctx.ok(set(f) == fold_set,
                   "the held-out units are scored with an estimator not fitted to "
                   "the whole fitting fold", fitted=len(f), fold=len(fold),
                   **info)
            continue
          ctx.ok(set(f) | set(h) == fold_set and not set(f) & set(h) and
                 len(f) + len(h) == len(fold_set),
                 "a resample does not fit on one part of the fitting fold and "
                 "score the complementary part", fitted=sorted(f)[:20],
                 scored=sorted(h)[:20], fold=len(fold_set), **info)
          if h:
            resamples.append((tuple(sorted(f)), np.var(eta.scores(h, f))))
      # Resamples that fit on the whole fold leave nothing to score.
      whole = sum(set(f) == fold_set and not any(
          x and set(x) != set(held) for x in scored) for f, scored in groups)
      nothing = small and len(resamples) < b_want
      ctx.ok(len(resamples) == b_want or
             nothing and len(resamples) + whole >= b_want,
             "the number of resamples is wrong", got=len(resamples),
             expected=b_want, fitted_to_the_whole_fold=whole, **info)
      ctx.ok(set(eta.fitted) == fold_set, "the estimator is not left fitted to the "
             "whole fitting fold", left_with=len(eta.fitted), fold=len(fold),
             **info)
      if b_want >= 10 and not small:
        ctx.ok(len({r[0] for r in resamples}) > 1, "all resamples are alike",
               **info)
      v = sorted(r[1] for r in resamples)
      lo, hi = delta / 2 * b_want, (1 - delta / 2) * b_want
      lows = {math.floor(lo), math.floor(lo + 1e-9), math.floor(lo - 1e-9)}
      highs = {math.ceil(hi), math.ceil(hi + 1e-9), math.ceil(hi - 1e-9)}
      lows = [v[j] for j in lows if 0 <= j < len(v)]
      highs = [v[j - 1] for j in highs if 1 <= j <= len(v)]
      if nothing:
        lows, highs = [0], [np.inf]
        ctx.count("resamples with nothing to score")
      ctx.ok(any(math.isclose(arm.ci[0], x, rel_tol=1e-9, abs_tol=1e-12)
                 for x in lows) and
             any(math.isclose(arm.ci[1], x, rel_tol=1e-9, abs_tol=1e-12)
                 for x in highs),
             "the bounds are not the documented order statistics",
             ci=arm.ci, expected=(lows, highs), variances=v, **info)
      s = eta.scores(held, fold)
      ctx.close([arm.ate, arm.var_est], [np.mean(s), np.var(s)],
                "the estimates are not those of the held-out fold under the fit to "
                "the whole fitting fold", **info)
      ctx.count("updates checked")
      ctx.count("resamples replayed", len(resamples))
      ctx.saw(boots, delta, float(arm.ci[0]), float(arm.ci[1]))
      ctx.sample("bootstrap", ci=arm.ci, resamples=b_want, variances=v[:6], **info)

  ctx.cases("replay", ctx.pick(900, 12000), case)

  def randomness(rng, i):
    """Every unit of the fitting fold is as likely in the fitted part."""
    del i
    boots = 400
    eta = spies.SpyEta(need=1)
    arm = A.BootstrapArm("boot", eta, D.get_identity_fn(), n_bootstraps=4)
    hits, total = {}, 0
    m = ctx.pick(1500, 20000)
    for t in range(m):
      arm.reset()
      eta.events.clear()
      ids = np.arange(40)
      arm.update(spies.tagged(ids), .5)
      pairs = spies.held_out(eta.events, set(range(40)))
      if not pairs:
        return
      fold = pairs[-1][0]
      for e in eta.events:
        if e[0] == "fit" and set(e[1]) != set(fold):
          total += len(fold)
          for r, u in enumerate(fold):
            hits.setdefault(r, []).append(u in set(e[1]))
    p = np.mean([np.mean(h) for h in hits.values()])
    ctx.ok(0 < p < 1, "resamples fit on nothing or on everything", p=p)
    for r, h in hits.items():
      se = math.sqrt(p * (1 - p) / len(h))
      ctx.ok(abs(np.mean(h) - p) < 6 * se,
             "whether a resample fits on a unit depends on its position",
             position=r, frequency=np.mean(h), overall=p)
    ctx.count("memberships in randomness test", total)
    del boots, rng

  ctx.cases("random", 1, randomness)
  ctx.require(**{"updates checked": 300, "resamples replayed": 1000,
                 "small levels": 3})


# --- C10 ----------------------------------------------------------------------
def c10(ctx):
  ctx.rule = (
      "real estimators and spies with every interval: an arm (or bandit) used on "
      "unrelated data and reset is compared, update by update, with a new one "
      "under the same seed; distinct: (estimator, interval, report)")

  def report(arm):
    return (arm.ci, arm.var_est, arm.ate, arm.num_pulled, arm.get_num_units())

  def same(x, y):
    for a, b in zip(x, y):
      if a is None or b is None:
        if a is not b:
          return False
      elif not np.allclose(np.asarray(a, dtype=float), np.asarray(
          b, dtype=float), rtol=1e-7, atol=1e-9, equal_nan=True):
        return False
    return True

  def build(seed, i):
    rng = np.random.default_rng(seed)
    eta, tr, make = real_eta(rng, i)
    if i % 6 < 3 or i % 6 == 5:
      kind = KINDS[(i // 6) % 4]
    else:
      kind = KINDS[(i // 6) % 2]
    arm = make_arm(rng, kind, eta, tr, n_bootstraps=5)
    return arm, rng, make

  def case(rng, i):
    seed = int(rng.integers(2**31))
    fresh, r1, make1 = build(seed, i)
    used, r2, make2 = build(seed, i)
    info = dict(estimator=type(fresh.eta).__name__)
    for _ in range(int(rng.integers(1, 3))):
      other = np.random.default_rng(int(rng.integers(2**31)))
      # sometimes its estimator is used, but the arm is not
      idle = rng.uniform() < .2
      for _ in range(int(rng.integers(1, 5))):
        n = int(rng.integers(20, 80))
        b = (front_data if i % 6 == 5 else linear_data)(
            other, n, fresh_dim(seed, i))
        b.rsp = b.rsp * 3 + 5
        if not idle:
          used.update(b, float(rng.choice([.01, .1, .3])))
      if idle or rng.uniform() < .3:
        used.eta.fit(b)
        ctx.count("estimators fitted by themselves")
      if rng.integers(2):
        used.reset()
      else:  # by way of an algorithm that has it
        s = S.Scenario()
        s.algo, s.units, s.error_prob, s.error_tol = S.ALGOS[i % 3], 30, .1, 0.0
        s.limit = 100
        S.make_bandit(s, [used], None).reset()
      ctx.ok(same(report(used), report(fresh)),
             "a reset arm does not report what a new one does",
             reset=report(used), new=report(fresh), **info)
      ctx.ok(not used.eta.has_enough_samples(), "the estimator of a reset arm is "
             "still fitted", **info)
    for t in range(int(rng.integers(1, 5))):
      s = int(rng.integers(2**31))
      n = int(rng.integers(20, 80))
      delta = float(rng.choice([.05, .2]))
      np.random.seed(s)
      fresh.update(make1(n), delta)
      np.random.seed(s)
      used.update(make2(n), delta)
      ctx.ok(same(report(used), report(fresh)),
             "a reset arm behaves differently from a new one", update=t,
             reset=report(used), new=report(fresh), **info)
      ctx.count("updates compared")
      ctx.saw(type(fresh.eta).__name__, repr(fresh.var_est), repr(fresh.ci))
    ctx.sample("reset arm", report=report(used), **info)

  def fresh_dim(seed, i):
    rng = np.random.default_rng(seed)
    del i
    return int(rng.integers(1, 4))

  ctx.cases("arms", ctx.pick(240, 8000), case, ctx.pick(60, 3600))

  def result(o, arm_list):
    return ([[list(map(float, h[a])) for a in arm_list] for h in (
        o.lcb_by_arm, o.ucb_by_arm, o.var_est_by_arm, o.samples_by_arm)],
            list(map(float, o.cum_samples)),
            [arm_list.index(b) for b in o.best_arm])

  def equal(x, y):
    if x[2] != y[2] or len(x[1]) != len(y[1]):
      return False
    return np.allclose(x[1], y[1]) and np.allclose(
        np.array(x[0]), np.array(y[0]), rtol=1e-7, atol=1e-9, equal_nan=True)

  def bandit_case(rng, i):
    seed = int(rng.integers(2**31))
    algo = S.ALGOS[i % 3]

    def new():
      r = np.random.default_rng(seed)
      if i % 2:
        k = int(r.integers(2, 4))
        arm_list = []
        for j in range(k):
          a, _, _ = build(seed, 0)
          a.cost = float(j + 1)
          arm_list.append(a)
        d = fresh_dim(seed, 0)
        gen = D.LinearDataGenerator("lin", d, np.ones(d), 1.0,
                                    gamma=.5 * np.ones(d))
        s = S.Scenario()
        s.algo, s.units, s.error_prob, s.error_tol = algo, 30, .1, 0.0
        s.limit = 30 * k * 5
        bandit = S.make_bandit(s, arm_list, gen)
        data = None
        if r.integers(2):
          np.random.seed(seed % 1000)
          data = gen.generate(s.limit * 2 + 500)
        return arm_list, bandit, data
      _, arm_list, bandit, data = c_bandits.real_problem(r, algo)
      return arm_list, bandit, data if r.integers(2) else None

    def run(bandit, data):
      np.random.seed(seed)
      return bandit.run(data)

    a1, b1, d1 = new()
    first = result(run(b1, d1), a1)
    a2, b2, d2 = new()
    second = result(run(b2, d2), a2)
    ctx.ok(equal(first, second), "two runs of identical fresh objects under the "
           "same seed differ", algorithm=algo)
    # ... and a reset bandit that has been used on other data
    a3, b3, d3 = new()
    np.random.seed(seed + 1)
    b3.run(d3)
    b3.reset()
    # (the tagged generator, used if i is even, never repeats its data)
    third = run(b3, d3)
    if d3 is not None or i % 2:
      ctx.ok(equal(first, result(third, a3)), "a reset bandit gives another result "
             "than a new one under the same seed and data", algorithm=algo,
             fixed_dataset=d3 is not None, first=first[2], third=[
                 a3.index(b) for b in third.best_arm])
      ctx.count("reset bandits compared")
    ctx.count("bandit runs compared")
    ctx.saw(algo, repr(first)[:2000])

  ctx.cases("bandits", ctx.pick(36, 900), bandit_case, ctx.pick(60, 3600))
  ctx.require(**{"updates compared": 200, "reset bandits compared": 10})
