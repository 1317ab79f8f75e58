"""Monitor of C37: objects do not influence each other."""
import os
import pickle
import signal
import struct
import sys
import warnings

import numpy as np

from harness import boot
from harness import c_arms
from harness import c_endtoend
from harness import scripted as S

A, B, D, P = boot.arms, boot.bandits, boot.data, boot.parameters
ES, NU, PU = boot.example_scm, boot.nonlinear_utils, boot.paper_utils

DIM = 2


def pool(seed):
  """Data sets used by several objects; some share fields or sizes."""
  rng = np.random.default_rng(seed)
  n = int(rng.integers(24, 70))
  out = []
  for k in (n, n, int(rng.integers(24, 90)), int(rng.integers(4, 12))):
    cov = rng.integers(0, 3, (k, DIM)) / 2.0
    exp = (rng.uniform(size=k) < .5).astype(int if rng.integers(2) else float)
    exp[:4] = [0, 1, 0, 1]
    rsp = cov.dot([1.0, -.5]) + exp + rng.standard_normal(k)
    out.append(D.ExpData(cov, exp, rsp))
  a = out[0]
  out.append(D.ExpData(a.cov, a.exp, a.rsp[::-1] * 2))  # shares two arrays
  out.append(D.ExpData(a.cov + 1.0, a.exp, a.rsp))
  perm = rng.permutation(n)
  out.append(D.ExpData(a.cov[perm], a.exp[perm], a.rsp[perm]))
  return out


def fields(d):
  return [None if f is None else np.array(f) for f in (d.cov, d.exp, d.rsp)] + [
      len(d), d.n_features]


def freeze(x):
  """A copy of a result, as nested lists of arrays."""
  if isinstance(x, D.ExpData):
    return freeze(fields(x))
  if isinstance(x, B.BanditData):
    hist = [[list(map(float, h[a])) for a in h] for h in (
        x.lcb_by_arm, x.ucb_by_arm, x.var_est_by_arm, x.samples_by_arm)]
    return [freeze(hist), freeze(list(map(float, x.cum_samples))),
            [list(x.lcb_by_arm).index(a) for a in x.best_arm]]
  if isinstance(x, (list, tuple)):
    return [freeze(v) for v in x]
  if isinstance(x, dict):
    return [freeze(x[k]) for k in sorted(x)]
  if x is None or isinstance(x, (str, bytes)):
    return x
  return np.array(x, dtype=float)


def equal(x, y):
  if isinstance(x, list):
    return isinstance(y, list) and len(x) == len(y) and all(
        equal(a, b) for a, b in zip(x, y))
  if isinstance(x, np.ndarray):
    if not isinstance(y, np.ndarray) or x.shape != y.shape:
      return False
    scale = np.abs(x[np.isfinite(x)]).max() if np.isfinite(x).any() else 1.0
    return np.allclose(x, y, rtol=1e-7, atol=1e-9 * max(scale, 1),
                       equal_nan=True)
  return x == y


# Each kind returns (constructor, function that draws an operation). An operation
# is (name, function of the object and the pool, reads live state?).
def expdata(rng):
  j = int(rng.integers(7))

  def op(r):
    k, p, c = int(r.integers(7)), float(r.uniform(.1, .9)), int(r.integers(1, 5))
    which = int(r.integers(5))
    if which == 0:
      def f(o, ds):
        o.append(ds[k])
        return fields(o)
      return f"append {k}", f
    if which == 1:
      return f"k_fold {c}", lambda o, ds: o.k_fold(c)
    if which == 2:
      return "subsample", lambda o, ds: o.subsample(p)
    if which == 3:
      return "index", lambda o, ds: o[np.arange(0, len(o), c)]
    return "fields", lambda o, ds: fields(o)

  return lambda ds: D.ExpData(ds[j].cov, ds[j].exp, ds[j].rsp), op


def tabular(rng):
  ratio = float(rng.choice([1.5, 5, 20]))
  default = bool(rng.integers(2))

  def marginals(o):
    return sorted((np.asarray(x).tolist(), float(o.x_marginal[np.asarray(
        x).tobytes()])) for x in o.x_support())

  def op(r):
    k, k2 = int(r.integers(7)), int(r.integers(7))

    def fit(o, ds):
      o.fit(ds[k].exp, ds[k].cov)
      o.fitted = ds[k].exp.dtype
      return [o.support_size(), sorted(np.asarray(z).tolist()
                                       for z in o.z_support())]

    def predict(o, ds):
      if not o.support_size():
        return None
      return o.predict(ds[k2].exp.astype(o.fitted), ds[k2].cov)

    return [("fit", fit), ("predict", predict), ("predict", predict),
            ("marginals", lambda o, ds: marginals(o))][int(r.integers(4))]

  return lambda ds: (D.TabularCPD() if default else D.TabularCPD(ratio)), op


def truth():
  return D.LinearDataGenerator("truth", DIM, np.array([1.0, -2]), .7,
                               gamma=np.array([.5, .25]))


def make_estimator(rng):
  which = int(rng.integers(6))
  mu, mo = int(rng.integers(1, 4)), float(rng.choice([.02, .1, .25]))
  default = bool(rng.integers(2))
  kw = {} if default else dict(min_units=mu, min_overlap=mo)
  return which, [
      lambda: P.AIPWLinearLogistic(DIM, **kw),
      lambda: P.AIPWKernelRidgeLogistic(DIM, **kw),
      lambda: P.AIPWKernelGradientBoosting(DIM, **kw),
      lambda: P.LinearParameterBinaryTreatment(DIM),
      lambda: P.LinearRegressionParameter(DIM),
      lambda: P.FrontDoorLinearFiniteZ(DIM, **kw)][which]


def estimator(rng):
  which, make = make_estimator(rng)

  def op(r):
    k = int(r.integers(7))
    delta = float(r.choice([.05, .2]))

    def fit(o, ds):
      o.fit(ds[k])
      return o.has_enough_samples()

    def score(o, ds):
      return o.calculate_score(ds[k]) if o.has_enough_samples() else None

    def parts(o, ds):
      return o.transform(ds[k]) if o.has_enough_samples() else None

    def width(o, ds):
      if which in (3, 4) or not o.has_enough_samples():
        return None
      return o.calculate_cs_width(delta, sub_g=1.0, rho=.5)

    def reset(o, ds):
      o.reset()
      return o.has_enough_samples()

    def true(o, ds):
      if which not in (0, 3) or not o.has_enough_samples():
        return None
      o.set_to_truth(truth())
      return o.calculate_score(ds[k])

    ops = [("fit", fit)] * 4 + [("score", score)] * 4 + [
        ("transform", parts), ("width", width), ("width", width),
        ("reset", reset), ("set_to_truth", true)]
    return ops[int(r.integers(len(ops)))]

  return lambda ds: make(), op


def make_one_arm(rng, cost=None):
  which, make = make_estimator(rng)
  kinds = c_arms.KINDS if which not in (3, 4) else (
      c_arms.KINDS[0], c_arms.KINDS[1], "boot")
  kind = kinds[int(rng.integers(len(kinds)))]
  seed = int(rng.integers(2**31))

  def new():
    arm = c_arms.make_arm(np.random.default_rng(seed), kind, make(),
                          n_bootstraps=5)
    if cost is not None:
      arm.cost = cost
    return arm
  return new


def an_arm(rng):
  new = make_one_arm(rng)

  def report(o):
    return [o.ci, o.var_est, o.ate, o.num_pulled, o.get_num_units(), o.cost]

  def op(r):
    k = int(r.integers(7))
    delta = float(r.choice([.05, .2]))

    def update(o, ds):
      got = o.update(ds[k], delta)
      return [got] + report(o)

    def reset(o, ds):
      o.reset()
      return report(o)

    ops = [("update", update)] * 6 + [
        ("report", lambda o, ds: report(o)), ("reset", reset)]
    return ops[int(r.integers(len(ops)))]

  return lambda ds: new(), op


def a_bandit(rng):
  algo = S.ALGOS[int(rng.integers(3))]
  k = int(rng.integers(2, 4))
  news = [make_one_arm(np.random.default_rng(int(rng.integers(2**31))), j + 1.0)
          for j in range(k)]
  s = S.Scenario()
  s.algo, s.units, s.error_prob, s.error_tol = algo, 20, .1, 0.0
  s.limit = 20 * k * int(rng.integers(2, 5))
  fixed = bool(rng.integers(2))

  class Grid(D.DataGenerator):
    """Finite covariates, as the front-door estimator needs them."""

    def generate(self, n_samples):
      cov = np.random.randint(0, 3, (n_samples, DIM)) / 2.0
      exp = np.random.binomial(1, .5, n_samples)
      return D.ExpData(cov, exp, cov.sum(axis=1) + exp + np.random.randn(
          n_samples))

  def make(ds):
    arm_list = [f() for f in news]
    o = S.make_bandit(s, arm_list, Grid("grid"))
    o.keep = arm_list
    return o

  def op(r):
    seed = int(r.integers(2**31))

    def run(o, ds):
      if fixed:
        rng2 = np.random.default_rng(seed)
        n = s.limit * 2 + 200
        cov = rng2.integers(0, 3, (n, DIM)) / 2.0
        exp = rng2.integers(0, 2, n)
        got = o.run(D.ExpData(cov, exp, cov.sum(axis=1) + exp +
                              rng2.standard_normal(n)))
      else:
        got = o.run()
      return [got, [a.ci for a in o.keep], [a.num_pulled for a in o.keep]]
    return "run", run

  return make, op


def generator(rng):
  which = int(rng.integers(4))
  seed = int(rng.integers(1000))

  def make(ds):
    np.random.seed(seed)
    if which == 0:
      r = np.random.default_rng(seed)
      gamma = r.standard_normal(DIM) if seed % 2 else None
      return D.LinearDataGenerator("linear", DIM, r.standard_normal(DIM), .5,
                                   gamma=gamma)
    if which in (1, 2):
      return (ES.back_door_scm, ES.frontdoor_scm)[which - 1]()[0]
    return PU.get_section_5_1_example([2, 1, 2], [0, 1, 2], seed, 1.0, 1.0, 1.0, 2,
                                      500, 100)[0]

  def op(r):
    n = int(r.integers(1, 40))
    if which and r.integers(3) == 0:
      return "effect", lambda o, ds: o.compute_treatment_effect(n)
    return "generate", lambda o, ds: o.generate(n)

  return make, op


def function(rng):
  seed, out = int(rng.integers(1000)), int(rng.integers(1, 3))
  n = int(rng.integers(4, 7))

  def op(r):
    k = int(r.integers(7))
    return "evaluate", lambda o, ds: o(ds[k].cov)

  return lambda ds: NU.generate_random_nd_function(
      DIM, out, seed=seed, n_points=n), op


def selector(rng):
  which, idx = int(rng.choice([0, 1, 2, 3, 1, 3, 1])), int(rng.integers(DIM))
  some = [int(v) for v in rng.permutation(DIM)[:rng.integers(1, DIM + 1)]]
  if rng.uniform() < .3:
    some.append(some[0])

  def make(ds):
    del ds
    mask = D.get_coordinate_mask_fn
    # the second on a list of its own, in another order
    return [D.get_identity_fn, lambda: mask(list(some)),
            lambda: D.get_remove_coordinates_fn(idx),
            lambda: mask(sorted(some))][which]()

  def op(r):
    k = int(r.integers(7))
    return "apply", lambda o, ds: o(ds[k])

  return make, op


KINDS = [("dataset", expdata), ("table", tabular), ("estimator", estimator),
         ("arm", an_arm), ("bandit", a_bandit), ("generator", generator),
         ("function", function), ("selector", selector)]
WEIGHTS = np.array([2, 2, 5, 5, 2, 2, .5, 3])


class Script:
  """An object and a sequence of operations on it."""

  def __init__(self, kind, config, ops_seed, length):
    self.name, f = KINDS[kind]
    self.make, draw = f(np.random.default_rng(config))
    r = np.random.default_rng(ops_seed)
    self.ops = [draw(r) for _ in range(length)]
    self.seeds = [int(v) for v in r.integers(2**31, size=length + 1)]

  def start(self, ds):
    np.random.seed(self.seeds[-1])
    self.obj = self.make(ds)
    self.step = 0
    self.frozen, self.live = [], []

  def advance(self, ds):
    name, f = self.ops[self.step]
    np.random.seed(self.seeds[self.step])
    out = f(self.obj, ds)
    self.frozen.append(freeze(out))
    self.live.append(out)
    self.step += 1
    return name


class Fresh:
  """Runs scripts, each in a process in which nothing else has been used.

  A server is forked before the first case and forks a child per script.
  """

  def __init__(self):
    (r, self.ask), (self.answer, w) = os.pipe(), os.pipe()
    self.pid = os.fork()
    if self.pid == 0:
      os.close(self.ask)
      os.close(self.answer)
      signal.signal(signal.SIGALRM, signal.SIG_DFL)
      sys.stdout = open(os.devnull, "w")
      warnings.simplefilter("ignore")
      try:
        self.serve(r, w)
      finally:
        os._exit(0)
    os.close(r)
    os.close(w)

  @staticmethod
  def read(fd):
    def exactly(n):
      out = b""
      while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
          raise EOFError
        out += b
      return out
    return pickle.loads(exactly(struct.unpack("q", exactly(8))[0]))

  @staticmethod
  def write(fd, x):
    b = pickle.dumps(x)
    b = struct.pack("q", len(b)) + b
    while b:
      b = b[os.write(fd, b):]

  def serve(self, r, w):
    while True:
      try:
        spec, ds_seed = self.read(r)
      except EOFError:
        return
      cr, cw = os.pipe()
      pid = os.fork()
      if pid == 0:
        signal.alarm(100)
        try:
          s = Script(*spec)
          ds = pool(ds_seed)
          s.start(ds)
          while s.step < len(s.ops):
            s.advance(ds)
          self.write(cw, s.frozen)
        finally:
          os._exit(0)
      os.close(cw)
      try:
        out = self.read(cr)
      except EOFError:
        out = None
      os.close(cr)
      os.waitpid(pid, 0)
      self.write(w, out)

  def run(self, spec, ds_seed):
    """The script's results, or None if it raised."""
    self.write(self.ask, (spec, ds_seed))
    return self.read(self.answer)

  def stop(self):
    os.close(self.ask)
    os.close(self.answer)
    os.waitpid(self.pid, 0)


def c37(ctx):
  fresh = Fresh()
  try:
    monitor(ctx, fresh)
  finally:
    fresh.stop()


def monitor(ctx, fresh):
  ctx.rule = (
      "two to four objects (datasets, tables, estimators, arms, bandits, "
      "generators, random functions, selectors), often of one class and "
      "configuration, used alternately on shared data sets, in a process in which "
      "those of all earlier cases were used, against each used alone on its own "
      "copies in a process of its own; distinct: (objects, order of operations)")

  def case(rng, i):
    config = int(rng.integers(2**31))
    ds_seed = int(rng.integers(2**31))
    n = int(rng.choice([2, 2, 3, 4]))
    first = int(rng.choice(len(KINDS), p=WEIGHTS / WEIGHTS.sum()))
    spec = []
    for j in range(n):
      kind, conf = first, config
      if j and rng.uniform() < .4:
        kind = int(rng.choice(len(KINDS), p=WEIGHTS / WEIGHTS.sum()))
      if j and rng.uniform() < .4:
        conf = int(rng.integers(2**31))
      length = int(rng.integers(1, 4)) if KINDS[kind][0] == "bandit" else int(
          rng.integers(3, 10))
      spec.append((kind, conf, int(rng.integers(2**31)), length))
    if rng.uniform() < .25:  # the same operations on two equal objects
      spec[1] = spec[0]
    alone = [fresh.run(t, ds_seed) for t in spec]
    together = [Script(*t) for t in spec]
    ds = pool(ds_seed)
    before = [freeze(d) for d in ds]
    order = []
    late = bool(rng.integers(2))  # construct all first, or each when first used
    started = set()
    if not late:
      for j in rng.permutation(n):
        together[j].start(ds)
        started.add(int(j))
    while True:
      todo = [j for j in range(n) if j not in started or
              together[j].step < len(together[j].ops)]
      if not todo:
        break
      j = int(rng.choice(todo))
      s = together[j]
      if j not in started:
        s.start(ds)
        started.add(j)
        order.append((j, "new"))
        continue
      order.append((j, s.advance(ds)))
      k = s.step - 1
      info = dict(objects=[t.name for t in together], order=order[-12:])
      ctx.ok(alone[j] is not None, "an object raises when it is used alone but "
             "not when others are used as well", object=s.name, **info)
      ctx.ok(equal(s.frozen[k], alone[j][k]), "an object behaves differently "
             "when others are used as well", object=s.name, operation=order[-1][1],
             got=s.frozen[k], alone=alone[j][k], **info)
      for t, (a, d) in enumerate(zip(before, ds)):
        ctx.ok(equal(a, freeze(d)), "an operation changed a shared data set",
               data=t, object=s.name, operation=order[-1][1], **info)
      ctx.count("operations compared")
      ctx.count(s.name + " operations")
    for s in together:
      for k, (a, b) in enumerate(zip(s.frozen, s.live)):
        ctx.ok(equal(a, freeze(b)), "a result changed after it was returned",
               object=s.name, operation=s.ops[k][0], order=order, then=a,
               now=freeze(b))
    ctx.saw(tuple(s.name for s in together), tuple(order))
    ctx.sample("interleaving", objects=[s.name for s in together], order=order[:12])
    del i

  ctx.cases("interleaved", ctx.pick(330, 9000), case, ctx.pick(240, 6000))

  def instance(rng, i):
    """Two instances of a paper example: only the arm that is used changes."""
    m = int(rng.integers(1, 4))
    nonlinear = i % 12 == 11
    if nonlinear:
      m = 1
    z_dim = [1] + [int(v) for v in rng.integers(1, 2 if nonlinear else 4, m)]
    v_dim = [0] + [int(v) for v in rng.integers(1, 2 if nonlinear else 4, m)]
    f = PU.get_section_5_2_example if nonlinear else PU.get_section_5_1_example
    seed = int(rng.integers(1000))
    np.random.seed(int(rng.integers(2**31)))
    both = [f(z_dim, v_dim, seed, 2.0, 1.0, 3.0, m, 3000, 100) for _ in range(2)]
    gen = both[0][0]
    probe = gen.generate(30)
    every = [(j, a) for j, ex in enumerate(both) for a in ex[1]]
    order = []

    def state(arm):
      ready = arm.eta.has_enough_samples()
      x = c_endtoend.transformer_of(arm)(probe)
      return [arm.ci, arm.ate, arm.var_est, arm.num_pulled, arm.get_num_units(),
              ready, arm.eta.calculate_score(x) if ready else None]

    before = [freeze(state(a)) for _, a in every]
    for _ in range(int(rng.integers(4, 12))):
      t = int(rng.integers(len(every)))
      arm = every[t][1]
      if rng.uniform() < .25:
        arm.reset()
        order.append((every[t][0], arm.name, "reset"))
      else:
        arm.update(gen.generate(int(rng.integers(20, 300))), .1)
        order.append((every[t][0], arm.name, "update"))
      now = [freeze(state(a)) for _, a in every]
      for k, (_, other) in enumerate(every):
        if k != t:
          ctx.ok(equal(before[k], now[k]), "an arm of a paper example changes when "
                 "another one is used", used=order[-1], changed=(
                     every[k][0], other.name), before=before[k], after=now[k],
                 z_dim=z_dim, v_dim=v_dim, seed=seed, nonlinear=nonlinear)
      before = now
      ctx.count("paper arms left alone", len(every) - 1)
    ctx.saw("instances", m, seed, tuple(order))

  ctx.cases("paper examples", ctx.pick(60, 900), instance, ctx.pick(120, 3000))
  ctx.require(**{"paper arms left alone": 500,
                 "operations compared": 1000, "arm operations": 200,
                 "estimator operations": 200, "bandit operations": 30,
                 "generator operations": 60, "table operations": 60,
                 "dataset operations": 60})
