"""Monitors of C01-C09: bandit runs over scripted and real arms."""
import math

import numpy as np

from harness import boot
from harness import scripted as S

A, B, D, P = boot.arms, boot.bandits, boot.data, boot.parameters

ALL_KINDS = ("grid", "shrink", "late", "tied", "zero", "adversarial", "cluster",
             "chain")


def describe_rule(ctx, extra):
  ctx.rule = (
      "bandit problems with 2-80 scripted arms (random costs, batch sizes, "
      "budgets around round boundaries, error tolerances, fixed dataset or "
      "generated data; trajectories on a coarse grid with ties, shrinking, "
      "initially vacuous, zero width, adversarial estimates, chains of "
      "steps below the tolerance) run through the "
      "real algorithms; non-trivial and distinct: distinct " + extra)


def go(ctx, rng, kinds=ALL_KINDS, **kw):
  s = S.scenario(rng, kinds, **kw)
  r = S.run_scenario(s)
  ctx.count(f"runs {s.algo}")
  ctx.count("updates observed", r.log.n_updates)
  ctx.count("runs after an earlier run", s.earlier is not None)
  return s, r


def overrun(ctx, s, r):
  """Has the run gone on long after its end? (C05 judges that.)"""
  del s
  ctx.count("runs that do not end", r.overrun)
  return r.overrun


# --- C01 ----------------------------------------------------------------------
def c01(ctx):
  describe_rule(ctx, "(algorithm, sequence of sampled arms, batch size)")

  def case(rng, i):
    s, r = go(ctx, rng, algo=S.ALGOS[i % 3])
    if overrun(ctx, s, r):
      return
    o = r.out
    info = dict(S.describe(s, r), cum_samples=list(o.cum_samples),
                samples_by_arm={a.name: list(v)
                                for a, v in o.samples_by_arm.items()})
    n = len(o.cum_samples)
    ctx.ok(n > 0, "no round was recorded", **info)
    for name in ("lcb_by_arm", "ucb_by_arm", "var_est_by_arm",
                 "samples_by_arm"):
      h = getattr(o, name)
      ctx.ok(set(h) == set(r.arms), f"{name} does not list exactly the arms",
             **info)
      for a in r.arms:
        ctx.ok(len(h[a]) == n,
               f"{name} of {a.name} has {len(h[a])} entries for {n} rounds",
               **info)
    # Replay the update log against the recorded samples, round by round.
    upd = r.log.updates
    pos = 0
    total = 0
    for t in range(n):
      want = {a.idx for a in r.arms if o.samples_by_arm[a][t] != 0}
      got = upd[pos:pos + len(want)]
      pos += len(want)
      ctx.ok({e[1] for e in got} == want and len(got) == len(want),
             f"round {t}: recorded as sampled {sorted(want)}, but "
             f"{[e[1] for e in got]} were given data", **info)
      for e in got:
        a = r.arms[e[1]]
        ctx.ok(o.samples_by_arm[a][t] == len(e[2]) == s.units,
               f"round {t}: {a.name} was given {len(e[2])} units, "
               f"{o.samples_by_arm[a][t]} recorded", **info)
      total += sum(len(e[2]) for e in got)
      ctx.ok(o.cum_samples[t] == total,
             f"round {t}: cumulative samples {o.cum_samples[t]}, but {total} "
             "units were handed out", **info)
      ctx.count("rounds checked")
    ctx.ok(pos == len(upd), "batches were handed out outside recorded rounds",
           **info)
    ctx.saw(s.algo, tuple(e[1] for e in upd), s.units)
    ctx.sample(f"run of {s.algo}", rounds=n, total=total,
               sampled=[e[1] for e in upd][:30])

  ctx.cases("accounting", ctx.pick(3000, 30000), case)

  class Counts(A.VarianceEstimatorArm):
    """Counts units; its interval and estimate change at every pull."""

    def __init__(self, name, rng):
      super().__init__(name, S.StubEta(), lambda d: d, 1.0)
      self.rng, self.given = rng, []

    def update(self, new_data, delta):
      self.given.append(len(new_data))
      return self.ci

    ci = property(lambda self: (0.0, 10.0))
    var_est = property(lambda self: float(self.rng.uniform(1, 9)))

    def get_num_units(self):
      return sum(self.given)

  class Wide(D.DataGenerator):
    """Any number of units, without their memory."""

    def generate(self, n_samples):
      flat = np.broadcast_to(0.0, (n_samples,))
      return D.ExpData(np.broadcast_to(0.0, (n_samples, 1)), flat, flat)

  def wide(rng, i):
    """Numbers of units beyond 2^24 (single precision) and 2^31 (32 bits)."""
    units = int(2**rng.uniform(22, 33)) | 1
    k = int(rng.integers(2, 6))
    arm_list = [Counts(f"arm{j}", rng) for j in range(k)]
    algo = (B.UniformAlgorithm, B.LUCBAlgorithm,
            B.SuccessiveEliminationAlgorithm)[i % 3]
    bandit = algo(arm_list, Wide("wide"), units_per_round=units,
                  sample_limit=units * int(rng.integers(k, 8 * k)))
    o = bandit.run(Wide("data").generate(units * 100) if rng.integers(2) else None)
    info = dict(algorithm=algo.__name__, arms=k, units_per_round=units,
                cum_samples=list(o.cum_samples))
    total = 0
    for t, c in enumerate(o.cum_samples):
      total += sum(int(o.samples_by_arm[a][t]) for a in arm_list)
      ctx.ok(c == total, "the cumulative samples are not the sum of the recorded "
             "ones", round=t, expected=total, **info)
    for a in arm_list:
      ctx.ok([v for v in o.samples_by_arm[a] if v] == a.given, "an arm was given "
             "other numbers of units than recorded", arm=a.name, given=a.given,
             recorded=list(o.samples_by_arm[a]), **info)
    ctx.count("runs of many units")
    ctx.saw("wide", algo.__name__, units)

  ctx.cases("many units", ctx.pick(60, 600), wide)

  def real(rng, i):
    del i
    log, arm_list, bandit, data = real_problem(rng)
    o = bandit.run(data)
    per_arm = {a: 0 for a in arm_list}
    for e in log.updates:
      per_arm[e[1]] += len(e[2])
    for a in arm_list:
      ctx.ok(sum(o.samples_by_arm[a]) == per_arm[a] == a.get_num_units(),
             "a real arm has seen another number of units than recorded",
             recorded=sum(o.samples_by_arm[a]), given=per_arm[a],
             reported=a.get_num_units())
      ctx.ok(len(o.lcb_by_arm[a]) == len(o.cum_samples),
             "history of another length than the cumulative samples")
    ctx.ok(o.cum_samples[-1] == sum(per_arm.values()),
           "cumulative samples of real arms are wrong",
           recorded=o.cum_samples[-1], given=per_arm.values())
    ctx.count("real runs")
    ctx.saw("real", type(bandit).__name__, tuple(o.cum_samples))

  ctx.cases("real", ctx.pick(12, 300), real)
  ctx.require(**{"rounds checked": 1000, "real runs": 10})


# --- C02 ----------------------------------------------------------------------
def c02(ctx):
  describe_rule(ctx, "(algorithm, recorded history of all arms)")

  def case(rng, i):
    s, r = go(ctx, rng, algo=S.ALGOS[i % 3])
    if overrun(ctx, s, r):
      return
    o = r.out
    info = S.describe(s, r)
    groups = S.rounds_from_log(s, r)
    n = len(groups)
    pulls = [0] * s.k
    carried = 0
    for t, g in enumerate(groups):
      for j in g:
        pulls[j] += 1
      for a in r.arms:
        carried += a.idx not in g
        want = a.adjusted(pulls[a.idx])
        for name, w in zip(("lcb_by_arm", "ucb_by_arm", "var_est_by_arm"),
                           want):
          h = getattr(o, name)[a]
          ctx.ok(len(h) == n, f"{name} of {a.name} does not have one entry "
                 f"per round", entries=len(h), rounds=n, **info)
          ctx.close(h[t], w, f"{name} of {a.name} at round {t} is not the "
                    "arm's cost times what it reported", rtol=1e-12, atol=0,
                 **info)
      ctx.count("rounds checked")
    ctx.count("carried entries", carried)
    ctx.saw(s.algo, tuple(tuple(g) for g in groups), tuple(s.costs),
            tuple(s.trajs[0]))
    ctx.sample(f"history of {s.algo}", costs=s.costs, sampled=groups[:8],
               ucb_of_arm0=o.ucb_by_arm[r.arms[0]][:8])

  ctx.cases("history", ctx.pick(2500, 30000), case)

  def real(rng, i):
    del i
    log, arm_list, bandit, data = real_problem(rng)
    o = bandit.run(data)
    # Every arm's own log gives what it reported after each of its pulls.
    for a in arm_list:
      k = 0
      for t in range(len(o.cum_samples)):
        k += o.samples_by_arm[a][t] > 0
        lo, hi, est = a.reported[k - 1]
        ctx.close([o.lcb_by_arm[a][t], o.ucb_by_arm[a][t],
                   o.var_est_by_arm[a][t]],
                  [a.cost * lo, a.cost * hi, a.cost * est],
                  "recorded history of a real arm is not what it reported",
                  round=t, arm=a.name)
        ctx.count("real entries")
    ctx.saw("real", type(bandit).__name__, tuple(o.cum_samples))
    del log

  ctx.cases("real", ctx.pick(12, 300), real)
  ctx.require(**{"rounds checked": 1000, "carried entries": 200,
                 "real entries": 50})


# --- C03 ----------------------------------------------------------------------
def c03(ctx):
  describe_rule(
      ctx, "(algorithm, sequence of sampled arms, returned arm) of runs that "
      "stopped with confidence while every interval contained the truth")

  def case(rng, i):
    s, r = go(ctx, rng, kinds=("shrink", "late", "zero", "adversarial",
                                  "cluster", "chain"),
              algo=S.ALGOS[i % 3])
    if overrun(ctx, s, r):
      return
    info = S.describe(s, r)
    limit = math.inf if s.limit is None else s.limit
    used = sum(len(e[2]) for e in r.log.updates)
    best = list(r.out.best_arm)
    ctx.ok(best and all(any(b is a for a in r.arms) for b in best),
           "the returned best arm is not one of the arms",
           returned=[getattr(b, "name", b) for b in best], **info)
    if used > limit:
      ctx.count("ended on budget")
      return
    adj = [c * t for c, t in zip(s.costs, s.true)]
    for b in best:
      ctx.ok(adj[b.idx] <= min(adj) + s.error_tol,
             "stopped with confidence with an arm that is not "
             "error_tol-optimal although every interval was valid",
             returned=b.name, true_values=adj, error_tol=s.error_tol, **info)
    ctx.count(f"confident {s.algo}")
    ctx.count("optimal with positive gap",
              adj[best[0].idx] == min(adj) and len(set(adj)) > 1)
    ctx.count("suboptimal within error_tol", adj[best[0].idx] > min(adj))
    ctx.saw(s.algo, tuple(e[1] for e in r.log.updates), best[0].idx)
    ctx.sample(f"confident run of {s.algo}", true_values=adj,
               returned=best[0].name, error_tol=s.error_tol, samples=used)

  ctx.cases("pac", ctx.pick(5000, 80000), case)
  ctx.require(**{"confident uniform": 100, "confident lucb": 100,
                 "confident se": 100})


# --- C04 / C05 ------------------------------------------------------------------
def certain(s, arms, pulls):
  """For each arm of smallest estimate: does the stop condition hold for it?"""
  st = [arms[i].adjusted(pulls[i]) for i in range(s.k)]
  if any(math.isinf(v[1]) for v in st):
    return {i: False for i in range(s.k)}
  low = min(v[2] for v in st)
  return {
      i: st[i][1] < min(st[j][0] for j in range(s.k) if j != i) + s.error_tol
      for i in range(s.k)
      if st[i][2] == low
  }


def c04(ctx):
  describe_rule(ctx, "(algorithm, bounds and estimates after a round, stopped)")

  def case(rng, i):
    s, r = go(ctx, rng, algo=("uniform", "lucb")[i % 2])
    info = S.describe(s, r)
    limit = math.inf if s.limit is None else s.limit
    groups = S.rounds_from_log(s, r)
    pulls = [0] * s.k
    used = 0
    for t, g in enumerate(groups):
      for j in g:
        pulls[j] += 1
      used += len(g) * s.units
      last = t == len(groups) - 1 and not r.overrun
      c = certain(s, r.arms, pulls)
      must = all(c.values()) and not (s.algo == "lucb" and t == 0)
      may = any(c.values())
      ctx.count("rounds with certainty", must)
      ctx.count("rounds without certainty", not may)
      st = [r.arms[j].adjusted(pulls[j]) for j in range(s.k)]
      ctx.saw(s.algo, tuple(st), s.error_tol, last)
      if not last:
        ctx.ok(not must, f"went on after round {t} although the answer was "
               "certain", state=st, **info)
      elif used <= limit:
        ctx.ok(may, f"stopped with confidence after round {t} although the "
               "answer was not certain", state=st, **info)
        best = list(r.out.best_arm)
        ctx.ok(len(best) == 1 and c.get(best[0].idx, False),
               "stopped with confidence, but does not return the certain arm",
               returned=[b.name for b in best], certain=c, state=st, **info)
        ctx.count("confident stops")
        ctx.sample(f"confident stop of {s.algo}", state=st,
                   error_tol=s.error_tol, returned=best[0].name)

  ctx.cases("stop", ctx.pick(4000, 60000), case)

  def one_round(rng, i):
    # Dense exploration of the stop decision: a single decisive round.
    s = S.scenario(rng, ("grid",), algo=("uniform", "lucb")[i % 2], finite=True)
    base = rng.integers(0, 5)
    s.trajs = []
    for j in range(s.k):
      lo, est, hi = sorted(rng.integers(0, 5, 3) / 4 + (
          0 if j == base % s.k else rng.integers(0, 3) / 2))
      if rng.uniform() < .05:
        hi = math.inf
      s.trajs.append([(float(lo) * s.scale, float(hi) * s.scale,
                       float(est) * s.scale)])
    s.limit = s.units * s.k * 3
    s.max_updates = 20 * s.k
    r = S.run_scenario(s)
    if overrun(ctx, s, r):
      return
    info = S.describe(s, r)
    c = certain(s, r.arms, [1] * s.k)
    st = [r.arms[j].adjusted(1) for j in range(s.k)]
    rounds = S.rounds_from_log(s, r)
    first = 1 if s.algo == "uniform" else 2
    ctx.saw("one", s.algo, tuple(st), s.error_tol)
    if all(c.values()):
      ctx.ok(len(rounds) <= first, "did not stop although the answer was certain",
             state=st, **info)
      ctx.count("single decisions: stop")
    if not any(c.values()):
      ctx.ok(len(rounds) > first, "stopped although the answer was not certain",
             state=st, **info)
      ctx.count("single decisions: go on")

  ctx.cases("decision", ctx.pick(6000, 80000), one_round)
  ctx.require(**{"confident stops": 100, "rounds without certainty": 500,
                 "single decisions: stop": 100, "single decisions: go on": 100})


def should_have_ended(s, r, limit):
  """Does the log of a run that goes on and on show that it had to end?"""
  groups = S.rounds_from_log(s, r)
  cand = list(range(s.k))
  pulls = [0] * s.k
  used = 0
  for t, g in enumerate(groups):
    if used > limit:
      return True
    if s.algo == "se":
      if len(cand) == 1:
        return True
      cand = S.survivors(s, t + 1, cand)
    elif t > (s.algo == "lucb") and all(certain(s, r.arms, pulls).values()):
      return True
    for j in g:
      pulls[j] += 1
    used += len(g) * s.units
  return False


def c05(ctx):
  describe_rule(ctx, "(algorithm, budget in units, sequence of sampled arms)")

  def case(rng, i):
    s, r = go(ctx, rng, algo=S.ALGOS[i % 3])
    info = S.describe(s, r)
    limit = math.inf if s.limit is None else s.limit
    if r.overrun:
      ctx.ok(not should_have_ended(s, r, limit),
             "the run goes on after it should have stopped", **info)
      # LUCB may sample the same two arms forever if estimates tie exactly.
      ctx.count("endless runs without certainty")
      return
    best = list(r.out.best_arm)
    ctx.ok(len(best) > 0, "no best arm is returned", **info)
    ctx.ok(all(any(b is a for a in r.arms) for b in best) and
           len({id(b) for b in best}) == len(best),
           "the returned arms are not different arms of the bandit", **info)
    got = {b.idx for b in best}
    ctx.saw(s.algo, s.limit, tuple(e[1] for e in r.log.updates))
    groups = S.rounds_from_log(s, r)
    pulls = [0] * s.k
    used = 0
    for t, g in enumerate(groups):
      ctx.ok(used <= limit,
             f"round {t} starts although {used} samples exceed the limit", **info)
      for j in g:
        pulls[j] += 1
      used += len(g) * s.units
      ctx.count("rounds checked")
    if s.algo == "se":
      cand = list(range(s.k))
      for t, g in enumerate(groups):
        if sorted(g) != cand:
          ctx.count("runs whose elimination is not as documented")
          return  # C07 judges that
        cand = S.survivors(s, t + 1, cand)
      if used <= limit:
        ctx.ok(len(cand) == 1, "the run ended below its sample limit although "
               "several candidates are left", candidates=cand, used=used,
               **info)
        ctx.count("confident stops")
      else:
        est = {j: r.arms[j].adjusted(pulls[j])[2] for j in cand}
        want = {j for j in cand if est[j] == min(est.values())}
        ctx.ok(got == want, "ended on budget, but does not return the remaining "
               "candidates of smallest estimate", returned=got, expected=want,
               **info)
        ctx.count("budget stops")
      return
    c = certain(s, r.arms, pulls)
    if used <= limit:
      ctx.ok(any(c.values()), "the run ended below its sample limit without "
             "certainty", used=used, **info)
      ctx.count("confident stops")
      return
    ctx.count("budget stops")
    ctx.count("stops with budget exactly used before the last round",
              used - len(groups[-1]) * s.units == limit)
    est = [r.arms[j].adjusted(pulls[j])[2] for j in range(s.k)]
    want = {j for j in range(s.k) if est[j] == min(est)}
    ctx.ok(got == want or (len(got) == 1 and c.get(min(got), False)),
           "ended on budget, but does not return the arms of smallest estimate",
           returned=got, expected=want, estimates=est, **info)
    ctx.sample(f"budget stop of {s.algo}", limit=s.limit, used=used,
               estimates=est, returned=sorted(got))

  ctx.cases("budget", ctx.pick(6000, 80000), case)
  ctx.require(**{"budget stops": 300, "confident stops": 100,
                 "stops with budget exactly used before the last round": 10})


# --- C06 ----------------------------------------------------------------------
def check_pair(ctx, s, st, pair, info):
  ctx.ok(len(pair) == 2 and pair[0] != pair[1],
         "a LUCB round does not sample two different arms", sampled=pair,
         state=st, **info)
  if any(v[2] is None for v in st):
    return
  low = min(v[2] for v in st)
  tied = [j for j in range(len(st)) if st[j][2] == low]
  rest = [j for j in range(len(st)) if j not in tied]
  if not rest:
    ctx.count("all tied")
    return
  lead = {j for j in tied if st[j][1] == max(st[i][1] for i in tied)}
  chal = {j for j in rest if st[j][0] == min(st[i][0] for i in rest)}
  a, b = pair
  ctx.ok((a in lead and b in chal) or (b in lead and a in chal),
         "a LUCB round does not sample the leader and its strongest challenger",
         sampled=pair, leader=sorted(lead), challenger=sorted(chal), state=st,
         **info)
  ctx.count("pairs checked")
  ctx.count("pairs with tied leaders", len(tied) > 1)
  # Situations in which a wrong rule would pick other arms:
  ctx.count("a non-candidate shares the leader's upper bound",
            any(st[j][1] == st[min(lead)][1] for j in rest))
  ctx.count("a leader shares the challenger's lower bound",
            any(st[j][0] == st[min(chal)][0] for j in tied))
  del s


def c06(ctx):
  describe_rule(ctx, "(bounds and estimates before a LUCB round, arms sampled)")

  def case(rng, i):
    del i
    s, r = go(ctx, rng, algo="lucb")
    if overrun(ctx, s, r):
      return
    info = S.describe(s, r)
    groups = S.rounds_from_log(s, r)
    ctx.ok(sorted(groups[0]) == list(range(s.k)),
           "the initial LUCB round does not sample every arm once",
           sampled=groups[0], **info)
    pulls = [1] * s.k
    for g in groups[1:]:
      st = [r.arms[j].adjusted(pulls[j]) for j in range(s.k)]
      check_pair(ctx, s, st, g, info)
      ctx.saw(tuple(st), tuple(sorted(g)))
      for j in g:
        pulls[j] += 1
      ctx.sample("LUCB round", state=st, sampled=g)

  ctx.cases("pairs", ctx.pick(2500, 40000), case)

  def direct(rng, i):
    s = S.scenario(rng, ("grid",), algo="lucb", finite=True, many=i % 8 == 0)
    hi = int(rng.integers(2, 7))
    s.costs = [1.0] * s.k if rng.uniform() < .5 else s.costs
    s.trajs = []
    for _ in range(s.k):
      lo, est, up = sorted(rng.integers(0, hi, 3) / 2)
      if rng.uniform() < .1:
        lo, up, est = 0, math.inf, math.inf
      elif rng.uniform() < .15:  # an estimate without an upper bound
        up = math.inf
      s.trajs.append([(float(lo) * s.scale, float(up) * s.scale,
                       float(est) * s.scale)])
    if rng.uniform() < .15 or i % 32 == 0:  # nearly all estimates are the same and smallest
      s.costs = [1.0] * s.k
      low = min(t[0][2] for t in s.trajs)
      spared = set(rng.choice(s.k, int(rng.integers(1, 3))).tolist())
      s.trajs = [t if j in spared else [(min(t[0][0], low), max(t[0][1], low), low)]
                 for j, t in enumerate(s.trajs)]
    log = S.Log(10**6)
    arm_list = [s.arm(j, log) for j in range(s.k)]
    bandit = S.make_bandit(s, arm_list, S.TagGen(log))
    for a in arm_list:
      a.pulls = 1
    st = [a.adjusted(1) for a in arm_list]
    for _ in range(3):
      pair = [a.idx for a in bandit.select_arms()]
      check_pair(ctx, s, st, pair, S.describe(s))
      ctx.saw(tuple(st), tuple(sorted(pair)))

  if hasattr(B.LUCBAlgorithm, "select_arms"):
    ctx.cases("select", ctx.pick(6000, 100000), direct)

  def missing(rng, i):
    """Some estimates are NaN: who leads is open, but two arms are sampled."""
    del i
    s = S.scenario(rng, ("grid", "shrink"), algo="lucb")
    share = rng.uniform(0, 1)
    for j in range(s.k):
      s.trajs[j] = [(lo, up, math.nan if rng.uniform() < share else est)
                    for lo, up, est in s.trajs[j]]
    s.earlier = None
    s.limit = s.units * int(rng.integers(2 * s.k, 2 * s.k + 50))
    r = S.run_scenario(s)
    groups = S.rounds_from_log(s, r)
    ctx.ok(sorted(groups[0]) == list(range(s.k)),
           "the initial LUCB round does not sample every arm once",
           sampled=groups[0])
    if r.overrun:  # the log ends in the middle of a round
      groups = groups[:-1]
    for g in groups[1:]:
      ctx.ok(len(set(g)) == 2, "a round does not sample two different arms",
             sampled=g, arms=s.k)
      ctx.count("pairs with missing estimates")
    ctx.saw("nan", s.k, len(groups), tuple(map(tuple, groups[:6])))

  ctx.cases("missing", ctx.pick(400, 5000), missing)
  ctx.require(**{"pairs with missing estimates": 1000})
  ctx.require(**{"pairs checked": 1000, "pairs with tied leaders": 50,
                 "all tied": 5})


# --- C07 ----------------------------------------------------------------------
def c07(ctx):
  describe_rule(ctx, "(sequence of sampled arms, returned arms, confident)")

  def case(rng, i):
    del i
    s, r = go(ctx, rng, algo="se")
    info = S.describe(s, r)
    seq = [e[1] for e in r.log.updates]
    cand = list(range(s.k))
    pos = t = 0
    while pos < len(seq):
      ctx.ok(len(cand) > 1, "sampling goes on although one candidate is left",
             candidates=cand, extra=seq[pos:pos + 20], **info)
      got = seq[pos:pos + len(cand)]
      if r.overrun and len(got) < len(cand):
        break
      ctx.ok(sorted(got) == cand,
             f"round {t} samples {got}, but the candidates are {cand}", **info)
      pos += len(cand)
      t += 1
      left = S.survivors(s, t, cand)
      ctx.count("rounds checked")
      ctx.count("eliminations", len(cand) - len(left))
      ctx.count("best arm of zero width", any(
          r.arms[j].adjusted(t)[0] == r.arms[j].adjusted(t)[1] for j in left))
      cand = left
    if r.overrun:
      ctx.count("runs past their budget")
      return  # C05 judges that
    got = {b.idx for b in r.out.best_arm}
    ctx.ok(got and got <= set(cand), "an eliminated arm (or none) is returned",
           returned=got, candidates=cand, **info)
    ctx.count("confident runs" if len(cand) == 1 else "runs ended by budget")
    if s.limit is None or np.isinf(s.limit):
      ctx.ok(len(cand) == 1, "the run ended although several candidates are left "
             "and there is no budget", candidates=cand, **info)
    ctx.saw(tuple(seq), tuple(sorted(got)))
    ctx.sample("successive elimination", sampled=seq[:40], rounds=t,
               returned=sorted(got), candidates=cand)

  ctx.cases("elimination", ctx.pick(8000, 80000), case)
  ctx.require(**{"rounds checked": 1000, "eliminations": 200,
                 "confident runs": 100})


# --- C08 ----------------------------------------------------------------------
class SpyEta:
  """A deterministic estimator for real arms: the score of a unit is its rsp."""

  def __init__(self, need=2):
    self.need = need
    self.n = 0

  def reset(self):
    self.n = 0

  def fit(self, d):
    self.n = max(self.n, len(d))

  def has_enough_samples(self):
    return self.n >= self.need

  def calculate_score(self, d):
    return np.asarray(d.rsp, dtype=float) % 7

  def calculate_cs_width(self, delta, sub_g, rho):
    del delta, sub_g, rho
    return 1.0 / max(self.n, 1)


def logged(cls, log, pin=None):
  """A real arm class that logs what it is given and what it reports."""

  class Logged(cls):
    reported = None

    def update(self, new_data, delta):
      log.update(self, new_data, delta)
      if self.reported is None:
        self.reported = []
      if pin is not None:
        np.random.seed([pin, len(self.reported)] +
                       [ord(c) for c in self.name])
      out = super().update(new_data, delta)
      self.reported.append((self.ci[0], self.ci[1], self.var_est))
      return out

  return Logged


def real_arms(rng, log, k, pin=None):
  out = []
  for j in range(k):
    cost = float(rng.choice([1.0, .5, 2.0]))
    kind = rng.integers(4)
    if kind == 3:
      a = logged(A.BootstrapArm, log, pin)(
          f"boot{j}", SpyEta(), lambda d: d,
          n_bootstraps=int(rng.integers(4, 9)),
          stable_splits=bool(rng.integers(2)))
      a.cost = cost
    else:
      ci = list(A.CIAlgorithm)[kind]
      a = logged(A.SampleSplittingArm, log, pin)(
          f"split{j}", SpyEta(), lambda d: d, ci_algorithm=ci, cost=cost,
          stable_splits=bool(rng.integers(2)), burn_in=4, tau_bound=1,
          sub_gscale=1, rho=1)
    out.append(a)
  return out


def real_problem(rng, algo=None, pin=None, k=None):
  """A bandit over real arms on a fixed dataset."""
  s = S.Scenario()
  s.algo = algo or S.ALGOS[rng.integers(3)]
  k = k or int(rng.integers(2, 5))
  s.units = int(rng.integers(4, 15))
  s.limit = int(rng.integers(3, 9)) * k * s.units
  s.error_prob, s.error_tol = .1, 0.0
  log = S.Log(10000)
  arm_list = real_arms(rng, log, k, pin)
  bandit = S.make_bandit(s, arm_list, S.TagGen(log))
  data = S.tagged(np.arange(500, 500 + s.limit + 4 * k * s.units))
  return log, arm_list, bandit, data


def c08(ctx):
  describe_rule(ctx, "(algorithm, arms' sequences of data ids by update)")

  def check_order(updates, first, arms, units, info):
    read = {}
    for e in updates:
      _, a, ids, _, aligned = e
      ctx.ok(aligned, "covariates, exposure and response of a unit were mixed up",
             ids=ids[:20], **info)
      n = read.get(a, 0)
      ctx.ok(len(ids) == units, "an arm was given another number of units than "
             "units_per_round", got=len(ids), **info)
      ctx.ok(list(ids) == list(range(first + n, first + n + len(ids))),
             "an arm does not read the dataset in order", arm=str(a),
             already_read=n, then=[i - first for i in ids][:20], **info)
      read[a] = n + len(ids)
      ctx.count("batches checked")

  def case(rng, i):
    s, r = go(ctx, rng, algo=S.ALGOS[i % 3])
    if overrun(ctx, s, r):
      return
    info = S.describe(s, r)
    ids = [e[2] for e in r.log.updates]
    ctx.saw(s.algo, s.stable, tuple(e[1] for e in r.log.updates), s.units)
    if s.stable:
      check_order(r.log.updates, 100, r.arms, s.units, info)
      ctx.ok(not r.log.gens, "data is generated although a dataset was passed",
             **info)
      ctx.ok(all(np.array_equal(x, y) for x, y in zip(
          r.before, (r.data.cov, r.data.exp, r.data.rsp))) and
             len(r.data) == len(r.before[0]),
             "the dataset was modified by the run", **info)
      ctx.count("runs on a dataset")
    else:
      for g in r.log.gens:
        ctx.ok(g[1] == s.units, "the generator was asked for another number of "
               "units than units_per_round", asked=g[1], **info)
      seen = {}
      for e in r.log.updates:
        ctx.ok(e[4], "fields of a unit were mixed up", **info)
        ctx.ok(len(e[2]) == s.units and min(e[2]) >= 10**6 and
               max(e[2]) < r.gen.next, "an arm got a batch that was not "
               "generated for this run", ids=e[2][:10], **info)
        old = seen.setdefault(e[1], set())
        ctx.ok(not old & set(e[2]) and len(set(e[2])) == len(e[2]),
               "a unit reached the same arm twice", ids=e[2][:10], **info)
        old |= set(e[2])
      ctx.count("runs on generated data")
    del ids

  ctx.cases("scripted", ctx.pick(2500, 30000), case)

  def short(rng, i):
    # a dataset that ends before the run does
    s = S.scenario(rng, ALL_KINDS, algo=S.ALGOS[i % 3])
    log = S.Log(s.max_updates)
    arms = [s.arm(j, log) for j in range(s.k)]
    rounds = int(rng.integers(1, s.max_updates + 2))
    s.limit = float(rounds * s.k * s.units)
    n = int(rng.integers(0, rounds * s.units + 1))
    all_data = S.tagged(np.arange(100, 100 + n))
    before = [np.array(x) for x in (all_data.cov, all_data.exp, all_data.rsp)]
    bandit = S.make_bandit(s, arms, S.TagGen(log))
    np.random.seed(s.seed)
    info = dict(S.describe(s), units_in_dataset=n)
    try:
      bandit.run(all_data)
    except S.Overrun:
      return
    read = {}
    for e in log.updates:
      k = read.get(e[1], 0)
      m = min(s.units, n - k)
      ctx.ok(e[4] and list(e[2]) == list(range(100 + k, 100 + k + m)),
             "an arm does not read what is left of a short dataset in order",
             arm=e[1], already_read=k, then=list(e[2])[:20], **info)
      ctx.count("partial batches", m < s.units)
      read[e[1]] = k + m
    ctx.ok(not log.gens, "data is generated although a dataset was passed", **info)
    ctx.ok(all(np.array_equal(x, y) for x, y in zip(
        before, (all_data.cov, all_data.exp, all_data.rsp))),
           "the dataset was modified by the run", **info)
    ctx.count("runs on a short dataset")

  ctx.cases("short", ctx.pick(500, 10000), short)

  def real(rng, i):
    del i
    log, arm_list, bandit, data = real_problem(rng)
    before = [np.array(x) for x in (data.cov, data.exp, data.rsp)]
    bandit.run(data)
    check_order(log.updates, 500, arm_list, len(log.updates[0][2]),
                dict(bandit=type(bandit).__name__))
    ctx.ok(all(np.array_equal(x, y) for x, y in zip(
        before, (data.cov, data.exp, data.rsp))),
           "real arms modified the dataset")
    ctx.ok(not log.gens, "data is generated although a dataset was passed")
    ctx.count("real runs")

  ctx.cases("real", ctx.pick(20, 400), real)

  def sequences(rng, i):
    """An arm's confidence sequence must be the same under all algorithms."""
    seed = int(rng.integers(2**31))
    pinned = i % 2 == 0

    def go_all():
      out = {}
      for algo in S.ALGOS:
        log, arm_list, bandit, data = real_problem(
            np.random.default_rng(seed), algo=algo,
            pin=seed % 10007 if pinned else None)
        np.random.seed(seed)
        bandit.run(data)
        for j, a in enumerate(arm_list):
          out.setdefault(j, {})[algo] = a.reported
        del log
      return out

    for j, by_algo in go_all().items():
      for algo in ("lucb", "se"):
        x, y = by_algo["uniform"], by_algo[algo]
        n = min(len(x), len(y))
        same = np.allclose(x[:n], y[:n], rtol=1e-9, atol=1e-12)
        ctx.count("sequences compared")
        if same:
          continue
        if pinned:
          ctx.fail("an arm's confidence sequence on a fixed dataset depends on "
                   "the algorithm even when its folds do not", arm=j,
                   uniform=x[:n], other=y[:n], algorithm=algo)
        ctx.finding("random-folds", arm=j, uniform=x[:n], other=y[:n])

  ctx.cases("sequences", ctx.pick(16, 200), sequences)
  ctx.require(**{"batches checked": 1000, "runs on generated data": 100,
                 "real runs": 15, "sequences compared": 40,
                 "runs on a short dataset": 200, "partial batches": 300})


# --- C09 ----------------------------------------------------------------------
def c09(ctx):
  describe_rule(ctx, "(algorithm, number of arms, error_prob, sampled arms)")

  def case(rng, i):
    s = S.scenario(rng, ALL_KINDS, algo=S.ALGOS[i % 3])
    s.error_prob = float(rng.uniform(1e-6, .999))
    r = S.run_scenario(s)
    if overrun(ctx, s, r):
      return
    info = S.describe(s, r)
    by_arm = {}
    for n, e in enumerate(r.log.updates):
      ctx.close(e[3], s.error_prob / s.k, f"update {n} (arm {e[1]}) is not asked "
                "for error_prob divided by the number of arms", rtol=1e-9,
                atol=0, **info)
      by_arm[e[1]] = max(by_arm.get(e[1], 0), e[3])
      ctx.count("updates checked")
    ctx.ok(sum(by_arm.values()) <= s.error_prob * (1 + 1e-9),
           "the tolerances of the arms add up to more than error_prob",
           tolerances=by_arm, **info)
    ctx.count("after an elimination", s.algo == "se" and
              len({len(g) for g in S.rounds_from_log(s, r)}) > 1)
    ctx.saw(s.algo, s.k, s.error_prob, tuple(e[1] for e in r.log.updates))
    ctx.sample(f"deltas of {s.algo}", error_prob=s.error_prob, arms=s.k,
               deltas=[e[3] for e in r.log.updates][:5])

  ctx.cases("split", ctx.pick(3000, 30000), case)

  def bad(rng, i):
    del i
    log = S.Log(10)
    arm_list = [S.ScriptArm(j, [(0., 1., .5)], 1., log) for j in range(2)]
    gen = S.TagGen(log)
    for cls in (B.UniformAlgorithm, B.LUCBAlgorithm,
                B.SuccessiveEliminationAlgorithm):
      out = float(rng.choice([-1, 1])) * float(
          rng.choice([1e-9, .5, 1, 5])) + (1.0 if rng.integers(2) else 0.0)
      outside = [0.0, 1.0, 1.5, -0.1, float("inf"), float("nan")]
      if not 0 < out < 1:
        outside.append(out)
      for v in outside:
        ctx.raises(ValueError, lambda: cls(arm_list, gen, error_prob=v,
                                           confidence=.1, sample_limit=10),
                   f"{cls.__name__} accepts error_prob={v}")
        ctx.raises(ValueError, lambda: cls(arm_list, gen, confidence=v,
                                           sample_limit=10),
                   f"{cls.__name__} accepts confidence={v}")
      for v in (-1.0, -1e-9, -float(rng.uniform(0, 5)), -float("inf"),
                float("nan")):
        ctx.raises(ValueError, lambda: cls(arm_list, gen, error_tol=v,
                                           confidence=.1, sample_limit=10),
                   f"{cls.__name__} accepts error_tol={v}")
      for v in (1e-9, .05, .5, 1 - 1e-9, float(rng.uniform(0.001, .999))):
        cls(arm_list, gen, error_prob=v, confidence=v, error_tol=v,
            sample_limit=10)
        cls(arm_list, gen, error_prob=v, confidence=None, error_tol=0,
            sample_limit=10)
        for none in (None, float("inf")):
          cls(arm_list, gen, error_prob=v, confidence=v, sample_limit=none)
          ctx.raises(ValueError, lambda: cls(
              arm_list, gen, error_prob=v, confidence=None, sample_limit=none),
                     f"{cls.__name__} accepts neither a confidence nor a limit")
      ctx.count("constructors checked")

  ctx.cases("ranges", ctx.pick(10, 200), bad)
  ctx.require(**{"updates checked": 1000, "after an elimination": 50,
                 "constructors checked": 9})
