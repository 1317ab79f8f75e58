"""Monitor of C36: the causal structure of the paper's models."""
import numpy as np
import scipy.stats

from harness import boot, independence

A, PU = boot.arms, boot.paper_utils


def observed(ctx, nonlinear, z_dim, v_dim, m, seed, info):
  """A model of Section 5.x whose mechanisms log their calls."""
  f = PU.get_section_5_2_cpds if nonlinear else PU.get_section_5_1_cpds
  cpds = f(list(z_dim), list(v_dim), m, seed)
  names = ["X", "Y", "Z0"] + [k + str(i) for i in range(1, m + 1) for k in "VZ"]
  ctx.ok(set(names) <= set(cpds), "a mechanism is missing", got=sorted(cpds),
         **info)
  log = []

  def watch(name, g):
    def call(n, parents):
      out = g(n, parents)
      log.append((name, n, list(parents), out))
      return out
    return call

  wrapped = {k: watch(k, cpds[k]) for k in names}
  out = PU.generate_example_from_cpd(
      list(z_dim), list(v_dim), 1.0, 2.0, 3.0, m, wrapped, 1000, 100, False,
      A.CIAlgorithm.CLT)
  return out[0], cpds, log, names


def expected_parents(m):
  out = {"X": [f"V{i}" for i in range(1, m + 1)], "Z0": ["X"],
         "Y": ["Z0"] + [f"Z{i}" for i in range(1, m + 1)]}
  for i in range(1, m + 1):
    out[f"V{i}"] = []
    out[f"Z{i}"] = [f"V{i}"]
  return out


def roles(ctx, log, names, m, z_dim, v_dim, n, info):
  """Values of all variables of one sample and the order of their parents."""
  values, order = {}, {}
  want = expected_parents(m)
  for name, size, parents, out in log:
    ctx.ok(name not in values, "a mechanism is evaluated twice for a sample",
           variable=name, **info)
    ctx.ok(size == n, "a mechanism is asked for another number of units",
           variable=name, got=size, expected=n, **info)
    got = []
    for p in parents:
      hits = [v for v, x in values.items()
              if np.shape(x) == np.shape(p) and np.array_equal(x, p)]
      if n < 20:  # binary or few values: several variables may look the same
        hits = [v for v in hits if v in want[name] and v not in got] or hits
      ctx.ok(len(hits) >= 1, "a mechanism is given something that is not a variable",
             variable=name, **info)
      got.append(hits[0])
    ctx.ok(sorted(got) == sorted(want[name]), "a mechanism has other parents than "
           "the model's graph says", variable=name, got=got, expected=want[name],
           **info)
    order[name] = got
    values[name] = np.array(out)
  ctx.ok(set(values) == set(names), "not every variable is sampled",
         got=sorted(values), **info)
  shape = {"X": (n,), "Y": (n,), "Z0": (n, z_dim[0])}
  for i in range(1, m + 1):
    shape[f"V{i}"], shape[f"Z{i}"] = (n, v_dim[i]), (n, z_dim[i])
  for v in names:
    ctx.ok(values[v].shape == shape[v] and np.all(np.isfinite(values[v])),
           "a variable has another dimension than asked for or is not finite",
           variable=v, got=values[v].shape, expected=shape[v], **info)
  ctx.ok(set(np.unique(values["X"]).tolist()) <= {0, 1}, "the treatment is not "
         "binary", values=np.unique(values["X"])[:5], **info)
  return values, order


def gaussian(ctx, e, what, info, labels):
  """Are the columns of e independent standard normal, rows independent?"""
  n, d = e.shape
  lim = 6.5
  mean = e.mean(axis=0) * np.sqrt(n)
  j = int(np.argmax(np.abs(mean)))
  ctx.ok(abs(mean[j]) < lim, f"{what}: the mean is not zero",
         variable=labels[j], z=mean[j], n=n, **info)
  c = e.T.dot(e) / n - np.identity(d)
  z = c * np.sqrt(n) / np.where(np.identity(d) > 0, np.sqrt(2), 1)
  j = np.unravel_index(np.argmax(np.abs(z)), z.shape)
  ctx.ok(abs(z[j]) < lim, f"{what}: another variance, or dependent components",
         variables=(labels[j[0]], labels[j[1]]), excess=c[j], z=z[j], n=n, **info)
  # dependence between the sizes of the components, and between successive units
  q = (e**2 - 1) / np.sqrt(2)
  z = q.T.dot(q) / np.sqrt(n)
  np.fill_diagonal(z, 0)
  ctx.ok(np.abs(z).max() < 10, f"{what}: dependent components",
         z=np.abs(z).max(), **info)
  z = (e[1:] * e[:-1]).sum(axis=0) / np.sqrt(n - 1)
  ctx.ok(np.abs(z).max() < lim, f"{what}: successive units are dependent",
         z=np.abs(z).max(), **info)
  for k in range(d):
    independence.lags(ctx, e[:, k], what, variable=labels[k], **info)
    p = scipy.stats.kstest(e[:, k], "norm").pvalue
    ctx.ok(p > 1e-10, f"{what}: not normal", variable=labels[k], p=p, **info)
  ctx.count("noise components", d)
  ctx.count("noise draws", n * d)


def least_squares(x, y):
  """Coefficients and their standard errors."""
  g = np.linalg.pinv(x.T.dot(x))
  b = g.dot(x.T).dot(y)
  r = y - x.dot(b)
  s2 = r.dot(r) / max(len(y) - x.shape[1], 1)
  return b, np.sqrt(np.maximum(np.diag(g) * s2, 1e-300)), r


def logistic(x, y, steps=50):
  """Maximum likelihood; coefficients, covariance, or None if it diverges."""
  b = np.zeros(x.shape[1])
  for _ in range(steps):
    p = 1 / (1 + np.exp(-x.dot(b)))
    w = p * (1 - p)
    h = x.T.dot(x * w[:, None]) + 1e-9 * np.identity(x.shape[1])
    try:
      d = np.linalg.solve(h, x.T.dot(y - p))
    except np.linalg.LinAlgError:
      return None
    b = b + d
    if not np.all(np.isfinite(b)) or np.abs(b).max() > 50:
      return None
    if np.abs(d).max() < 1e-9:
      return b, np.linalg.inv(h)
  return None


def c36(ctx):
  ctx.rule = (
      "instances of the Section 5.1 and 5.2 models for random numbers of paths, "
      "dimensions and seeds, all mechanisms logged and called again on chosen "
      "parents; distinct: (section, dimensions, seed)")
  ctx.assumptions = [
      "statistical thresholds at 6.5 standard errors or p=1e-10 per test"]
  depends = {}  # (section, mechanism kind, parent kind, number) -> [cases, hits]

  def dims(rng, nonlinear):
    if nonlinear:
      m = int(rng.integers(1, 4) if rng.uniform() < .85 else rng.integers(4, 7))
      pick = lambda: 2 if rng.uniform() < .25 else 1
      z_dim = [pick() for _ in range(m + 1)]
      v_dim = [0] + [pick() for _ in range(m)]
    else:
      m = int(rng.choice([1, 2, 2, 3, 3, 4, 5]) if rng.uniform() < .75 else
              rng.integers(6, 14))
      hi = 4 if rng.uniform() < .8 else 8
      z_dim = [int(v) for v in rng.integers(1, hi, m + 1)]
      v_dim = [0] + [int(v) for v in rng.integers(1, hi, m)]
    return m, z_dim, v_dim

  def case(rng, i):
    nonlinear = i % 4 == 3
    m, z_dim, v_dim = dims(rng, nonlinear)
    seed = int(rng.choice([0, 1, 2, 7, int(rng.integers(10**6))]))
    info = dict(section="5.2" if nonlinear else "5.1", paths=m, z_dim=z_dim,
                v_dim=v_dim, seed=seed)
    model, cpds, log, names = observed(ctx, nonlinear, z_dim, v_dim, m, seed,
                                       info)
    # tiny samples have the right shape
    for k in (1, 2, int(rng.integers(3, 19))):
      log.clear()
      d = model.generate(k)
      roles(ctx, log, names, m, z_dim, v_dim, k, info)
      ctx.ok(len(d) == k, "another number of units", got=len(d), expected=k, **info)
    log.clear()
    n = 4000 if not nonlinear else 2000
    if i % 11 == 5 and m < 6:
      n = 20000 if not nonlinear else 8000
      ctx.count("large samples")
    d = model.generate(n)
    val, order = roles(ctx, log, names, m, z_dim, v_dim, n, info)
    ctx.ok(np.array_equal(d.exp, val["X"]) and np.array_equal(d.rsp, val["Y"]),
           "exposure and response are not X and Y", **info)
    again = lambda v, k=n, ps=None: np.asarray(
        cpds[v](k, [val[p] for p in order[v]] if ps is None else ps))

    # V, and the noise of the Z_i and Y, as one vector
    cols, labels = [], []
    # new values of the roots must not matter for the other mechanisms
    fresh = {}
    for j in range(1, m + 1):
      fresh[f"V{j}"] = again(f"V{j}")
    again("X", ps=[fresh[p] for p in order["X"]])
    for j in range(1, m + 1):
      for w in (val[f"V{j}"], fresh[f"V{j}"]):
        cols.append(w)
        labels += [f"V{j}"] * v_dim[j]
      other = again(f"Z{j}")
      ctx.ok(other.shape == val[f"Z{j}"].shape, "another shape at a second call",
             variable=f"Z{j}", **info)
      cols.append((val[f"Z{j}"] - other) / np.sqrt(.2))
      labels += [f"noise of Z{j}"] * z_dim[j]
    other = again("Y")
    cols.append(((val["Y"] - other) / np.sqrt(.2))[:, None])
    labels.append("noise of Y")
    gaussian(ctx, np.column_stack(cols), "V and the noise of Z and Y", info, labels)

    # many samples of a few units, the parents fixed: every two units
    total = 2 + 1 + sum(z_dim[1:]) + sum(v_dim)
    b = min(int(rng.integers(2, 25)), max(2, 1500 // total))
    ps = {v: [val[p][:b] for p in order[v]] for v in names}
    smooth, discrete = [], []
    for _ in range(200):
      row = [np.ravel(cpds["Y"](b, ps["Y"]))]
      for j in range(1, m + 1):
        row += [np.ravel(cpds[f"V{j}"](b, [])),
                np.ravel(cpds[f"Z{j}"](b, ps[f"Z{j}"]))]
      smooth.append(np.concatenate(row))
      discrete.append((cpds["X"](b, ps["X"]),
                       np.asarray(cpds["Z0"](b, ps["Z0"]))[:, 0]))
    smooth, discrete = np.array(smooth), np.array(discrete, dtype=float)
    discrete[:, 1] = discrete[:, 1] > np.median(discrete[:, 1])
    discrete = discrete.reshape(200, -1)
    share = discrete.mean(axis=0)  # rare values have no usable correlations
    rows = np.column_stack([smooth, discrete[:, np.abs(share - .5) < .35]])
    rows = (rows - rows.mean(axis=0)) / rows.std(axis=0)
    independence.units(ctx, rows, "the draws of all mechanisms", units=b, **info)

    # Z0: few values, chosen by X alone
    support, idx = np.unique(val["Z0"], axis=0, return_inverse=True)
    idx = np.ravel(idx)
    ctx.ok(len(support) <= 10, "Z0 takes more than ten values", got=len(support),
           **info)
    other_z0 = again("Z0")
    both = np.unique(np.concatenate([val["Z0"], other_z0]), axis=0)
    ctx.ok(len(both) <= 10, "Z0 takes other values at another call",
           got=len(both), **info)
    x = val["X"]
    split = [("V" + str(j), (val[f"V{j}"][:, 0] > 0).astype(int))
             for j in range(1, m + 1)]
    split += [("Z" + str(j), (val[f"Z{j}"][:, 0] > 0).astype(int))
              for j in range(1, m + 1)]
    split.append(("the previous unit", np.r_[0, idx[:-1]]))
    for what, s in split:
      for v in (0, 1):
        mask = x == v
        if mask.sum() < 300:
          continue
        t = np.zeros((s.max() + 1, len(support)))
        np.add.at(t, (s[mask], idx[mask]), 1)
        t = t[t.sum(axis=1) > 60][:, t.sum(axis=0) > 60]
        if min(t.shape) > 1:
          p = scipy.stats.chi2_contingency(t, correction=False).pvalue
          ctx.ok(p > 1e-9, "Z0 depends on more than X", on=what, p=p, **info)
          ctx.count("conditional independence tests")

    # each unit's value is a function of its own parents
    k, b = (6, 250) if nonlinear else (6, 400)
    perm = rng.permutation(b)

    def averages(v, ps, times=k):
      return np.mean([np.asarray(cpds[v](b, ps), dtype=float)
                      for _ in range(times)], axis=0).reshape(b, -1)

    section = info["section"]
    for v in ["X", "Y"] + [f"Z{j}" for j in range(1, m + 1)]:
      ps = [val[p][:b] for p in order[v]]
      t = 60 if v == "X" else k
      base = averages(v, ps, t)
      moved = averages(v, [p[perm] for p in ps], t)
      if v == "X":
        var = np.maximum((base[perm] + moved) / 2 * (1 - (base[perm] + moved) / 2),
                         .5 / t) * 2 / t
      else:
        var = np.full(base.shape, .1 * 2 / k)
      z = ((base[perm] - moved)**2 / var).sum()
      df = base.size
      lim = df + 7 * np.sqrt(2 * df) + 20
      ctx.ok(z < lim, "a unit's value depends on other units, or its noise is not "
             "independent from call to call", variable=v, chi2=z, df=df, **info)
      # does it depend on each of its parents?
      for q, p in enumerate(order[v]):
        swap = list(ps)
        swap[q] = ps[q][perm]
        if p == "Z0":  # few values: move to another one
          swap[q] = support[rng.integers(len(support), size=b)]
        z = ((averages(v, swap, t) - base)**2 / (
            np.full(base.shape, .2 / k) if v != "X" else np.maximum(
                base * (1 - base), .5 / t) * 2 / t)).sum()
        number = int(p[1:])
        key = (section, v[0] + ("i" if v[0] == "Z" else ""),
               p if p == "Z0" else p[0], number, number == m)
        rec = depends.setdefault(key, [0, 0])
        rec[0] += 1
        rec[1] += bool(z > lim)
        ctx.count("parents moved")
    # Z0 on X
    t = np.zeros((2, len(support)))
    np.add.at(t, (x.astype(int), idx), 1)
    t = t[:, t.sum(axis=0) > 20]
    if min(t.sum(axis=1)) > 300 and t.shape[1] > 1:
      rec = depends.setdefault((section, "Z0", "X", 0, False), [0, 0])
      rec[0] += 1
      rec[1] += bool(scipy.stats.chi2_contingency(t).pvalue < 1e-7)

    if not nonlinear:
      linear(rng, cpds, order, val, support, m, z_dim, info)
    ctx.saw(section, tuple(z_dim), tuple(v_dim), seed)
    ctx.sample("model", parents=order, support=support[:3], **info)
    ctx.count("models of section " + section)

  def linear(rng, cpds, order, val, support, m, z_dim, info):
    n = len(val["Y"])
    # Z_i and Y
    slopes = {}
    for v in ["Y"] + [f"Z{j}" for j in range(1, m + 1)]:
      ps = [val[p] for p in order[v]]
      design = np.column_stack(ps)
      d = design.shape[1]
      extra = np.column_stack([np.ones(n)] + [np.column_stack(ps)**2])
      y = val[v].reshape(n, -1)
      for c in range(y.shape[1]):
        b, se, r = least_squares(design, y[:, c])
        z = ((r / np.sqrt(.1)).dot(r / np.sqrt(.1)) - (n - d)) / np.sqrt(2 * n)
        ctx.ok(abs(z) < 6.5, "not linear in the parents with noise of variance .1",
               variable=v, component=c, variance=r.var(), z=z, **info)
        if design.shape[0] > 3 * (d + extra.shape[1]):
          e = np.column_stack([design, extra[:, :1]])
          b2, se2, _ = least_squares(e, y[:, c])
          ctx.ok(abs(b2[d]) < 6.5 * se2[d], "the noise does not have mean zero",
                 variable=v, component=c, intercept=b2[d], se=se2[d], **info)
          e = np.column_stack([design, extra])
          if np.linalg.matrix_rank(e) == e.shape[1]:
            b2, se2, _ = least_squares(e, y[:, c])
            j = d + int(np.argmax(np.abs(b2[d:]) / se2[d:]))
            ctx.ok(abs(b2[j]) < 7 * se2[j], "not linear in the parents", variable=v,
                   component=c, coefficient=b2[j], se=se2[j], **info)
        # nothing else enters
        for u in val:
          if u == v or u in order[v] or v in order.get(u, []) or (
              v != "Y" and u in ("Y",)):
            continue
          w = val[u].reshape(n, -1)[:, 0].astype(float)
          w = (w - w.mean()) / max(w.std(), 1e-9)
          corr = np.abs(w.dot(r)) / np.sqrt(n * .1)
          ctx.ok(corr < 7, "a variable depends on one that is not its parent",
                 variable=v, other=u, z=corr, **info)
          ctx.count("conditional independence tests")
        if v == "Y":
          start = 0
          for p, x in zip(order[v], ps):
            slopes[p] = (b[start:start + x.shape[1]], se[start:start + x.shape[1]])
            start += x.shape[1]
      ctx.count("linear mechanisms")
    # X: logistic in the V's
    big = 40000
    vs = [np.asarray(cpds[p](big, [])) for p in order["X"]]
    x = np.asarray(cpds["X"](big, vs), dtype=float)
    design = np.column_stack(vs)
    fit = logistic(design, x)
    if fit is not None:
      eta = design.dot(fit[0])
      s = max(eta.std(), 1e-9)
      more = np.column_stack([design, np.ones(big), (eta / s)**2, (eta / s)**3])
      second = logistic(more, x)
      if second is not None and np.linalg.cond(second[1]) < 1e12:
        z = second[0] / np.sqrt(np.diag(second[1]))
        names = ["intercept", "square", "cube"]
        for c in range(3):
          ctx.ok(abs(z[design.shape[1] + c]) < 7, "X is not a logistic function of "
                 "the V", term=names[c], z=z[design.shape[1] + c], **info)
      p = 1 / (1 + np.exp(-eta))
      e = (x - p) / np.sqrt(np.maximum(p * (1 - p), 1e-12))
      ok = p * (1 - p) > .01
      z = (e[1:] * e[:-1])[ok[1:] & ok[:-1]]
      ctx.ok(abs(z.sum()) < 7 * np.sqrt(max(len(z), 1)), "successive treatments are "
             "dependent", **info)
      ctx.count("logistic mechanisms")
    # the effect of X
    k = 5000
    means, var = [], 0
    for v in (0, 1):
      z0 = np.asarray(cpds["Z0"](k, [np.full(k, v)]))
      means.append(z0.mean(axis=0))
      var += z0.dot(slopes["Z0"][0]).var() / k
    diff = means[1] - means[0]
    effect = slopes["Z0"][0].dot(diff)
    se = np.sqrt(var + (np.abs(diff)**2 * slopes["Z0"][1]**2).sum() +
                 1e-12)
    ctx.ok(effect > -5 * se, "treatment lowers the response", effect=effect, se=se,
           **info)
    effects.append(effect / se)
    ctx.count("effects")
    ctx.count("effects clearly positive", effect > 5 * se)
    del rng, z_dim, support

  effects = []
  ctx.cases("models", ctx.pick(44, 500), case, budget_s=ctx.pick(200, 5000))

  def together(rng, i):
    # over all instances every edge of the graph is real
    del rng, i
    pools = {}
    for (section, v, p, number, last), (cases, hits) in depends.items():
      where = [""]
      if number:
        where += [str(number)] + [f"{k} and up" for k in range(2, number + 1)]
        where += ["of the last path"] * last
      for w in where:
        rec = pools.setdefault((section, v, p, w), [0, 0])
        rec[0] += cases
        rec[1] += hits
    # a coefficient may be small by chance: about one of five in section 5.1, and
    # every second function in section 5.2
    for key, (cases, hits) in sorted(pools.items()):
      if cases >= (10 if key[0] == "5.1" else 25):
        ctx.ok(hits > 0, "no instance's mechanism depends on a parent",
               section=key[0], mechanism=key[1], parent=key[2], number=key[3],
               instances=cases)
        ctx.count("edges seen to be real")
    if len(effects) >= 20:
      ctx.ok(sum(e > 3 for e in effects) > .5 * len(effects),
             "the effect of the treatment is not positive", z=effects)

  if ctx.only is None:
    ctx.cases("edges", 1, together)
    ctx.require(**{"models of section 5.1": 10, "models of section 5.2": 4,
                   "pairs of units compared": 10000, "distances compared": 100000,
                   "effects": 10, "edges seen to be real": 8})

  def structure(rng, i):
    # the graph for many paths, with arbitrary mechanisms
    m = int(rng.integers(1, 8) if i % 10 else rng.integers(8, 12))
    hi = int(rng.choice([2, 4, 7]))
    z_dim = [int(v) for v in rng.integers(1, hi, m + 1)]
    v_dim = [0] + [int(v) for v in rng.integers(1, hi, m)]
    info = dict(paths=m, z_dim=z_dim, v_dim=v_dim)
    log = []

    def mech(name, d):
      def f(n, parents):
        out = np.random.standard_normal((n, d)) if d else np.random.standard_normal(
            n)
        if name == "X":
          out = (out > 0).astype(int)
        log.append((name, n, list(parents), out))
        return out
      return f

    cpds = {"X": mech("X", 0), "Y": mech("Y", 0), "Z0": mech("Z0", z_dim[0])}
    for j in range(1, m + 1):
      cpds[f"V{j}"], cpds[f"Z{j}"] = mech(f"V{j}", v_dim[j]), mech(
          f"Z{j}", z_dim[j])
    out = PU.generate_example_from_cpd(
        z_dim, v_dim, 1.0, 2.0, 3.0, m, cpds, 1000, 100, bool(rng.integers(2)),
        A.CIAlgorithm.CLT)
    want = expected_parents(m)
    for _ in range(2):
      log.clear()
      d = out[0].generate(50)
      _, order = roles(ctx, log, list(cpds), m, z_dim, v_dim, 50, info)
      # mechanisms are functions of positions: Z0 (Z_1, ... in order)
      ctx.ok(order == want, "a mechanism is given its parents in another order",
             got=order, expected=want, **info)
      ctx.ok(d.cov.shape == (50, sum(z_dim) + sum(v_dim)), "covariates are not the "
             "Z and V", got=d.cov.shape, **info)
    ctx.count("graphs checked")
    ctx.saw("graph", m, tuple(z_dim), tuple(v_dim))

  ctx.cases("graphs", ctx.pick(40, 400), structure)
  if ctx.only is None:
    ctx.require(**{"graphs checked": 20})
