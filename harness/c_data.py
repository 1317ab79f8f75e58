"""Monitors of C17-C20 and C24: data containers and generators."""
import itertools
import math

import numpy as np
import scipy.stats as st

from harness import boot, independence

A, D, P, SCM = boot.arms, boot.data, boot.parameters, boot.scm


def tagged(ids, d, has_exp=True, has_rsp=True, one_dim=False):
  ids = np.asarray(ids, dtype=float)
  cov = ids.copy() if one_dim else np.column_stack(
      [ids + 1000 * j for j in range(d)])
  return D.ExpData(cov, ids * 2 if has_exp else None,
                   ids * 3 if has_rsp else None)


def units(x, d, one_dim=False):
  """The dataset as a list of (covariates, exposure, response) triples."""
  n = len(x)
  cov = np.asarray(x.cov).reshape(n, 1) if one_dim else np.asarray(x.cov)
  out = []
  for i in range(n):
    out.append((tuple(cov[i].tolist()),
                None if x.exp is None else float(x.exp[i]),
                None if x.rsp is None else float(x.rsp[i])))
  del d
  return out


def consistent(ctx, x, size_, feats_, one_dim=False, **info):
  ctx.ok(len(x) == x.n_units == x.cov.shape[0] == size_,
         "length and arrays disagree", length=len(x), n_units=x.n_units,
         cov_shape=x.cov.shape, want=size_, **info)
  ctx.ok(x.n_features == feats_, "feature count is wrong", got=x.n_features,
         want=feats_, **info)
  ctx.ok(x.cov.ndim == (1 if one_dim else 2) and
         (one_dim or x.cov.shape[1] == feats_),
         "covariates have a wrong shape", shape=x.cov.shape, **info)
  for f in (x.exp, x.rsp):
    ctx.ok(f is None or np.shape(f) == (size_,), "a field has a wrong shape",
           shape=np.shape(f), want=size_, **info)


def big(rng, small, large, p=.05):
  """A size: mostly up to small, now and then up to large."""
  if rng.uniform() < p:
    return int(math.exp(rng.uniform(math.log(small + 1), math.log(large + 1))))
  return int(rng.integers(0, small + 1))


def layout(rng, v):
  """The same array in some other type or memory layout."""
  if v is None:
    return v
  kind = int(rng.integers(8))
  if kind == 0:
    return v.astype(np.float32)
  if kind == 1:
    return v.astype(np.int64)
  if kind == 2:
    return np.asfortranarray(v)
  if kind == 3:
    return np.repeat(v, 2, axis=0)[::2]
  if kind == 4 and v.ndim == 2:
    return np.repeat(v, 2, axis=1)[:, ::2]
  if kind == 5:
    return v[::-1].copy()[::-1]
  return v


def vary(rng, x):
  x.cov, x.exp, x.rsp = (layout(rng, f) for f in (x.cov, x.exp, x.rsp))
  return x


def copy_of(x):
  return tuple(None if f is None else np.array(f) for f in
               (x.cov, x.exp, x.rsp)) + (x.n_units, x.n_features)


def unchanged(x, c):
  for f, g in zip((x.cov, x.exp, x.rsp), c):
    if (f is None) != (g is None) or (f is not None and
                                      not np.array_equal(f, g)):
      return False
  return (x.n_units, x.n_features) == c[3:]


# --- C17 ----------------------------------------------------------------------
def c17(ctx):
  ctx.rule = (
      "tagged datasets of 0-3000 units (5 % above 40) and 1-4 features in several "
      "types and memory layouts, with and without exposure and response, split "
      "into 1-12 folds (10 % up to 2n+2) or a p-subsample; frequencies over "
      "thousands of splits; distinct: distinct partitions")

  def case(rng, i):
    n, d = big(rng, 40, 3000), int(rng.integers(1, 5))
    if i % 60 == 59:
      n, d = int(rng.integers(0, 12)), int(rng.integers(5, 300))
    he, hr = bool(rng.integers(4)), bool(rng.integers(4))
    one = d == 1 and bool(rng.integers(2))
    ids = rng.permutation(np.arange(n) + 10)
    x = vary(rng, tagged(ids, d, he, hr, one))
    all_units = sorted(units(x, d, one), key=repr)
    before = copy_of(x)
    if i % 2:
      k = int(rng.integers(1, 13))
      if rng.uniform() < .1:
        k = int(rng.integers(1, 2 * n + 3)) if n < 200 else int(
            rng.integers(13, 120 if rng.uniform() < .6 else n + 2))
      if rng.uniform() < .2:
        k = np.int64(k)
      parts = list(x.k_fold(k))
      info = dict(k=k, n=n)
      ctx.ok(len(parts) == k, "wrong number of folds", got=len(parts), **info)
      sizes = [len(p) for p in parts]
      ctx.ok(not sizes or max(sizes) - min(sizes) <= 1,
             "fold sizes differ by more than one", sizes=sizes, **info)
      ctx.count("k-fold splits")
    else:
      p = float(rng.choice([0, 1, .5, rng.uniform()]))
      parts = list(x.subsample(p))
      info = dict(p=p, n=n)
      ctx.ok(len(parts) == 2, "a subsample is not a pair", **info)
      if p in (0, 1):
        ctx.ok(len(parts[0]) == p * n, "subsample with p=0 or 1 is not empty or "
               "everything", got=len(parts[0]), **info)
      ctx.count("subsamples")
    got = sorted([u for q in parts for u in units(q, d, one)], key=repr)
    ctx.count("datasets of more than 40 units", n > 40)
    ctx.ok(got == all_units, "the parts do not contain every unit exactly once "
           "with its own exposure and response", got=got[:10],
           expected=all_units[:10], **info)
    for q in parts:
      ctx.ok((q.exp is None) == (not he) and (q.rsp is None) == (not hr),
             "a missing field did not stay missing", **info)
      consistent(ctx, q, len(q), d, one, **info)
    ctx.ok(unchanged(x, before), "splitting modified the dataset", **info)
    if i % 5 == 0 and n:
      # splits of the parts and a second split of the same dataset
      for q in list(parts)[:3] + [x]:
        again = q.k_fold(int(rng.integers(1, 6))) if rng.integers(2) else (
            q.subsample(float(rng.uniform())))
        ctx.ok(sorted([u for r in again for u in units(r, d, one)], key=repr) ==
               sorted(units(q, d, one), key=repr),
               "a second split does not contain every unit exactly once", **info)
        ctx.count("second splits")
    # independence: overwrite the parts, then the source
    snap = [copy_of(q) for q in parts]
    for f in (x.cov, x.exp, x.rsp):
      if f is not None:
        f[...] = -1
    ctx.ok(all(unchanged(q, c) for q, c in zip(parts, snap)),
           "a part is not an independent copy of the dataset", **info)
    snap = copy_of(x)
    for q in parts:
      for f in (q.cov, q.exp, q.rsp):
        if f is not None:
          f[...] = -2
    ctx.ok(unchanged(x, snap), "a part is not an independent copy", **info)
    ctx.saw(repr([sorted(units(q, d, one), key=repr) for q in parts]), repr(info))
    ctx.sample("split", sizes=[len(q) for q in parts], **info)

  ctx.cases("partition", ctx.pick(3000, 60000), case)

  def random_folds(rng, i):
    n, k = [(6, 2), (7, 2), (9, 3), (11, 4), (5, 5), (13, 2), (3, 5), (4, 9)][i]
    m = ctx.pick(6000, 60000)
    ids = np.arange(n)
    # both sorted and constant values: membership must not depend on values
    x = D.ExpData(
        np.column_stack([ids * 1.0, np.where(ids < n // 2, -1e6, 1e6)]),
        (ids < n / 2) * 1.0, ids * 100.0)
    hist = np.zeros((m, n), dtype=int)
    for t in range(m):
      for j, q in enumerate(x.k_fold(k)):
        hist[t, q.cov[:, 0].astype(int)] = j
    for j in range(k):
      f = (hist == j).mean(axis=0)
      p = f.mean()
      ctx.ok(np.all(abs(f - p) < 6 * math.sqrt(p * (1 - p) / m) + 1e-9),
             "the fold of a unit depends on its position or values", n=n, k=k,
             fold=j, frequencies=f)
    sizes = np.array([(hist[0] == j).sum() for j in range(k)])
    same = (sizes * (sizes - 1)).sum() / (n * (n - 1))
    for a, b in itertools.combinations(range(n), 2):
      s = np.mean(hist[:, a] == hist[:, b])
      ctx.ok(abs(s - same) < 6 * math.sqrt(same * (1 - same) / m) + 1e-9,
             "two units share a fold more or less often than by chance", n=n,
             k=k, units=(a, b), got=s, expected=same)
    rep = np.mean(hist[1:] == hist[:-1], axis=0)
    e = (sizes * sizes).sum() / n**2
    ctx.ok(np.all(abs(rep - e) < 6 * math.sqrt(e * (1 - e) / m) + 1e-9),
           "successive splits are dependent", n=n, k=k, repeats=rep, expected=e)
    ctx.count("random splits", m)
    del rng

  ctx.cases("uniform folds", 8, random_folds)

  def random_large(rng, i):
    """Few splits of many units: statistics over the units of each split."""
    n = int(10**rng.uniform(2.5, 4.7))
    k = int(rng.choice([2, 3, 5, 10]))
    p = None
    if i % 3 == 2:
      p = float(rng.choice([.1, .5, .8]))
    m = 8
    ids = np.arange(n)
    x = D.ExpData(
        np.column_stack([ids * 1.0, np.where(ids < n // 2, -1e6, 1e6)]),
        (ids < n / 2) * 1.0, ids // 7 * 1.0)
    hist = np.full((m, n), -1)
    for t in range(m):
      parts = x.k_fold(k) if p is None else x.subsample(p)
      for j, q in enumerate(parts):
        hist[t, q.cov[:, 0].astype(int)] = j
    ctx.ok(hist.min() >= 0, "a unit is in no part", n=n, k=k, p=p)
    info = dict(n=n, k=k, p=p)
    freq = np.array([[np.mean(h == j) for j in range(hist.max() + 1)]
                     for h in hist])
    same = (freq**2).sum(axis=1)

    def near(got, want, count, what):
      ctx.ok(abs(got - want) < 6.5 * math.sqrt(.25 / count) + 2 / n, what,
             got=got, expected=want, **info)

    for t in range(m):
      h = hist[t]
      for lag in (1, 2, k, n // k, n // 2):
        near(np.mean(h[lag:] == h[:-lag]), same[t], n - lag,
             f"units {lag} positions apart share a part more or less often "
             "than by chance")
      for j in range(len(freq[t])):
        for half in (ids < n // 2, ids % 2 == 0, ids < n // 10,
                     ids >= n - n // 10):
          near(np.mean(h[half] == j), freq[t][j], half.sum(),
               "the part of a unit depends on its position")
      for j in {0, len(freq[t]) - 1}:
        if .1 < freq[t][j] < .9:
          independence.lags(ctx, ((h == j) - freq[t][j]) / math.sqrt(
              freq[t][j] * (1 - freq[t][j])), "membership in a part", **info)
      if t:
        near(np.mean(h == hist[t - 1]), (freq[t] * freq[t - 1]).sum(), n,
             "successive splits are dependent")
    ctx.count("random splits of many units", m)

  ctx.cases("large random", ctx.pick(40, 400), random_large)

  def random_sub(rng, i):
    n, p = [(8, .5), (8, .1), (5, .9), (12, .3)][i]
    m = ctx.pick(6000, 60000)
    ids = np.arange(n)
    x = D.ExpData(ids[:, None] * 1.0, (ids < n / 2) * 1.0, ids * 100.0)
    hist = np.zeros((m, n), dtype=bool)
    for t in range(m):
      a, _ = x.subsample(p)
      hist[t, a.cov[:, 0].astype(int)] = True
    f = hist.mean(axis=0)
    ctx.ok(np.all(abs(f - p) < 6 * math.sqrt(p * (1 - p) / m)),
           "a unit does not enter the subsample with probability p", p=p,
           frequencies=f)
    for a, b in itertools.combinations(range(n), 2):
      s = np.mean(hist[:, a] & hist[:, b])
      ctx.ok(abs(s - p * p) < 6 * math.sqrt(p * p * (1 - p * p) / m) + p *
             (1 - p) / (n - 1), "units enter the subsample together", p=p,
             units=(a, b), got=s)
    ctx.count("random splits", m)
    del rng

  ctx.cases("uniform subsamples", 4, random_sub)

  def sizes_of_subsamples(rng, i):
    n = int(10**rng.uniform(4.5, 6.2))
    p = float(rng.choice([rng.uniform(), 10**rng.uniform(-5, -1), 1 / 3, .3331,
                          1 - 10**rng.uniform(-5, -1), .5 + rng.uniform(-.02, .02)]))
    ids = np.arange(n)
    a, b = D.ExpData(ids[:, None], None, None).subsample(p)
    ctx.ok(len(a) + len(b) == n, "units are lost", n=n, p=p, got=(len(a), len(b)))
    # Bernstein's bound for a failure probability of 1e-11
    t = math.log(2e11)
    dev = math.sqrt(2 * t * n * p * (1 - p)) + t
    ctx.ok(abs(len(a) - n * p) <= dev, "the size of a subsample is not that of "
           "independent choices with probability p", n=n, p=p, got=len(a),
           expected=n * p, deviation=dev)
    ctx.count("large subsamples")
    del i

  ctx.cases("sizes of subsamples", ctx.pick(60, 600), sizes_of_subsamples)

  def bad(rng, i):
    del i
    x = tagged(range(int(rng.integers(1, 9))), 2)
    for k in (0, -1, -int(rng.integers(1, 50))):
      ctx.raises(ValueError, lambda: x.k_fold(k), f"k_fold({k}) is accepted")
    for p in (-.1, 1.1, -1e-9, 1 + 1e-9, -float(rng.uniform()), np.nan,
              np.inf, -np.inf):
      ctx.raises(ValueError, lambda: x.subsample(p), f"subsample({p}) is accepted")
    ctx.count("invalid arguments")

  ctx.cases("invalid", 5, bad)
  ctx.require(**{"k-fold splits": 1000, "subsamples": 1000,
                 "random splits": 10000, "invalid arguments": 3,
                 "random splits of many units": 50,
                 "distances compared": 100000})


# --- C18 ----------------------------------------------------------------------
def c18(ctx):
  ctx.rule = (
      "random sequences of appends (also refused ones), slices, masks and index "
      "arrays on datasets of 0-30 units (5 % of the parts up to 500, histories of up "
      "to 80 steps), compared after every step with a list of "
      "units; distinct: (operation, sizes, outcome)")

  def case(rng, i):
    del i
    d = int(rng.integers(1, 4))
    he, hr = bool(rng.integers(3)), bool(rng.integers(3))
    nxt = [0]
    flat = rng.uniform() < .2  # one-dimensional covariates
    d = 1 if flat else d

    mixed = bool(rng.integers(2))

    def new(n, d=d, he=he, hr=hr):
      ids = np.arange(nxt[0], nxt[0] + n)
      nxt[0] += n
      y = tagged(rng.permutation(ids), d, he, hr, flat and d == 1)
      if mixed:
        # integers in some parts, fractions in others
        for f in ("cov", "exp", "rsp"):
          v = getattr(y, f)
          if v is not None:
            setattr(y, f, v.astype(rng.choice([np.int32, np.int64]))
                    if rng.integers(2) else v + .25)
      return y

    x = new(big(rng, 9, 500))
    model = units(x, d, flat)
    for step in range(2 + big(rng, 10, 80)):
      op = int(rng.integers(8))
      before = copy_of(x)
      if op <= 2:
        y = new(big(rng, 7, 400))
        c = copy_of(y)
        more = units(y, d, flat)
        x.append(y)
        ctx.ok(unchanged(y, c), "append modified the other dataset")
        model = model + more
        for f in (y.cov, y.exp, y.rsp):
          if f is not None:
            f[...] = -5
        what = "append"
      elif op == 3:
        # refused appends must leave the dataset as it was
        which = int(rng.integers(5))
        if which == 0:
          y = new(3, d=d + 1)
        elif which == 3:
          if not he:
            continue
          y = new(3, he=True)
          y.exp = np.reshape(y.exp, (-1, 1))
        elif which == 4:
          if not hr:
            continue
          y = new(3, hr=True)
          y.rsp = np.reshape(y.rsp, (-1, 1))
        elif which == 1:
          y = new(3, he=False)
          if not he:
            continue
        else:
          y = new(3, hr=False)
          if not hr:
            continue
        what = f"refused append {which}"
        c = copy_of(y)
        ctx.raises(ValueError, lambda: x.append(y),
                   "an incompatible append is accepted", kind=which)
        ctx.ok(unchanged(x, before), "a refused append changed the dataset",
               kind=("features", "no exposure", "no response", "exposure matrix",
                     "response matrix")[which],
               units_before=before[3], units_after=len(x))
        ctx.ok(unchanged(y, c), "a refused append modified the other dataset")
        ctx.count("refused appends")
      elif op == 4:
        # extra fields of the other dataset are ignored
        y = new(int(rng.integers(1, 4)), he=True, hr=True)
        more = [(c, e if he else None, r if hr else None)
                for c, e, r in units(y, d, flat)]
        x.append(y)
        model = model + more
        what = "append with extra fields"
      else:
        n = len(model)
        if op == 5:
          a, b = sorted(int(v) for v in rng.integers(-n - 2, n + 3, 2))
          key = slice(a, b, int(rng.choice([1, 1, 2, 3])))
          if rng.uniform() < .2:
            key = slice(None, None, -1)
          want = model[key]
          what = "slice"
        elif op == 6:
          key = rng.uniform(size=n) < rng.uniform()
          want = [u for u, k in zip(model, key) if k]
          if n and rng.uniform() < .25:
            key = key.tolist()
          what = "mask"
        else:
          if n == 0:
            continue
          key = rng.integers(-n, n, size=int(rng.integers(1, 2 * n + 1)))
          want = [model[int(k)] for k in key]
          if rng.uniform() < .25:
            key = key.tolist()
          elif rng.uniform() < .2:
            key = key.astype(np.int16)
          what = "index array"
        y = x[key]
        ctx.ok(units(y, d, flat) == want, f"a {what} does not return exactly those "
               "units", key=repr(key), got=units(y, d, flat)[:10], expected=want[:10])
        consistent(ctx, y, len(want), d, flat)
        ctx.ok(unchanged(x, before), f"a {what} modified the dataset")
        ctx.ok((y.exp is None) == (not he) and (y.rsp is None) == (not hr),
               "a missing field did not stay missing")
        if rng.uniform() < .5:
          # continue on an appended copy of the part
          z = new(0)
          z.append(y)
          x, model = z, want
      ctx.ok(units(x, d, flat) == model, f"the dataset is wrong after {what}",
             got=units(x, d, flat)[-10:], expected=model[-10:], step=step)
      consistent(ctx, x, len(model), d, flat)
      ctx.count("steps checked")
      ctx.saw(what, len(model), d, he, hr, flat)
    ctx.count("one-dimensional covariates", flat)
    ctx.sample("history", units=len(model), features=d)

  ctx.cases("model", ctx.pick(2500, 80000), case)

  def large(rng, i):
    """Tens of thousands of units, or hundreds of appends."""
    many = bool(i % 2)
    d = int(rng.integers(1, 4))
    sizes = rng.integers(0, 60, 700) if many else rng.integers(1, 30000, 6)
    x = tagged(np.arange(sizes[0]), d)
    at = int(sizes[0])
    for n in sizes[1:]:
      x.append(tagged(np.arange(at, at + n), d))
      at += int(n)
      consistent(ctx, x, at, d)
      if not many or rng.uniform() < .03:
        ids = np.arange(at)
        key = [slice(at // 3, None, 2), rng.uniform(size=at) < .5,
               rng.integers(-at, at, at + 5)][int(rng.integers(3))] if at else ids
        for got, want in ((x, ids), (x[key], ids[key])):
          w = tagged(want, d)
          ctx.ok(all(np.array_equal(a, b) for a, b in (
              (got.cov, w.cov), (got.exp, w.exp), (got.rsp, w.rsp))) and
                 len(got) == len(want), "a large dataset is not the units appended, "
                 "or a part of it not those asked for", units=at, features=d,
                 key=type(key).__name__)
        ctx.count("large datasets checked")
    ctx.saw("large", at, d, many)

  ctx.cases("large", ctx.pick(10, 200), large)
  ctx.require(**{"steps checked": 3000, "refused appends": 100,
                 "one-dimensional covariates": 100,
                 "large datasets checked": 30})


# --- C19 ----------------------------------------------------------------------
def c19(ctx):
  ctx.rule = (
      "the three selectors on tagged data of 0-12 units and 1-7 features (now and "
      "then up to 30000 and 300, in several types and memory layouts) with random index lists; distinct: (selector, features, indices)")

  def case(rng, i):
    n, d = big(rng, 12, 400), 1 + big(rng, 6, 40, .15)
    if rng.uniform() < .02:
      n, d = big(rng, 12, 30000, .3), int(rng.integers(41, 300))
    x = vary(rng, tagged(np.arange(n) + 1, d, bool(rng.integers(4)),
                         bool(rng.integers(4))))
    cov = np.array(x.cov)
    before = copy_of(x)
    which = i % 3
    if which == 0:
      y = D.get_identity_fn()(x)
      cols = list(range(d))
      what = "identity"
    elif which == 1:
      m = int(rng.integers(1, d + 1))
      cols = [int(c) for c in rng.permutation(d)[:m]]
      if rng.uniform() < .2:
        cols = [int(c) for c in rng.integers(0, d, m)]
      arg = list(cols) if rng.integers(2) else np.array(cols)
      if rng.uniform() < .2:  # counted from the end
        arg = [c - d if rng.integers(2) else c for c in cols]
      fn = D.get_coordinate_mask_fn(arg)
      y = fn(x)
      what = "mask"
    else:
      m = int(rng.integers(1, d + 1))
      gone = [int(c) for c in rng.permutation(d)[:m]]
      arg = gone
      if rng.uniform() < .3:  # counted from the end
        arg = [c - d if rng.integers(2) else c for c in gone]
      arg = arg[0] if m == 1 and rng.integers(2) else arg
      fn = D.get_remove_coordinates_fn(arg)
      y = fn(x)
      cols = [c for c in range(d) if c not in gone]
      what = "remove"
    info = dict(selector=what, n=n, features=d, columns=cols)
    ctx.ok(y.cov.ndim == 2, "the result's covariates are not two-dimensional",
           shape=y.cov.shape, **info)
    ctx.ok(np.array_equal(y.cov, cov[:, cols]), "wrong covariate columns",
           got=y.cov[:2], expected=cov[:2, cols], **info)
    for f, g in ((y.exp, before[1]), (y.rsp, before[2])):
      ctx.ok((f is None and g is None) or (f is not None and np.array_equal(f, g)),
             "exposure or response was changed", **info)
    consistent(ctx, y, n, len(cols), **info)
    ctx.ok(unchanged(x, before), "the input was modified", **info)
    # a selector is reusable: on other datasets, which may live where an earlier
    # one did, and on a dataset that has changed since
    if which and rng.uniform() < .3:
      for t in range(4):
        extra = 1000.0 * (t + 1)
        got = fn(D.ExpData(cov + extra, x.exp, x.rsp)).cov
        ctx.ok(np.array_equal(got, (cov + extra)[:, cols]),
               "a selector used on several datasets returns stale columns",
               use=t, **info)
      w = D.ExpData(cov + 1.0, before[1] + 0.0 if before[1] is not None else
                    None, before[2] + 0.0 if before[2] is not None else None)
      fn(w)
      w.cov += 5.0
      if w.exp is not None:
        w.exp[:] = 1 - w.exp
      v = fn(w)
      ctx.ok(np.array_equal(v.cov, (cov + 1.0 + 5.0)[:, cols]) and
             (w.exp is None or np.array_equal(v.exp, w.exp)),
             "a selector ignores a change of the dataset", **info)
      ctx.count("repeated selections")
    if which:
      z = fn(x[::-1])
      ctx.ok(np.array_equal(z.cov, cov[::-1][:, cols]),
             "a second use of a selector selects other columns", **info)
    ctx.count(f"selections {what}")
    ctx.saw(what, d, tuple(cols))
    ctx.sample(what, **info)

  ctx.cases("select", ctx.pick(4000, 60000), case)
  ctx.require(**{"selections mask": 500, "selections remove": 500,
                 "selections identity": 500})


# --- C20 ----------------------------------------------------------------------
def c20(ctx):
  ctx.rule = (
      "tables fitted to samples of skewed discrete distributions (support 1-9, now "
      "and then up to 300, 1-60 units, now and then up to 40000, 1-3 dimensional z, 1-3 values of x), with floors that do and do not bind, "
      "refits and permutations; distinct: fitted tables")

  def draw(rng):
    ns, dz, nx = (1 + big(rng, 8, 300), int(rng.integers(1, 4)),
                  1 + big(rng, 2, 8))
    n = 1 + big(rng, 58, 3000)
    if rng.uniform() < .004:
      n = int(rng.integers(3000, 40000))
    if rng.uniform() < .03:  # many values, many of them seen often
      ns, n = int(rng.integers(60, 300)), int(rng.integers(1000, 4000))
      dz = int(rng.integers(2, 4))
    base = 4 if ns < 60 else 20
    vals = rng.permutation(base**dz)[:min(ns, base**dz)]
    wide = rng.uniform() < .08
    if wide:  # many columns, of which all but a few are the same for all
      dz = int(rng.integers(4, 40))
      sup = np.repeat(rng.integers(0, 3, (1, dz)), ns, axis=0)
      sup[:, rng.integers(0, dz, 3)] = rng.integers(0, 4, (ns, 1))
      sup = np.unique(sup, axis=0)
      if rng.uniform() < .3:  # values that differ little
        sup = 1 + sup * 10.0**-rng.integers(3, 13)
    elif rng.uniform() < .3:
      sup = rng.standard_normal((len(vals), dz))
    else:
      sup = np.array([[(v // base**j) % base for j in range(dz)] for v in vals])
      if rng.uniform() < .15:  # codes that only differ beyond small types
        sup = sup * 2**int(rng.choice([7, 8, 15, 16, 24]))
    x = rng.integers(0, nx, n)
    probs = [rng.dirichlet(np.full(len(sup), rng.choice([.2, 1, 5])))
             for _ in range(nx)]
    z = np.array([sup[rng.choice(len(sup), p=probs[v])] for v in x])
    if rng.uniform() < .2:  # zeros of either sign are the same value
      z = np.where((z == 0) & (rng.uniform(size=z.shape) < .5), -0.0, z * 1.0)
    x = x.astype(rng.choice([np.int64, np.float64, np.int8]))
    if rng.uniform() < .3:
      x = np.repeat(x, 2)[::2]
    z = [z, np.asfortranarray(z), np.repeat(z, 2, axis=1)[:, ::2],
         np.repeat(z, 2, axis=0)[::2]][int(rng.integers(4))]
    return x, z

  def case(rng, i):
    ratio = float(rng.choice([1, 1.5, 2, 5, 10, 20, 50, 1000, 1e7]))
    t = D.TabularCPD(min_ratio_to_uniform=ratio)
    used = rng.uniform() < .5
    if used:
      ox, oz = draw(rng)
      t.fit(ox, oz)
      t.predict(ox, oz)
    x, z = draw(rng)
    xc, zc = np.array(x), np.array(z)
    t.fit(x, z)
    info = dict(ratio=ratio, n=len(x), refit=used)
    ctx.ok(np.array_equal(x, xc) and np.array_equal(z, zc),
           "fitting modified the data", **info)
    sup = np.unique(z, axis=0)
    k = len(sup)
    floor = 1 / (ratio * k)
    ctx.ok(t.support_size() == k and len(t.z_support()) == k and
           sorted(map(tuple, np.asarray(t.z_support()).tolist())) == sorted(
               map(tuple, sup.tolist())), "the support is not the observed one",
           got=t.support_size(), expected=k, **info)
    ctx.ok(sorted(np.asarray(t.x_support()).tolist()) == sorted(set(x.tolist())),
           "the observed values of x are wrong", **info)
    rows = {}
    for xv in np.unique(x):
      zs = z[x == xv]
      emp = np.array([np.mean(np.all(zs == s, axis=1)) for s in sup])
      p = t.predict(np.full(k, xv), sup)
      rows[int(xv)] = p
      ctx.ok(np.shape(p) == (k,), "predictions have a wrong shape", **info)
      ctx.close(np.sum(p), 1.0, "the probabilities given x do not sum to one",
                x=xv, probabilities=p, empirical=emp, **info)
      ctx.ok(np.all(p >= floor * (1 - 1e-9)), "a probability is below the floor",
             x=xv, probabilities=p, empirical=emp, floor=floor, **info)
      if np.all(emp >= floor * (1 + 1e-12)):
        ctx.close(p, emp, "the probabilities are not the empirical frequencies "
                  "although none is below the floor", x=xv, **info)
        ctx.count("rows without smoothing")
      else:
        ctx.count("smoothed rows")
        ctx.count("smoothed rows with cascade", np.any(
            (p < emp - 1e-12) & (p <= floor * (1 + 1e-9)) & (emp > floor)))
      o = np.argsort(emp, kind="stable")
      ctx.ok(np.all(np.diff(p[o])[np.diff(emp[o]) > 1e-12] >= -1e-9),
             "smoothing does not preserve the order of the probabilities", x=xv,
             probabilities=p, empirical=emp, **info)
      equal = np.abs(emp[:, None] - emp) < 1e-12
      ctx.ok(np.all(np.abs(p[:, None] - p)[equal] < 1e-9), "equal frequencies get "
             "different probabilities", x=xv, probabilities=p, empirical=emp,
             **info)
      ctx.close(t.x_marginal[xv.tobytes()], np.mean(x == xv),
                "the marginal of x is not the empirical one", x=xv, **info)
      ctx.saw(ratio, tuple(np.round(p, 12)))
    # elementwise, unseen values
    seen_x = np.array(sorted(rows), dtype=x.dtype)
    q = rng.integers(0, k, 15)
    xs = seen_x[rng.integers(0, len(seen_x), 15)]
    ctx.close(t.predict(xs, sup[q]), [rows[int(a)][b] for a, b in zip(xs, q)],
              "predictions are not elementwise", **info)
    far = (sup + 100)[:1]
    ctx.close(t.predict(seen_x[:1], far), [0.0],
              "an unseen z does not get probability 0", **info)
    mix = np.concatenate([sup, far])
    ctx.close(t.predict(np.full(k + 1, seen_x[-1]), mix),
              np.r_[rows[int(seen_x[-1])], 0],
              "predicting an unseen z changes other predictions", **info)
    # the table prints, also after unseen values were asked for
    other = np.array([99], dtype=x.dtype)
    t.predict(other, sup[:1])
    text = str(t)
    ctx.ok(isinstance(text, str) and len(text) >= k, "the table does not print",
           text=text[:80], **info)
    t.predict(seen_x[:1], far + 1)
    ctx.ok(str(t) == text, "predicting changes the printed table", **info)
    ctx.close(t.predict(np.full(k, seen_x[-1]), sup), rows[int(seen_x[-1])],
              "predicting changes the fit", **info)
    # only the multiset of the latest data matters
    o = rng.permutation(len(x))
    t2 = D.TabularCPD(min_ratio_to_uniform=ratio)
    t2.fit(x[o], z[o])
    for xv in rows:
      ctx.close(t2.predict(np.full(k, xv, dtype=x.dtype), sup), rows[xv],
                "the fit depends on the order of the data or on earlier fits",
                x=xv, **info)
    ctx.count("tables")
    ctx.sample("table", rows=rows, floor=floor, **info)

  ctx.cases("tables", ctx.pick(1500, 40000), case)

  def bad(rng, i):
    del i
    x, z = draw(rng)
    ctx.raises(ValueError, lambda: D.TabularCPD().fit(x, np.r_[z, z[:1]]),
               "x and z of different lengths are accepted")

  ctx.cases("lengths", 5, bad)
  ctx.require(**{"tables": 500, "smoothed rows": 200,
                 "rows without smoothing": 200,
                 "smoothed rows with cascade": 5})


# --- C24 ----------------------------------------------------------------------
def c24(ctx):
  ctx.rule = (
      "linear generators of 1-5 features with recording, hostile and default "
      "noise models and random gamma; every generator of the package asked for "
      "0-200 units; distinct: generated datasets")

  def case(rng, i):
    del i
    d = int(rng.integers(1, 6) if rng.uniform() < .95 else rng.integers(6, 300))
    beta, gamma = rng.standard_normal(d), rng.standard_normal(d)
    tau = float(rng.standard_normal())
    calls, kept = [], []
    wrong_at = int(rng.integers(0, 5))
    wrong = str(rng.choice(["short", "long", "one", "empty", "column", "rows", "scalar"]))

    def noise(n):
      m = n
      if len(calls) == wrong_at:
        m = {"short": max(n - 1, 0), "long": n + 1, "one": 1, "empty": 0,
             "column": (n, 1), "rows": (n, n), "scalar": ()}[wrong]
      e = rng.integers(-1000, 1000, m) / 64.0
      calls.append((n, np.array(e)))
      kept.append(e)
      return e

    g = D.LinearDataGenerator(
        "lin", d, beta, tau, noise, None if rng.uniform() < .2 else gamma)
    info = dict(features=d, wrong=wrong, wrong_at=wrong_at)
    for t in range(4):
      n = int(rng.integers(1, 60) if rng.uniform() < .9 else 1)
      first = len(calls)
      try:
        x = g.generate(n)
      except ValueError:
        ctx.ok(any(np.shape(c[1]) != (n,) for c in calls[first:]),
               "ValueError although the noise had the right length", **info)
        ctx.count("refused noise")
        continue
      ctx.ok(len(x) == n and x.cov.shape == (n, d) and np.shape(x.exp) == (n,) and
             np.shape(x.rsp) == (n,), "wrong shapes", n=n, **info)
      ctx.ok(set(np.unique(x.exp)) <= {0, 1}, "the exposure is not binary", **info)
      res = x.rsp - x.cov.dot(beta) - tau * x.exp
      made = [c[1] for c in calls[first:] if np.shape(c[1]) == (n,)]
      ctx.ok(any(np.allclose(res, e, rtol=1e-9, atol=1e-9) for e in made),
             "response - covariates.beta - tau*exposure is not the noise that was "
             "returned", residual=res[:5], noise=[e[:5] for e in made], **info)
      ctx.ok(all(np.shape(c[1]) == (n,) for c in calls[first:]),
             "noise of a wrong shape is accepted", shapes=[
                 np.shape(c[1]) for c in calls[first:]], n=n, **info)
      ctx.ok(all(c[0] == n for c in calls[first:]),
             "the noise model is asked for another number of units", **info)
      ctx.saw(tuple(x.rsp[:4]))
      if rng.integers(2):
        x.rsp[...] = -7
      ctx.ok(all(np.array_equal(e, c[1]) for e, c in zip(kept, calls)),
             "an array that belongs to the noise model was modified, or is shared "
             "with the data", **info)
      ctx.count("datasets checked")
      ctx.sample("linear data", residual=res[:4], n=n, **info)

  ctx.cases("equation", ctx.pick(800, 20000), case)

  def stats(rng, i):
    d = int(rng.integers(1, 4))
    n = ctx.pick(60000, 400000)
    if i % 4 == 2:  # wide data
      d, n = int(rng.integers(20, 300)), 20000
    gamma = rng.standard_normal(d) * float(rng.choice([.5, 1, 2, 6])) / math.sqrt(
        max(1, d / 3))
    if i % 4 == 3:
      gamma = None
    g = D.LinearDataGenerator("lin", d, rng.standard_normal(d), 1.0, gamma=gamma)
    x = g.generate(n)
    info = dict(gamma=gamma)
    z = x.cov
    ctx.ok(np.all(abs(z.mean(axis=0)) < 6 / math.sqrt(n)),
           "covariates do not have mean zero", mean=z.mean(axis=0), **info)
    c = z.T.dot(z) / n
    tol = 7 * np.sqrt((1 + np.eye(d)) / n)
    ctx.ok(np.all(abs(c - np.eye(d)) < tol), "covariates are not independent with "
           "unit variance", covariance=c, **info)
    for j in range(d):
      ks = st.kstest(z[:, j], "norm").statistic
      ctx.ok(ks < 3.2 / math.sqrt(n), "covariates are not normal", ks=ks, **info)
    s = z.dot(gamma) if gamma is not None else np.zeros(n)
    p = 1 / (1 + np.exp(-s))
    order = np.argsort(s) if gamma is not None else np.arange(n)
    for part in np.array_split(order, 20):
      e, v = p[part].sum(), (p[part] * (1 - p[part])).sum()
      ctx.ok(abs(x.exp[part].sum() - e) < 6 * math.sqrt(v) + (1 if v > 1 else 4),
             "the exposure is not Bernoulli(sigmoid(covariates.gamma))",
             expected=e / len(part), got=x.exp[part].mean(), **info)
    # given the covariates, no dependence along the sample
    p = np.clip(p, 1e-12, 1 - 1e-12)
    r = (x.exp - p) / np.sqrt(p * (1 - p))
    ctx.ok(abs(np.mean(np.clip(r[1:], -5, 5) * np.clip(r[:-1], -5, 5))) < 6 * 1.2 /
           math.sqrt(n), "the exposures of successive units are dependent", **info)
    eps = x.rsp - z.dot(g.beta) - g.tau * x.exp
    ctx.ok(abs(eps.mean()) < 6 / math.sqrt(n) and
           abs(np.mean(eps * r.clip(-5, 5))) < 7 / math.sqrt(n) and
           abs(eps.var() - 1) < 6 * math.sqrt(2 / n),
           "the default noise is not standard normal and independent", **info)
    independence.lags(ctx, eps, "the default noise", **info)
    independence.lags(ctx, np.where(p * (1 - p) > .14, r, 0), "the exposures",
                      **info)
    for j in range(min(d, 5)):
      independence.lags(ctx, z[:, j], "the covariates", **info)
    ctx.count("units in statistics", n)
    ctx.saw(repr(gamma))

  ctx.cases("statistics", 8, stats)

  def small(rng, i):
    # many samples of a few units: every two units and variables
    d = int(rng.integers(1, 4))
    n = int(rng.integers(2, 12) if rng.uniform() < .6 else rng.integers(12, 40))
    gamma = None if i % 3 == 0 else rng.standard_normal(d) * .3
    g = D.LinearDataGenerator("lin", d, rng.standard_normal(d), 1.0, gamma=gamma)
    rows, drawn = [], []
    for _ in range(200):
      x = g.generate(n)
      drawn.append(np.column_stack([x.cov, x.rsp]))
      p = np.full(n, .5) if gamma is None else 1 / (1 + np.exp(
          -x.cov.dot(gamma)))
      rows.append(np.concatenate([
          x.cov.T.ravel(), ((x.exp - p) / np.sqrt(p * (1 - p))).clip(-4, 4),
          x.rsp - x.cov.dot(g.beta) - g.tau * x.exp]))
    drawn = np.concatenate(drawn)
    repeats = [len(v) - len(np.unique(v)) for v in drawn.T]
    ctx.ok(max(repeats) == 0, "covariates or responses of one sample return in "
           "another", repeated=repeats, n=n, features=d)
    independence.units(ctx, rows, "covariates, exposure and noise", n=n,
                       features=d, gamma=gamma)

  ctx.cases("small samples", ctx.pick(30, 600), small)

  def extreme(rng, i):
    """Where the propensity is 0 or 1 for all practical purposes."""
    d = int(rng.integers(1, 4))
    gamma = rng.standard_normal(d)
    gamma *= 10**rng.uniform(1.5, 5) / np.linalg.norm(gamma)
    g = D.LinearDataGenerator("lin", d, rng.standard_normal(d), 1.0, gamma=gamma)
    for t in range(3):
      x = g.generate(int(rng.integers(20, 400)))
      s = x.cov.dot(gamma)
      sure = abs(s) > 40
      ctx.ok(np.array_equal(x.exp[sure], (s[sure] > 0) * 1.0),
             "a unit that is almost certainly (un)treated is not",
             linear=s[sure][:5], exposure=x.exp[sure][:5], gamma=gamma)
      ctx.count("units with extreme propensity", sure.sum())
    del i

  ctx.cases("extreme", ctx.pick(60, 600), extreme)

  def sizes(rng, i):
    del i
    gens = [
        D.DataGenerator("base"),
        D.LinearDataGenerator("lin", 2, np.ones(2), 1.0),
        boot.example_scm.back_door_scm()[0],
        boot.example_scm.frontdoor_scm()[0],
    ]
    for g in gens:
      for n in (1, 2, int(rng.integers(3, 200))):
        x = g.generate(n)
        ctx.ok(len(x) == n and len(x.cov) == n and len(x.exp) == n and
               len(x.rsp) == n and np.ndim(x.cov) == 2,
               "a generator does not return the requested number of units",
               generator=type(g).__name__, n=n, got=len(x))
        ctx.count("sizes checked")

  ctx.cases("sizes", ctx.pick(20, 300), sizes)

  def bad(rng, i):
    del i
    d = int(rng.integers(1, 5))
    for shape in ((d + 1,), (d, 1), (1, d), (d - 1,)):
      if shape == (d,):
        continue
      ctx.raises(ValueError, lambda: D.LinearDataGenerator(
          "lin", d, np.ones(d), 1.0, gamma=np.ones(shape)),
                 f"gamma of shape {shape} is accepted for {d} features")

  ctx.cases("gamma", 5, bad)
  ctx.require(**{"datasets checked": 500, "refused noise": 100,
                 "sizes checked": 100, "units in statistics": 100000,
                 "units with extreme propensity": 5000,
                 "pairs of units compared": 10000,
                 "distances compared": 100000})
