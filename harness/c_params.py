"""Monitors of C26-C31: the nuisance estimators."""
import itertools
import math
import resource

import numpy as np
from sklearn import base as skbase
from sklearn import linear_model

from harness import boot
from harness import spies

D, P, SCM, X = boot.data, boot.parameters, boot.scm, boot.example_scm


class Design:
  """Finds out which column of an estimator's design is which variable.

  The order of the columns is the estimator's business; the first design it fits
  tells it, because the columns of the data are distinct.
  """

  def __init__(self):
    self.order = None  # per design column: "exp" or the covariate's index

  def learn(self, x, d):
    cov = np.asarray(d.cov, dtype=float).reshape(len(d), -1)
    exp = np.asarray(d.exp, dtype=float)
    order = []
    for j in range(x.shape[1]):
      col = np.asarray(x[:, j], dtype=float)
      if np.array_equal(col, exp):
        order.append("exp")
        continue
      for k in range(cov.shape[1]):
        if k not in order and np.array_equal(col, cov[:, k]):
          order.append(k)
          break
      else:
        return False
    self.order = order
    return set(order) >= set(range(cov.shape[1]))

  def split(self, x):
    x = np.asarray(x, dtype=float)
    cov = np.empty((len(x), sum(o != "exp" for o in self.order)))
    exp = None
    for j, o in enumerate(self.order):
      if o == "exp":
        exp = x[:, j]
      else:
        cov[:, o] = x[:, j]
    return exp, cov


class Board:
  """Shared between spies and a monitor (clones keep pointing to it)."""

  def __init__(self):
    self.current = None  # the data the estimator is being fitted to
    self.fits = []
    self.problems = []

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self


class SpyResponse(skbase.BaseEstimator):
  """A response model which knows the function it is to predict with."""

  def __init__(self, board=None, make=None):
    self.board = board
    self.make = make

  def fit(self, x, y):
    b = self.board
    self.design_ = Design()
    d = b.current
    if np.shape(x) != (len(d), d.n_features + 1) or not self.design_.learn(
        np.asarray(x), d) or "exp" not in self.design_.order:
      b.problems.append("the response model is not fitted to exposure and "
                        "covariates of the fitting data")
    elif not np.array_equal(y, d.rsp):
      b.problems.append("the response model is not fitted to the response")
    self.fn_ = self.make(d)
    b.fits.append("response")
    return self

  def predict(self, x):
    e, c = self.design_.split(x)
    return self.fn_(e, c)


class SpyPropensity(skbase.BaseEstimator):

  def __init__(self, board=None, make=None):
    self.board = board
    self.make = make

  def fit(self, x, y):
    b = self.board
    self.design_ = Design()
    d = b.current
    if np.shape(x) != (len(d), d.n_features) or not self.design_.learn(
        np.asarray(x), d):
      b.problems.append("the propensity model is not fitted to the covariates of "
                        "the fitting data")
    elif not np.array_equal(y, d.exp):
      b.problems.append("the propensity model is not fitted to the exposure")
    self.fn_ = self.make(d)
    self.classes_ = np.array([0, 1])
    b.fits.append("propensity")
    return self

  def predict_proba(self, x):
    p = self.fn_(self.design_.split(x)[1])
    return np.column_stack([1 - p, p])


def upto(rng, lo, hi, top, p=.06):
  """An integer in lo..hi, now and then one up to top."""
  return int(rng.integers(hi + 1, top + 1)) if rng.uniform() < p else int(
      rng.integers(lo, hi + 1))


def copy_data(d):
  return D.ExpData(np.array(d.cov), np.array(d.exp), np.array(d.rsp))


def same_data(a, b):
  return (np.array_equal(a.cov, b.cov) and np.array_equal(a.exp, b.exp) and
          np.array_equal(a.rsp, b.rsp) and a.exp.dtype == b.exp.dtype)


def scorer(ctx, est, what, **info):
  """Scores data, checking that it is not modified."""
  def score(d):
    c = copy_data(d)
    s = est.calculate_score(d)
    ctx.ok(same_data(d, c), "scoring modified the data", estimator=what, **info)
    return np.asarray(s, dtype=float)
  return score


def generic(rng, n, d, p=None):
  """Units with continuous covariates, at least five per group."""
  cov = rng.standard_normal((n, d)) * rng.choice([.5, 1, 3])
  s = cov.dot(rng.standard_normal(d)) * .7
  exp = (rng.uniform(size=n) < (p or 1 / (1 + np.exp(-s)))).astype(int)
  exp[rng.permutation(n)[:10]] = np.arange(10) % 2
  rsp = cov.dot(rng.standard_normal(d)) + 2 * exp + rng.standard_normal(n)
  return D.ExpData(cov, exp, rsp)


def unusual(rng, data, p=.4):
  """Now and then data with unusual values, order or memory layout."""
  if rng.uniform() > p or len(data) < 3:
    return data
  cov, exp, rsp = np.array(data.cov), np.array(data.exp), np.array(data.rsp)
  n = len(data)
  for kind in rng.permutation(9)[:int(rng.integers(1, 3))]:
    j = int(rng.integers(n))
    if kind == 0:
      rsp = rsp + 0.0
      rsp[j] += float(rng.choice([-1, 1]) * rng.uniform(20, 60) * (rsp.std() + .1))
    elif kind == 1:
      rsp = rsp + float(rng.choice([-1000, 1000]))
    elif kind == 2:
      rsp = np.full(n, float(rng.integers(-1, 2)))
    elif kind == 3:  # repeated units
      o = np.concatenate([np.arange(n), rng.integers(0, n, n // 2)])
      cov, exp, rsp = cov[o], exp[o], rsp[o]
      n = len(o)
    elif kind == 4:
      rsp = rsp * 1e-5
    elif kind == 5:  # sorted by exposure, response or a covariate
      o = np.argsort((exp, rsp, cov[:, 0])[int(rng.integers(3))], kind="stable")
      cov, exp, rsp = cov[o], exp[o], rsp[o]
    elif kind == 6:
      rsp = np.round(rsp * 3).astype(int)
    elif kind == 7:
      cov = np.asfortranarray(cov)
    else:
      for a in (cov, exp, rsp):
        a.flags.writeable = False
  return D.ExpData(cov, exp, rsp)


def sibling(rng, data):
  """Other units sharing some of the fields (their values, units, sums) of data."""
  fields = [data.cov, data.exp, data.rsp]
  which = rng.permutation(3)[:int(rng.integers(1, 3))]
  o = rng.permutation(len(data))
  for j in which:
    fields[j] = fields[j][o]
    if j == 2 and rng.integers(2):
      fields[j] = fields[j][::-1] * 2 - 1
  return D.ExpData(*(np.array(f) for f in fields))


def cells(rng, n_cells, d, per=1, extra=40):
  """Discrete covariates in which every (z, x) cell is occupied."""
  sup = np.array(list(itertools.product(range(3), repeat=d)), dtype=float)
  sup = sup[rng.permutation(len(sup))[:n_cells]]
  if rng.integers(2):
    sup = sup + rng.standard_normal(sup.shape)
  k = len(sup)
  idx = np.concatenate([np.repeat(np.arange(k), 2 * per),
                        rng.choice(k, extra, p=rng.dirichlet(np.ones(k)))])
  exp = np.concatenate([np.tile(np.arange(2), k * per),
                        (rng.uniform(size=extra) < rng.uniform(.2, .8))]).astype(int)
  o = rng.permutation(len(idx))
  idx, exp = idx[o], exp[o]
  rsp = np.sin(idx * 2.0) * 3 + exp * (1 + idx % 3) + rng.standard_normal(len(idx))
  return D.ExpData(sup[idx], exp, rsp), sup, idx


# --- C26 ----------------------------------------------------------------------
def aipw_formula(mu0, mu1, e, lo, d):
  e = np.clip(e, lo, 1 - lo)
  x = np.asarray(d.exp, dtype=float)
  mux = np.where(x == 1, mu1, mu0)
  return mu1 - mu0 + (d.rsp - mux) * (x / e - (1 - x) / (1 - e))


def c26(ctx):
  ctx.rule = (
      "AIPW estimators with injected response and propensity models (arbitrary, "
      "over- and undershooting propensities), refits, resets and other scoring "
      "data; saturated models on discrete data; the built-in classes; distinct: "
      "(kind, features, overlap bound, units)")

  def injected(rng, i):
    d, lo = upto(rng, 1, 4, 20), float(rng.choice([0, .01, .05, .1, .25, .45]))
    huge = i % 100 == 3  # many units or many features
    if huge and rng.integers(2):
      d = int(rng.integers(21, 150))
    mu_units = int(rng.choice([1, 2, 5]))
    w = rng.standard_normal(d)
    board = Board()

    def make_mu(data):
      k = np.arange(len(data))
      s = float(np.sum(data.rsp * np.cos(k)) + np.sum(data.exp * np.sin(k)) +
                np.sum(data.cov[:, 0] * np.cos(2 * k))) + len(data)
      return lambda e, c: np.sin(c.dot(w) + s) * 3 + e * np.cos(c[:, 0] * s)

    def make_e(data):
      k = np.arange(len(data))
      s = float(np.sum(data.exp * np.cos(k)) + np.sum(data.cov[:, 0] * np.sin(k)))
      edge = 0 if lo else .002
      return lambda c: np.clip(.5 + .7 * np.sin(c.dot(w) * 2 + s), edge, 1 - edge)

    est = P.AIPW(d, SpyResponse(board, make_mu), SpyPropensity(board, make_e),
                 min_units=mu_units, min_overlap=lo)
    info = dict(features=d, min_overlap=lo)
    fits = int(rng.integers(1, 4))
    for t in range(fits):
      if t and rng.uniform() < .5:
        data = sibling(rng, data)
      else:
        data = unusual(rng, generic(
            rng, int(rng.integers(3000, 40000) if huge and d < 21 else
                     rng.integers(12, 60 if i % 8 else 3000)), d))
      if rng.uniform() < .3:
        est.reset()
      board.current, board.fits = data, []
      c = copy_data(data)
      est.fit(data)
      ctx.ok(same_data(data, c), "fitting modified the data", **info)
      ctx.ok(not board.problems, "; ".join(board.problems[:1]), **info)
    mu, e = make_mu(data), make_e(data)
    board.current = None
    for new in (data, unusual(rng, generic(
        rng, int(rng.integers(3000, 40000) if huge and d < 21 else
                 rng.integers(11, 50 if i % 5 else 3000)), d))):
      got = scorer(ctx, est, "AIPW", **info)(new)
      p = e(new.cov)
      want = aipw_formula(mu(np.zeros(len(new)), new.cov),
                          mu(np.ones(len(new)), new.cov), p, lo, new)
      ctx.close(got, want, "the scores are not the doubly robust influence "
                "function of the fitted models", rtol=1e-8, atol=1e-8,
                in_sample=new is data, propensity=p[:6], **info)
      ctx.count("scores checked", len(new))
      ctx.count("clipped propensities", np.sum((p < lo) | (p > 1 - lo)))
    ctx.saw("injected", d, lo, len(data))
    ctx.sample("injected", fits=fits, **info)
    del i

  ctx.cases("injected", ctx.pick(1500, 30000), injected)

  def saturated(rng, i):
    d = int(rng.integers(1, 3))
    data, sup, idx = cells(rng, int(rng.integers(1, 5)), d,
                           per=int(rng.integers(2, 4)),
                           extra=int(rng.integers(0, 80)))
    board = Board()
    k = len(sup)
    m = np.array([[data.rsp[(idx == z) & (data.exp == x)].mean()
                   for x in (0, 1)] for z in range(k)])
    pz = np.array([np.mean(idx == z) for z in range(k)])
    ez = np.array([data.exp[idx == z].mean() for z in range(k)])
    truth = float(pz.dot(m[:, 1] - m[:, 0]))
    exact_mu = bool(i % 2)

    def find(c):
      return np.array([int(np.argmin(np.sum((sup - u)**2, axis=1))) for u in c])

    noise = rng.standard_normal((k, 2)) * 3
    g = rng.uniform(0, 1, k)
    if exact_mu:
      mu = lambda e, c: m[find(c), e.astype(int)]
      pr = lambda c: g[find(c)]
    else:
      mu = lambda e, c: noise[find(c), e.astype(int)]
      pr = lambda c: ez[find(c)]
    est = P.AIPW(d, SpyResponse(board, lambda _: mu),
                 SpyPropensity(board, lambda _: pr), min_units=1,
                 min_overlap=float(rng.choice([1e-6, .05])) if exact_mu else 1e-6)
    board.current = data
    est.fit(data)
    ctx.ok(not board.problems, "; ".join(board.problems[:1]))
    got = scorer(ctx, est, "AIPW")(data).mean()
    ctx.close(got, truth, "the mean score over the fitting data is not the "
              "back-door adjustment although the fitted " +
              ("response" if exact_mu else "propensity") + " is exact",
              rtol=1e-8, atol=1e-8, cells=k, units=len(data))
    ctx.count("back-door identities")
    ctx.saw("saturated", exact_mu, k, len(data))

  ctx.cases("saturated", ctx.pick(800, 16000), saturated)

  def builtin(rng, i):
    cls = (P.AIPWLinearLogistic, P.AIPWKernelRidgeLogistic,
           P.AIPWKernelGradientBoosting)[i % 3]
    d = upto(rng, 1, 3, 10)
    lo = float(rng.choice([0, .05, .1, .25, .4]))
    est = cls(d, min_units=2, min_overlap=lo)
    old = generic(rng, int(rng.integers(20, 60)), d)
    data = unusual(rng, generic(rng, upto(rng, 20, 80, 700), d))
    if rng.integers(2):
      old = sibling(rng, data)
    refit = bool(rng.integers(2))
    info = dict(estimator=cls.__name__, features=d, min_overlap=lo, refit=refit)
    if refit:
      est.fit(old)
      est.calculate_score(old)
      if rng.integers(2):
        est.reset()
    est.fit(data)
    # the models by their own interface, with the columns in the order that
    # reproduces the models fitted to the data
    refm = skbase.clone(est.response)
    best = None
    for exp_first in (True, False):
      f = (lambda e, c: np.c_[e, c]) if exp_first else (
          lambda e, c: np.c_[c, e])
      refm.fit(f(data.exp, data.cov), data.rsp)
      try:
        a, b = (est.response.predict(f(data.exp, data.cov)),
                refm.predict(f(data.exp, data.cov)))
      except ValueError:
        continue
      if np.allclose(a, b, rtol=1e-6, atol=1e-6):
        best = f
        break
    ctx.ok(best is not None, "the response model is not the one fitted to the "
           "latest fitting data", **info)
    refp = skbase.clone(est.propensity).fit(data.cov, data.exp)
    ctx.close(est.propensity.predict_proba(data.cov)[:, 1],
              refp.predict_proba(data.cov)[:, 1], "the propensity model is not the "
              "one fitted to the latest fitting data", rtol=2e-3, atol=2e-3,
              **info)
    for new in (data, generic(rng, 25, d)):
      n = len(new)
      want = aipw_formula(est.response.predict(best(np.zeros(n), new.cov)),
                          est.response.predict(best(np.ones(n), new.cov)),
                          est.propensity.predict_proba(new.cov)[:, 1], lo, new)
      ctx.close(scorer(ctx, est, cls.__name__)(new), want, "the scores are not the "
                "doubly robust influence function of the fitted models",
                rtol=1e-7, atol=1e-7, **info)
    ctx.count("built-in estimators")
    ctx.saw(cls.__name__, d, lo, len(data))

  ctx.cases("built-in", ctx.pick(180, 3000), builtin)
  ctx.require(**{"scores checked": 10000, "clipped propensities": 1000,
                 "back-door identities": 300, "built-in estimators": 60})


# --- C27 ----------------------------------------------------------------------
def frontdoor_parts(est, mu, table, p1, lo, d):
  """The documented score of every unit, from its parts."""
  n = len(d)
  x = np.asarray(d.exp, dtype=int)
  z = np.asarray(d.cov)
  sup = [np.asarray(s) for s in table.z_support()]
  pr = lambda v, zz: table.predict(np.full(len(zz), v, dtype=int), zz)
  a1 = np.clip(pr(1, z), lo, 1 - lo)
  a0 = np.clip(pr(0, z), lo, 1 - lo)
  ax = np.where(x == 1, a1, a0)
  s = np.array(sup)
  q1, q0 = pr(1, s), pr(0, s)
  out = np.empty(n)
  px = {0: 1 - p1, 1: p1}
  mus = {v: mu(np.full(len(s), v), s) for v in (0, 1)}
  inner = {v: float(np.sum((q1 if v else q0) * (mus[0] * px[0] + mus[1] * px[1])))
           for v in (0, 1)}
  f1 = {v: float(np.sum(mus[v] * (q1 - q0))) for v in (0, 1)}
  mux = mu(x.astype(float), z)
  f2 = px[0] * mu(np.zeros(n), z) + px[1] * mu(np.ones(n), z)
  for i in range(n):
    v = int(x[i])
    w = 1 / p1 if v else -1 / (1 - p1)
    out[i] = ((d.rsp[i] - mux[i]) * (a1[i] - a0[i]) / ax[i] + f1[v] + w *
              (f2[i] - inner[v]))
  del est
  return out


def c27(ctx):
  ctx.rule = (
      "front-door estimators with linear and injected response models on discrete "
      "mediators of 1-3 dimensions and 1-9 values, with and without clipping, "
      "smoothing, unseen mediator values, refits; distinct: (features, support, "
      "clipping, smoothing, units)")

  def case(rng, i):
    d = int(rng.integers(1, 4))
    huge = i % 150 == 8
    if huge:  # many units or many values of the mediator
      d = int(rng.integers(4, 6))
    lo = float(rng.choice([.001, .05, .1, .25]) if i % 20 != 3 else .001)
    ratio = float(rng.choice([1.5, 10, 20, 1e4]))
    est = P.FrontDoorLinearFiniteZ(d, min_units=1, min_overlap=lo,
                                   min_ratio_to_uniform=ratio)
    spy = bool(i % 2)
    data, sup, _ = cells(rng, int(rng.integers(60, 3**d)) if huge and i % 4 else
                         upto(rng, 1, 9, 27), d,
                         extra=int(rng.integers(5, 60 if i % 15 and i % 20 != 3 else 2000))
                         if not huge or i % 4 else int(rng.integers(2000, 15000)))
    if rng.uniform() < .4:  # some cells empty, few of one group
      keep = rng.uniform(size=len(data)) < np.where(
          data.exp == 1, rng.choice([.1, .5, 1]), .9)
      keep[np.flatnonzero(data.exp == 1)[:2]] = True
      keep[np.flatnonzero(data.exp == 0)[:2]] = True
      data = data[keep]
    if len(data) > 200 and i % 4 == 3:  # one exposure is rare
      rare = int(rng.integers(2))
      keep = (data.exp != rare) | (rng.uniform(size=len(data)) < .02)
      keep[np.flatnonzero(data.exp == rare)[:2]] = True
      data = data[keep]
      ctx.count("rare exposures")
    data = unusual(rng, data)
    if i % 3 == 0:
      old, _, _ = cells(rng, 4, d)
      if rng.integers(2):
        old = sibling(rng, data)
      est.fit(old)
      est.calculate_score(old)
      if rng.integers(2):
        est.reset()
    board = Board()
    w = rng.standard_normal(d)
    spy_mu = lambda e, c: np.sin(c.dot(w)) * 4 + e * np.cos(3 * c[:, 0])
    if spy:
      est.y_response = SpyResponse(board, lambda _: spy_mu)
    board.current = data
    c = copy_data(data)
    est.fit(data)
    ctx.ok(same_data(data, c), "fitting modified the data")
    ctx.ok(not board.problems, "; ".join(board.problems[:1]))
    info = dict(features=d, min_overlap=lo, min_ratio_to_uniform=ratio,
                injected_response=spy, units=len(data))
    if spy:
      ctx.ok(board.fits == ["response"], "the response model is not fitted once",
             fits=board.fits, **info)
      mu = spy_mu
    else:
      # the ridge regression (with intercept) of the response
      r = linear_model.Ridge(alpha=1.0).fit(np.c_[data.exp, data.cov], data.rsp)
      mu = lambda e, c: r.predict(np.c_[e, c])
      ctx.count("linear responses")
    table = D.TabularCPD(ratio)
    table.fit(np.asarray(data.exp, dtype=int), data.cov)
    p1 = float(np.clip(np.mean(data.exp), lo, 1 - lo))
    new, _, _ = cells(rng, 3, d)
    far = D.ExpData(np.concatenate([data.cov[:3], data.cov[:3] + 50]),
                    np.array([0, 1, 0, 1, 0, 1]), np.arange(6.0))
    sub = data[rng.permutation(len(data))[:7]]
    for part in (data, new, far, sub):
      if part is new and rng.uniform() < .5:
        continue
      got = scorer(ctx, est, "front-door")(part)
      want = frontdoor_parts(est, mu, table, p1, lo, part)
      ctx.close(got, want, "the scores are not the front-door influence function "
                "of the fitted models", rtol=1e-7, atol=1e-7,
                in_sample=part is data, **info)
      ctx.count("scores checked", len(part))
    ctx.count("clipped P(1)", p1 != np.mean(data.exp))
    ctx.count("multi-dimensional mediators", d > 1)
    ctx.saw("formula", d, len(table.z_support()), lo, ratio, len(data))
    ctx.sample("front-door", support=len(table.z_support()), **info)

  ctx.cases("formula", ctx.pick(900, 20000), case)

  def identity(rng, i):
    d = int(rng.integers(1, 4))
    data, sup, idx = cells(rng, int(rng.integers(1, 7)), d,
                           per=int(rng.integers(1, 4)),
                           extra=int(rng.integers(0, 60)))
    k = len(sup)
    est = P.FrontDoorLinearFiniteZ(d, min_units=1, min_overlap=1e-6,
                                   min_ratio_to_uniform=1e6)
    board = Board()
    if i % 2:
      w = rng.standard_normal(d)
      est.y_response = SpyResponse(
          board, lambda _: lambda e, c: np.sin(c.dot(w)) * 9 + e * c[:, 0])
    board.current = data
    est.fit(data)
    if k == 1:
      truth = 0.0  # z has a single value: P(z|1) = P(z|0) = 1
    x = data.exp
    pz = {v: np.array([np.mean(idx[x == v] == z) for z in range(k)])
          for v in (0, 1)}
    m = np.array([[data.rsp[(idx == z) & (x == v)].mean() for v in (0, 1)]
                  for z in range(k)])
    truth = float(np.sum((pz[1] - pz[0]) * (m[:, 0] * np.mean(x == 0) +
                                            m[:, 1] * np.mean(x == 1))))
    got = scorer(ctx, est, "front-door")(data).mean()
    # P = 1 is clipped to 1 - 1e-6 when z has a single value
    ctx.close(got, truth, "the mean score over the fitting data is not the "
              "front-door adjustment of the empirical distribution", rtol=1e-7,
              atol=1e-7 if k > 1 else 1e-4, support=k, units=len(data),
              features=d, injected_response=bool(i % 2))
    ctx.count("front-door identities")
    ctx.count("nonzero effects", abs(truth) > 1e-6)
    ctx.saw("identity", d, k, len(data))

  ctx.cases("identity", ctx.pick(900, 20000), identity)
  ctx.require(**{"scores checked": 10000, "front-door identities": 300,
                 "nonzero effects": 200, "multi-dimensional mediators": 100,
                 "linear responses": 100})


# --- C28 ----------------------------------------------------------------------
def ridge(x, y, penalty, intercept):
  """Coefficients of a ridge regression by an augmented least-squares problem."""
  x = np.asarray(x, dtype=float)
  y = np.asarray(y, dtype=float)
  if intercept:
    mx, my = x.mean(axis=0), y.mean()
    c, _ = ridge(x - mx, y - my, penalty, False)
    return c, my - mx.dot(c)
  d = x.shape[1]
  a = np.vstack([x, math.sqrt(penalty) * np.eye(d)])
  b = np.concatenate([y, np.zeros(d)])
  return np.linalg.lstsq(a, b, rcond=None)[0], 0.0


def c28(ctx):
  ctx.rule = (
      "both linear estimators on 2-80 units of 1-5 features with binary and "
      "continuous exposures, small and large penalties, refits; against "
      "independent least-squares solutions; distinct: (estimator, features, "
      "penalty, units)")

  def regression(rng, i):
    d, n = upto(rng, 1, 5, 20), upto(rng, 2, 80, 700, .03)
    if i % 400 == 9:
      n = int(rng.integers(700, 40000))
    elif i % 400 == 19:
      d, n = int(rng.integers(21, 120)), int(rng.integers(200, 700))
    l = float(rng.choice([0, .01, .1, 1, 10]))
    if not l:
      n += 3 * d + 3
    est = P.LinearRegressionParameter(d, l_reg=l)
    if i % 4 == 0:
      est = P.LinearRegressionParameter(d)
      l = .1
    data = generic(rng, max(n, 11), d)[:n]
    if i % 2:
      data = D.ExpData(data.cov, rng.standard_normal(n) * 2, data.rsp)
    data = unusual(rng, data)
    if i % 10 == 7:  # covariates in very different units
      data = D.ExpData(data.cov * 10**rng.uniform(-4, 4, d), data.exp, data.rsp)
      ctx.count("regressions on covariates of different scales")
    n = len(data)
    if i % 3 == 0:
      est.fit(generic(rng, 3 * d + 20, d) if rng.integers(2) else
              sibling(rng, data))
      if rng.integers(2):
        est.reset()
    est.fit(data)
    want, _ = ridge(np.c_[data.exp, data.cov], data.rsp, l, False)
    s = scorer(ctx, est, "regression")(data)
    ctx.ok(np.shape(s) == (n,), "not one score per unit", shape=np.shape(s))
    # rounding errors of the inverse (of the equilibrated matrix) and of the mean
    x = np.c_[data.exp, data.cov].astype(float)
    g = x.T.dot(x) + l * np.eye(d + 1)
    size = np.sqrt(np.diag(g))
    g = g / np.outer(size, size) if np.all(size > 0) else np.zeros((1, 1))
    w = np.linalg.eigvalsh(g)
    slack = 1e-14 * np.mean(abs(s))
    if w.min() > 1e-12 * w.max():
      slack += 1e-13 / w.min() * np.linalg.norm(want * size) / size[0]
    ctx.close(s.mean(), want[0], "the mean score over the fitting data is not the "
              "exposure coefficient of the ridge regression", rtol=1e-6,
              atol=1e-6 + slack,
              features=d, units=n, penalty=l, continuous_exposure=bool(i % 2))
    ctx.count("regressions checked")
    ctx.saw("regression", d, l, n)
    ctx.sample("regression", features=d, units=n, penalty=l, coefficient=want[0])

  ctx.cases("regression", ctx.pick(2500, 50000), regression)

  def two(rng, i):
    d, n = upto(rng, 1, 5, 20), upto(rng, 11, 79, 900)
    if i % 250 == 9:
      n = int(rng.integers(900, 40000))
    elif i % 250 == 19:
      d, n = int(rng.integers(21, 120)), int(rng.integers(200, 700))
    est = P.LinearParameterBinaryTreatment(d)
    data = generic(rng, n, d)
    if i % 3 == 0:
      est.fit(generic(rng, 30, d) if rng.integers(2) else sibling(rng, data))
      if rng.integers(2):
        est.reset()
    if i % 5 == 0:  # a single treated or a single control unit
      v = int(rng.integers(2))
      keep = (data.exp != v)
      keep[np.flatnonzero(data.exp == v)[0]] = True
      data = data[keep]
    data = unusual(rng, data)
    est.fit(data)
    ct, it = ridge(data.cov[data.exp == 1], data.rsp[data.exp == 1], 1, True)
    cc, ic = ridge(data.cov[data.exp == 0], data.rsp[data.exp == 0], 1, True)
    for new in (data, generic(rng, 15, d)):
      want = new.cov.dot(ct) + it - new.cov.dot(cc) - ic
      ctx.close(scorer(ctx, est, "two regressions")(new), want, "a score is not the "
                "difference of the ridge fits on treated and on control units",
                rtol=1e-6, atol=1e-6, features=d, treated=int(np.sum(data.exp)),
                units=len(data), in_sample=new is data)
    ctx.count("pairs of regressions checked")
    ctx.saw("two", d, len(data))

  ctx.cases("two regressions", ctx.pick(1500, 30000), two)
  ctx.require(**{"regressions checked": 500, "pairs of regressions checked": 300})


# --- C29 ----------------------------------------------------------------------
def estimators(rng, d, min_units, light=False):
  """(name, constructor, minimum per group or None, discrete covariates)"""
  out = [
      ("two regressions", lambda: P.LinearParameterBinaryTreatment(d), 1, False),
      ("AIPW linear", lambda: P.AIPWLinearLogistic(
          d, min_units=min_units, min_overlap=.1), min_units, False),
      ("AIPW kernel", lambda: P.AIPWKernelRidgeLogistic(
          d, min_units=min_units, min_overlap=.1), min_units, False),
      ("AIPW own models", lambda: P.AIPW(
          d, linear_model.LinearRegression(),
          linear_model.LogisticRegression(C=2.0), min_units=min_units),
       min_units, False),
      ("front-door", lambda: P.FrontDoorLinearFiniteZ(
          d, min_units=min_units, min_overlap=.1), min_units, True),
      ("regression", lambda: P.LinearRegressionParameter(d), None, False),
  ]
  if not light:
    out.append(("AIPW boosting", lambda: P.AIPWKernelGradientBoosting(
        d, min_units=min_units, min_overlap=.1), min_units, False))
  del rng
  return out


def grouped(rng, treated, control, d, discrete):
  """Data with exactly so many treated and control units."""
  n = treated + control
  exp = np.r_[np.ones(treated, dtype=int), np.zeros(control, dtype=int)]
  exp = exp[rng.permutation(n)]
  if discrete:
    cov = rng.integers(0, 3, (n, d)).astype(float)
  else:
    cov = rng.standard_normal((n, d))
  rsp = cov.sum(axis=1) + exp + rng.standard_normal(n)
  return D.ExpData(cov, exp, rsp)


DTYPES = (np.int64, np.int32, np.int8, np.uint8, np.bool_, np.float32,
          np.float64)


def c29(ctx):
  ctx.rule = (
      "all estimator classes around their minimal group sizes, in fit / reset / "
      "too small / refit sequences, with seven exposure types, permuted and "
      "subset scoring data; distinct: (estimator, minimum, treated, control)")

  def ready(rng, i):
    d, mu = upto(rng, 1, 3, 12), upto(rng, 1, 6, 40)
    es = estimators(rng, d, mu)
    name, make, least, disc = es[i % len(es)]
    est = make()
    probe = grouped(rng, 4, 5, d, disc)
    info = dict(estimator=name, features=d, minimum=least)

    def unready(when):
      ctx.ok(not est.has_enough_samples(), f"{when} an estimator reports enough "
             "samples", **info)
      if least is not None:
        s = scorer(ctx, est, name)(probe)
        ctx.ok(np.shape(s) == (len(probe),) and np.all(np.isnan(s)),
               f"{when} scores are not NaN", scores=s[:4], **info)
      ctx.count("not ready")

    unready("when new")
    for r in range(2):
      if least is None:
        est.fit(grouped(rng, int(rng.integers(1, 5)), int(rng.integers(0, 5)), d,
                        disc))
      else:
        for _ in range(int(rng.integers(1, 4))):
          few = int(rng.integers(0, least))
          many = int(rng.integers(0, 3 * least + 3))
          t, c = (few, many) if rng.integers(2) else (many, few)
          if t + c == 0:
            continue
          bad = grouped(rng, t, c, d, disc)
          b = copy_data(bad)
          est.fit(bad)
          ctx.ok(same_data(bad, b), "fitting modified the data", **info)
          unready(f"after fitting {t} treated and {c} control units")
          ctx.saw(name, least, t, c)
        t = least + int(rng.choice([0, 0, 1, 20]))
        c = least + int(rng.choice([0, 0, 1, 20]))
        if i % 9 == 0 and name != "AIPW boosting":
          t += int(rng.choice([128, 256, 300]))  # beyond small integer types
        good = grouped(rng, t, c, d, disc)
        dt = DTYPES[int(rng.integers(len(DTYPES)))]
        good = D.ExpData(good.cov, good.exp.astype(dt), good.rsp)
        b = copy_data(good)
        est.fit(good)
        ctx.ok(same_data(good, b), "fitting modified the data", **info)
        ctx.saw(name, least, t, c)
        info["group_sizes"] = (t, c)
        info["exposure_type"] = dt.__name__
      ctx.ok(est.has_enough_samples(), "an estimator fitted to enough treated and "
             "control units does not report enough samples", **info)
      s = scorer(ctx, est, name)(probe)
      ctx.ok(np.shape(s) == (len(probe),) and np.all(np.isfinite(s)),
             "scores after fitting enough data are not finite", scores=s[:4],
             **info)
      ctx.count("ready")
      # wrong number of features
      for e in (d + 1, d + 2, d - 1):
        if e < 1 or least is None:  # the regression has no check of its own
          continue
        wrong = grouped(rng, 8, 8, e, disc)
        ctx.raises(ValueError, lambda: est.fit(wrong), "fitting data with another "
                   "number of features is accepted", given=e, **info)
        ctx.raises(ValueError, lambda: est.calculate_score(wrong),
                   "scoring data with another number of features is accepted",
                   given=e, **info)
      ctx.close(est.calculate_score(probe), s, "a refused fit changed the scores",
                **info)
      est.reset()
      unready("after a reset")
    ctx.sample("readiness", **info)

  ctx.cases("readiness", ctx.pick(700, 12000), ready)

  def per_unit(rng, i):
    d = int(rng.integers(1, 4))
    es = estimators(rng, d, 2)
    name, make, least, disc = es[i % len(es)]
    data = grouped(rng, upto(rng, 3, 39, 300), upto(rng, 3, 39, 300), d, disc)
    est = make()
    est.fit(data)
    size = 12 if rng.integers(4) else 1500
    new = grouped(rng, int(rng.integers(1, size)), int(rng.integers(1, size)), d,
                  disc)
    info = dict(estimator=name, features=d, scored=len(new))
    score = scorer(ctx, est, name)
    s = score(new)
    o = rng.permutation(len(new))
    tol = dict(rtol=1e-8, atol=1e-8)
    ctx.close(score(new[o]), s[o], "scores depend on the order of the units",
              **tol, **info)
    part = o[:int(rng.integers(1, len(o) + 1))]
    ctx.close(score(new[part]), s[part], "a unit's score depends on the other units "
              "scored", **tol, **info)
    one = int(o[0])
    ctx.close(score(new[[one]]), s[[one]], "a unit scored alone gets another score",
              **tol, **info)
    # one temporary set after another, all of the same size
    for size in (1, 2, int(rng.integers(1, len(new) + 1))):
      for _ in range(6):
        some = o[rng.permutation(len(o))[:size]]
        ctx.close(est.calculate_score(new[some]), s[some], "the scores of units "
                  "depend on what was scored before", size=size, **tol, **info)
        ctx.count("temporary sets")
    twice = D.ExpData(np.r_[new.cov, new.cov], np.r_[new.exp, new.exp],
                      np.r_[new.rsp, new.rsp])
    ctx.close(score(twice), np.r_[s, s], "repeated units change the scores", **tol,
              **info)
    base = make()
    base.fit(D.ExpData(data.cov, data.exp.astype(float), data.rsp))
    want = base.calculate_score(
        D.ExpData(new.cov, new.exp.astype(float), new.rsp))
    ft = dict(rtol=1e-6, atol=1e-6)
    for dt in DTYPES:
      e = make()
      e.fit(D.ExpData(data.cov, data.exp.astype(dt), data.rsp))
      got = scorer(ctx, e, name)(D.ExpData(new.cov, new.exp.astype(dt), new.rsp))
      ctx.close(got, want, "scores depend on the exposure's numeric type",
                type=dt.__name__, **ft, **info)
      ctx.count("exposure types")
    ctx.count("scored sets")
    ctx.saw(name, "unit", len(new), len(data))

  ctx.cases("per unit", ctx.pick(280, 5000), per_unit)

  def large(rng, i):
    d = int(rng.integers(1, 4))
    es = estimators(rng, d, 5)
    name, make, _, disc = es[i % len(es)]
    few = "kernel" in name or "boosting" in name  # kernel matrices of fitted data
    half = 20 if few else 25000
    data = grouped(rng, half, half + int(rng.integers(20)), d, disc)
    n = int(rng.integers(40000, 60000))
    new = grouped(rng, n // 2, n - n // 2, d, disc)
    info = dict(estimator=name, features=d, fitted=len(data), scored=n)
    est = make()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
      used = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (used + 4 * 2**30, hard))
    try:
      est.fit(data)
      s = est.calculate_score(new)
    except MemoryError:
      s = None
    finally:
      resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    ctx.ok(s is not None, "fitting and scoring need more than 4 GB", **info)
    ctx.ok(np.shape(s) == (n,) and bool(np.all(np.isfinite(s))),
           "not a finite score per unit of a large data set", **info)
    at = rng.integers(0, n, 300)
    at[:2] = 0, n - 1
    ctx.close(est.calculate_score(new[at]), s[at], "a unit's score depends on how "
              "many other units are scored", rtol=1e-8, atol=1e-8, **info)
    ctx.count("large sets scored")
    ctx.saw(name, "large", n)

  ctx.cases("large", ctx.pick(14, 70), large)
  ctx.require(**{"large sets scored": 14, "not ready": 500, "ready": 500, "scored sets": 150, "temporary sets": 2000,
                 "exposure types": 700})


# --- C30 ----------------------------------------------------------------------
def width_reference(v, d, n, delta, s, rho, lo, front):
  a = delta / 3 if front else delta
  sign, ld = np.linalg.slogdet(s * v + rho * np.eye(d))
  del sign
  r2 = s * ld - s * (d * math.log(rho) + 2 * math.log(a))
  lam = np.linalg.eigvalsh(v)
  m = lam**2 / (lam + rho / s)
  lmin = m.min()
  if lmin <= 0:
    return math.inf, lam, math.inf
  rounding = 2e-15 * m.max() / lmin  # relative, of the smallest eigenvalue
  base = math.sqrt(r2 / lmin)
  if not front:
    return base * (1 / lo - 1), lam, rounding
  e = delta / 9
  b = math.sqrt((.25 + rho / n) / n * math.log((n / 4 + rho) / (e**2 * rho)))
  return base * (2 / lo - 1) + b * (1 / lo - 1), lam, rounding


def c30(ctx):
  ctx.rule = (
      "AIPW and front-door estimators fitted to 10-20000 units of 1-6 (a few times "
      "30-150) features, among them rank-deficient, constant, near-collinear and "
      "badly scaled designs (columns up to 10^6 apart); several delta, sub-Gaussian scales and mixture "
      "parameters; replicated data; distinct: (estimator, features, units, delta)")

  def design(rng, kind, n, d, front):
    if front:
      cov = rng.integers(0, 3, (n, d)).astype(float)
    else:
      cov = rng.standard_normal((n, d))
    if kind == "constant":
      cov[:, 0] = float(rng.choice([0, 1, 5]))
    elif kind == "duplicate" and d > 1:
      cov[:, -1] = cov[:, 0]
    elif kind == "combination" and d > 2:
      cov[:, -1] = cov[:, 0] - 2 * cov[:, 1]
    elif kind == "near":
      cov[:, -1] = cov[:, 0] + 1e-7 * rng.standard_normal(n)
    elif kind == "zero":
      cov[:] = 0
    elif kind == "scales":
      cov = cov * 10**rng.uniform(-2, 2, d)
    elif kind == "large":
      cov = cov * 1e4 + 1e4
    elif kind == "few" and not front:
      n = min(n, d + 1)
      cov = cov[:n]
    n = len(cov)
    exp = (rng.uniform(size=n) < rng.choice([.2, .5])).astype(int)
    exp[:2] = 1, 0
    if kind == "exposure" and front:
      cov[:, 0] = exp
    return D.ExpData(cov, exp, cov.sum(axis=1) + rng.standard_normal(n))

  KINDS = ("generic", "generic", "constant", "duplicate", "combination", "near",
           "zero", "large", "few", "exposure", "scales")

  def make(rng, d, front, lo):
    if front:
      return P.FrontDoorLinearFiniteZ(d, min_units=1, min_overlap=lo)
    c = (P.AIPWLinearLogistic, P.AIPWKernelRidgeLogistic)[int(rng.integers(2))]
    return c(d, min_units=1, min_overlap=lo)

  def case(rng, i):
    front = bool(i % 2)
    kind = KINDS[int(rng.integers(len(KINDS)))]
    d = upto(rng, 1, 6, 30, .04)
    n = int(rng.choice([10, 30, 100, 300]))
    if rng.uniform() < .02:
      n = int(rng.integers(1000, 20000))
    lo = float(rng.choice([.01, .05, .25, .4, .45, .49]))
    est = make(rng, d, front, lo)
    data = design(rng, kind, n, d, front)
    if rng.uniform() < .4:
      est.fit([lambda: design(rng, "generic", 50, d, front),
               lambda: design(rng, "generic", len(data), d, front),
               lambda: sibling(rng, data)][int(rng.integers(3))]())
      est.calculate_cs_width(.1, 1.0, 1.0)
    est.fit(data)
    s = float(rng.choice([.3, 1, 2.5, 10]))
    rho = float(rng.choice([.05, .5, 1, 3]))
    x = np.c_[data.exp, data.cov] if front else data.cov
    v = x.T.astype(float).dot(x)
    last = None
    for delta in (.9, .5, .1, .05, .01, 1e-3, 1e-6, 1e-12):
      w = est.calculate_cs_width(delta, s, rho)
      info = dict(estimator=type(est).__name__, kind=kind, features=d,
                  units=len(data), delta=delta, sub_g=s, rho=rho, min_overlap=lo)
      ctx.ok(np.ndim(w) == 0 and not isinstance(w, complex) and
             not np.iscomplexobj(w) and not np.isnan(w) and w >= 0,
             "the width is not a nonnegative real number", width=repr(w), **info)
      if last is not None:
        ctx.ok(w >= last * (1 - 1e-12), "the width decreases when delta decreases",
               width=w, at_larger_delta=last, **info)
      last = w
      want, lam, rounding = width_reference(v, x.shape[1], len(data), delta, s,
                                            rho, lo, front)
      if lam.min() > 1e-9 * lam.max() and rounding < .1:
        ctx.close(w, want, "the width is not the documented formula",
                  rtol=1e-5 + rounding, atol=1e-9, **info)
        ctx.count("widths checked")
        ctx.count("front-door widths", front)
      else:
        ctx.count("singular designs")
      ctx.saw(front, d, len(data), delta)
    ctx.sample(kind, width=last, **info)

  ctx.cases("formula", ctx.pick(700, 15000), case)

  def replicated(rng, i):
    front = bool(i % 2)
    d = int(rng.integers(1, 5))
    lo = float(rng.choice([.05, .25]))
    delta = float(rng.choice([.1, .01]))
    base = design(rng, "generic", 40, d, front)
    s, rho = float(rng.choice([.5, 1, 4])), float(rng.choice([.1, 1]))
    ws, ks = [], (1, 10, 100, 1000)
    for k in ks:
      data = D.ExpData(np.tile(base.cov, (k, 1)), np.tile(base.exp, k),
                       np.tile(base.rsp, k))
      if front:
        est = P.FrontDoorLinearFiniteZ(d, min_units=1, min_overlap=lo)
      else:
        est = P.AIPW(d, linear_model.LinearRegression(),
                     linear_model.LogisticRegression(), min_units=1,
                     min_overlap=lo)
      est.fit(data)
      ws.append(est.calculate_cs_width(delta, s, rho))
    info = dict(front_door=front, features=d, widths=ws, replications=ks)
    ctx.ok(ws[2] < ws[1] * .55 and ws[3] < ws[2] * .55, "the width does not shrink "
           "like the square root of the number of replications", **info)
    ctx.ok(ws[3] >= ws[2] / math.sqrt(10) * .99, "the width shrinks faster than "
           "any valid one", **info)
    ctx.count("replications")

  ctx.cases("replicated", ctx.pick(30, 300), replicated)

  def wide(rng, i):
    # many features: the determinants are not representable as numbers
    d, n = (120, 150)[i % 2], 4000
    rho, s = (1.0, 1e-3)[i // 2 % 2], float(rng.choice([.5, 1, 4]))
    lo, delta = .25, .05
    front = i >= 4 and bool(i % 3)
    if i >= 4:
      d = int(rng.integers(7, 110))
    cov = rng.standard_normal((n, d))
    if front:
      cov = cov[rng.integers(0, 2 * d + 3, n)]
    data = D.ExpData(cov, (rng.uniform(size=n) < .5).astype(int), cov[:, 0])
    est = P.FrontDoorLinearFiniteZ(d, min_units=5, min_overlap=lo) if front else (
        P.AIPW(d, linear_model.Ridge(), linear_model.LogisticRegression(),
               min_units=5, min_overlap=lo))
    est.fit(data)
    x = np.c_[data.exp, cov] if front else cov
    want, _, _ = width_reference(x.T.dot(x), d + front, n, delta, s, rho, lo, front)
    w = est.calculate_cs_width(delta, s, rho)
    ctx.close(w, want, "the width for many features is not the documented one",
              rtol=1e-5, features=d, units=n, front_door=front)
    ctx.count("wide designs")

  ctx.cases("wide", ctx.pick(16, 160), wide)
  ctx.require(**{"widths checked": 1000, "front-door widths": 300,
                 "singular designs": 200, "replications": 20, "wide designs": 3})


# --- C31 ----------------------------------------------------------------------
def c31(ctx):
  ctx.rule = (
      "AIPW estimators with three linear response models and the two-regression "
      "estimator, new, fitted and reset, set to the truth of random linear "
      "generators; true nuisance values are recovered from the scores of crafted "
      "responses; distinct: (estimator, state, features, overlap bound)")

  def generator(rng, d):
    kw = {}
    if rng.uniform() < .8:
      kw["gamma"] = rng.standard_normal(d) * float(rng.choice([.3, 1, 4]))
    beta, tau = rng.standard_normal(d) * 2, float(rng.standard_normal() * 3)
    if rng.uniform() < .25:  # integers
      beta = rng.integers(-3, 4, d)
    if rng.uniform() < .15:
      tau = int(rng.integers(-3, 4))
    if "gamma" in kw and rng.uniform() < .15:
      kw["gamma"] = rng.integers(-2, 3, d)
    if rng.uniform() < .1:
      tau = 0
    g = D.LinearDataGenerator("lin", d, beta, tau, **kw)
    true = (np.array(beta), np.array(kw.get("gamma", np.zeros(d))), tau)
    for want, got in zip(true, (g.beta, g.gamma, g.tau)):
      ctx.ok(np.array_equal(want, got), "the generator reports other parameters "
             "than those it was made with", want=want, got=got, features=d)
    return g

  def recover(est, z, exp):
    """e(z), 1-e(z) and (1-e(z)) mu(1,z) + e(z) mu(0,z) from the scores.

    This is all that the scores tell about the models at z.
    """
    n = len(z)
    sc = lambda x, y: np.asarray(est.calculate_score(D.ExpData(
        z, np.full(n, x, dtype=exp), np.full(n, float(y)))))
    a0, a1 = sc(1, 0), sc(1, 1)
    b0, b1 = sc(0, 0), sc(0, 1)
    ie, ic = a1 - a0, b0 - b1  # 1/e and 1/(1-e)
    return -a0 / ie, b0 / ic, 1 / ie, 1 / ic

  def case(rng, i):
    d = upto(rng, 1, 4, 20 if rng.uniform() < .7 else 120)
    lo = float(rng.choice([.01, .05, .2]))
    kinds = [
        ("linear logistic", lambda: P.AIPWLinearLogistic(
            d, min_units=2, min_overlap=lo)),
        ("ridge with intercept", lambda: P.AIPW(
            d, linear_model.Ridge(alpha=.3), linear_model.LogisticRegression(),
            min_units=2, min_overlap=lo)),
        ("least squares", lambda: P.AIPW(
            d, linear_model.LinearRegression(),
            linear_model.LogisticRegression(C=5.0), min_units=2,
            min_overlap=lo)),
    ]
    name, make = kinds[i % 3]
    est = make()
    state = ("new", "fitted", "reset", "other truth", "after a refused generator")[
        int(rng.integers(5))]
    info = dict(estimator=name, state=state, features=d, min_overlap=lo)
    if state in ("fitted", "reset", "after a refused generator"):
      old = generic(rng, 40, d)
      est.fit(old)
      est.calculate_score(old)
    if state == "reset":
      est.reset()
    if state == "other truth":
      est.set_to_truth(generator(rng, d))
    if state == "after a refused generator":
      ctx.raises(ValueError, lambda: est.set_to_truth(X.back_door_scm()[0]),
                 "a generator that is not linear is accepted", **info)
    g = generator(rng, d)
    beta, gamma, tau = np.array(g.beta), np.array(g.gamma), g.tau
    est.set_to_truth(g)
    ctx.ok(est.has_enough_samples(), "not ready after set_to_truth", **info)
    z = rng.standard_normal((12, d)) * 1.5
    k1, k0, e, ec = recover(est, z, (int, float)[int(rng.integers(2))])
    p = np.clip(1 / (1 + np.exp(-z.dot(gamma))), lo, 1 - lo)
    t = dict(rtol=1e-6, atol=1e-6)
    ctx.close(e, p, "the propensity is not the generator's", gamma=gamma, **t, **info)
    ctx.close(ec, 1 - p, "the propensity of controls is not the generator's", **t,
              **info)
    want = z.dot(beta) + (1 - p) * tau
    for k in (k1, k0):
      ctx.close(k, want, "the responses are not the generator's", beta=beta,
                tau=tau, **t, **info)
    for x in (0, 1):
      want = z.dot(beta) + tau * x
      c = np.full(len(z), float(x))
      preds = [est.response.predict(q) for q in (np.c_[c, z], np.c_[z, c])]
      ctx.ok(any(np.shape(q) == want.shape and
                 np.allclose(q, want, rtol=1e-6, atol=1e-6) for q in preds),
             "the predicted responses are not beta . z + tau x", x=x,
             got=preds[0], want=want, beta=beta, tau=tau, **info)
    linear = name == "linear logistic"
    if linear:
      coefs, intercept = est.get_response_parameters()
      coefs = np.ravel(coefs)
      ctx.ok(any(coefs.shape == w.shape and np.allclose(coefs, w) for w in
                 (np.r_[tau, beta], np.r_[beta, tau])) and
             np.allclose(intercept, 0), "the response parameters are not those of "
             "the generator", got=(coefs, intercept), tau=tau, beta=beta, **info)
    ctx.count("clipped propensities", np.sum((p == lo) | (p == 1 - lo)))
    ctx.count("truths recovered", len(z))
    # using the estimator afterwards does not alter the generator
    new = generic(rng, 60, d)
    est.fit(new)
    ctx.ok(np.array_equal(g.beta, beta) and np.array_equal(g.gamma, gamma) and
           g.tau == tau, "fitting the estimator changed the generator", **info)
    ref = make()
    ref.fit(new)
    if linear:
      coefs, intercept = est.get_response_parameters()
      q = np.c_[new.exp, new.cov]
      ctx.close(q.dot(np.ravel(coefs)) + intercept, est.response.predict(q),
                "the response parameters are not those of the fitted response",
                **t, **info)
      ctx.count("response parameters compared")
    if d <= 20:  # beyond, the iterations of the logistic fit may not converge
      got, want = est.calculate_score(new), ref.calculate_score(new)
      # the median, as scores multiply the tolerance of the logistic fit
      ctx.ok(np.median(abs(got - want)) <= .005 * (1 + np.median(abs(want))),
             "after set_to_truth, fitting does not give the fit to the data",
             got=got[:5], want=want[:5], **info)
    ctx.saw(name, state, d, lo)
    ctx.sample("truth", beta=beta, gamma=gamma, tau=tau, **info)

  ctx.cases("AIPW", ctx.pick(900, 15000), case)

  def two(rng, i):
    d = upto(rng, 1, 4, 120)
    est = P.LinearParameterBinaryTreatment(d)
    state = ("new", "fitted", "reset")[i % 3]
    if state != "new":
      est.fit(generic(rng, 40, d))
    if state == "reset":
      est.reset()
    g = generator(rng, d)
    est.set_to_truth(g)
    info = dict(estimator="two regressions", state=state, features=d)
    ctx.ok(est.has_enough_samples(), "not ready after set_to_truth", **info)
    new = generic(rng, 15, d)
    ctx.close(scorer(ctx, est, "two")(new), np.full(len(new), g.tau),
              "the difference of the responses is not tau", **info)
    ctx.close(est.treat_response.predict(new.cov), new.cov.dot(g.beta) + g.tau,
              "the response of treated units is not the generator's", **info)
    ctx.close(est.cont_response.predict(new.cov), new.cov.dot(g.beta),
              "the response of controls is not the generator's", **info)
    ctx.count("two-regression truths")
    ctx.saw("two", state, d)

  ctx.cases("two regressions", ctx.pick(300, 3000), two)

  def refuse(rng, i):
    d = int(rng.integers(1, 4))
    est = (P.AIPWLinearLogistic, P.AIPWKernelRidgeLogistic)[i % 2](d)
    gens = [X.back_door_scm()[0], X.frontdoor_scm()[0], D.DataGenerator("x")]
    fitted = rng.integers(2)
    new = generic(rng, 30, d)
    before = None
    if fitted:
      est.fit(new)
      before = est.calculate_score(new)
    for g in gens:
      ctx.raises(ValueError, lambda: est.set_to_truth(g), "a generator that is not "
                 "linear is accepted", generator=type(g).__name__)
      ctx.ok(est.has_enough_samples() == bool(fitted), "a refused generator changed "
             "the readiness", generator=type(g).__name__)
    if fitted:
      ctx.close(est.calculate_score(new), before, "a refused generator changed the "
                "scores")
    ctx.count("refused generators", len(gens))

  ctx.cases("refused", ctx.pick(60, 600), refuse)

  def unbiased(rng, i):
    d = int(rng.integers(1, 4))
    g = D.LinearDataGenerator("lin", d, rng.standard_normal(d), 2.0,
                              gamma=rng.standard_normal(d) * .5)
    est = P.AIPWLinearLogistic(d, min_overlap=.05)
    est.set_to_truth(g)
    x = g.generate(20000)
    s = est.calculate_score(x)
    ctx.ok(abs(s.mean() - 2) < 6 * s.std() / math.sqrt(len(x)),
           "the mean score under the truth is not the effect", mean=s.mean())
    ctx.count("unbiased")
    del i

  ctx.cases("unbiased", 4, unbiased)
  ctx.require(**{"truths recovered": 3000, "clipped propensities": 100,
                 "two-regression truths": 100, "refused generators": 60})


_ = (spies, SCM)
