"""Monitors of C21-C23 and C25: structural causal models and their parts."""
import itertools
import math

import numpy as np
import scipy.stats as st

from harness import boot, independence

D, SCM, X = boot.data, boot.scm, boot.example_scm


def snapshot(m, cpds, parents):
  return (list(m.var_names), list(m.cov_variables), str(m.treatment_variable),
          str(m.response_variable), {k: list(v) for k, v in m.parents.items()},
          dict(m.cpds), dict(cpds), {k: list(v) for k, v in parents.items()})


def random_names(rng, n):
  names = []
  while len(names) < n:
    s = "".join(rng.choice(list("ABUVXYZ019_"), int(rng.integers(1, 4))))
    if s not in names:
      names.append(s)
  if rng.uniform() < .15:  # long names that start alike
    stem = "".join(rng.choice(list("abcxyz _-"), int(rng.integers(5, 300))))
    names = [stem + s for s in names]
  return names


def random_dag(rng, nv=None):
  """Variables in a topological order with random, randomly ordered parents."""
  nv = nv or int(rng.integers(2, 9) if rng.uniform() < .95 else
                 rng.integers(9, 31 if rng.uniform() < .8 else 80))
  names = random_names(rng, nv)
  dens = rng.choice([.2, .5, .9]) if nv <= 30 else 4 / nv
  parents = {}
  for i, v in enumerate(names):
    ps = [names[j] for j in range(i) if rng.uniform() < dens]
    parents[v] = [ps[j] for j in rng.permutation(len(ps))]
    if ps and rng.uniform() < .03:  # or that a parent is
      parents[v].append(ps[int(rng.integers(len(ps)))])
  dims = {v: int(rng.choice([0, 0, 1, 2, 3])) for v in names}
  if rng.uniform() < .1:
    dims[names[int(rng.integers(nv))]] = int(rng.integers(4, 12))
  x, y = (names[int(j)] for j in rng.choice(nv, 2, replace=False))
  dims[x] = dims[y] = 0
  m = int(rng.integers(1, nv + 1))
  cov = [names[int(j)] for j in rng.permutation(nv)[:m]]
  if rng.uniform() < .1:  # nothing says that a covariate is listed once
    cov.insert(int(rng.integers(m + 1)), cov[int(rng.integers(m))])
  return names, parents, dims, x, y, cov


# --- C21 ----------------------------------------------------------------------
def c21(ctx):
  ctx.rule = (
      "random DAGs of 2-8 named variables (some up to 30) of dimension 1-3 (some up "
      "to 11) whose mechanisms are recording spies that draw tagged samples of "
      "integers or floats; several generations of 1-20 units (some up to 50000) from "
      "each, and specifications made inconsistent; distinct: (parents "
      "structure, covariate order)")

  def case(rng, i):
    del i
    names, parents, dims, x, y, cov = random_dag(rng)
    calls = []
    tag = [0]
    types = {v: rng.choice([np.float64, np.float64, np.int64, np.int32])
             for v in names}

    def make(v):
      def f(n, ps):
        d = dims[v]
        s = np.arange(n * max(d, 1), dtype=float) + tag[0]
        tag[0] += n * max(d, 1)
        s = rng.permutation(s)
        s = s if d == 0 else s.reshape(n, d)
        if v == x and rng.uniform() < .5:
          s = np.floor(s) % 2
        elif types[v] == np.float64:
          s = s + .25 * (tag[0] % 4)  # not integers in disguise
        s = s.astype(types[v])
        calls.append((v, n, [np.array(p) for p in ps], np.array(s)))
        return s
      return f

    cpds = {v: make(v) for v in rng.permutation(names)}
    par = {v: list(parents[v]) for v in rng.permutation(names)}
    m = SCM.SCM("random", list(names), par, cpds, list(cov), x, y)
    before = snapshot(m, cpds, par)
    for g in range(3):
      n = int(rng.integers(1, 21) if rng.uniform() < .95 else
              rng.integers(21, 600))
      if len(names) < 9 and rng.uniform() < .004:
        n = int(rng.integers(2000, 50001))
        ctx.count("large generations")
      calls.clear()
      d = m.generate(n)
      got = list(calls)
      info = dict(variables=names, parents=parents, covariates=cov, exposure=x,
                  response=y, n=n, generation=g)
      ctx.ok(sorted(c[0] for c in got) == sorted(names),
             "not every mechanism is evaluated exactly once",
             evaluated=[c[0] for c in got], **info)
      drawn = {}
      for v, cn, ps, s in got:
        ctx.ok(cn == n, "a mechanism is asked for another number of samples",
               variable=v, asked=cn, **info)
        ctx.ok(len(ps) == len(parents[v]) and all(p in drawn for p in parents[v]),
               "a mechanism does not get all its parents", variable=v,
               count=len(ps), **info)
        for p, a in zip(parents[v], ps):
          ctx.ok(np.array_equal(a, drawn[p]), "a mechanism does not get the "
                 "just-drawn samples of its parents in declared order",
                 variable=v, parent=p, got=a[:3], expected=drawn[p][:3], **info)
          ctx.count("parent samples checked")
        drawn[v] = s
      want = np.column_stack([drawn[v] for v in cov])
      ctx.ok(np.shape(d.cov) == want.shape and np.array_equal(d.cov, want),
             "the covariates are not the columns of the covariate variables in "
             "declared order", got=d.cov[:2], expected=want[:2], **info)
      ctx.ok(np.array_equal(d.exp, drawn[x]), "the exposure is not the drawn one",
             got=d.exp[:3], expected=drawn[x][:3], **info)
      ctx.ok(np.array_equal(d.rsp, drawn[y]), "the response is not the drawn one",
             got=d.rsp[:3], expected=drawn[y][:3], **info)
      ctx.ok(len(d) == n and d.n_features == want.shape[1],
             "wrong number of units or features", units=len(d),
             features=d.n_features, **info)
      ctx.ok(snapshot(m, cpds, par) == before,
             "generating changed the model", **info)
      ctx.count("generations checked")
    ctx.saw(tuple((len(parents[v]), dims[v]) for v in names), tuple(
        names.index(v) for v in cov))
    ctx.sample("model", **info)

  ctx.cases("ancestral", ctx.pick(3000, 60000), case)

  def shared(rng, i):
    # several variables may have the same (or equal) mechanism objects
    del i
    roots = [f"R{j}" for j in range(int(rng.integers(2, 5)))]
    kids = [f"K{j}" for j in range(int(rng.integers(2, 5)))]
    top = [int(v) for v in rng.permutation(len(roots))[:int(rng.integers(1, 3))]]
    calls = []
    tag = [0]

    class Mechanism:
      """Equal to any other one, as two functools.partial of a call may be."""

      def __call__(self, n, ps):
        s = np.arange(n, dtype=float) + tag[0]
        tag[0] += n
        calls.append(([np.array(p) for p in ps], np.array(s)))
        return s

      def __eq__(self, other):
        return isinstance(other, Mechanism)

      def __hash__(self):
        return 1

    one, equal = Mechanism(), bool(rng.integers(2))
    names = roots + kids + ["X", "Y"]
    parents = {v: [] for v in roots}
    parents.update({v: [roots[j] for j in top] for v in kids + ["X", "Y"]})
    cpds = {v: Mechanism() if equal else one for v in names}
    cov = [str(v) for v in rng.permutation(roots + kids)]
    m = SCM.SCM("shared", names, parents, cpds, cov, "X", "Y")
    n = int(rng.integers(1, 6))
    info = dict(variables=names, equal_mechanisms=equal, n=n)
    for _ in range(2):
      del calls[:]
      d = m.generate(n)
      ctx.ok(len(calls) == len(names), "not every mechanism is evaluated exactly "
             "once", evaluations=len(calls), **info)
      cols = {v: tuple(d.cov[:, j]) for j, v in enumerate(cov)}
      cols.update(X=tuple(d.exp), Y=tuple(d.rsp))
      drawn = {tuple(s): [tuple(p) for p in ps] for ps, s in calls}
      ctx.ok(len(set(cols.values())) == len(names) and set(cols.values()) ==
             set(drawn), "variables with the same mechanism share a sample", **info)
      for v in names:
        ctx.ok(drawn[cols[v]] == [cols[p] for p in parents[v]], "a mechanism does "
               "not get the samples of its parents", variable=v, **info)
    ctx.count("models with shared mechanisms")
    ctx.saw("shared", len(roots), len(kids), tuple(top), equal)

  ctx.cases("shared mechanisms", ctx.pick(300, 5000), shared)

  def bad(rng, i):
    nv = int(rng.integers(3, 8))
    names, parents, _, x, y, cov = random_dag(rng, nv)
    last = names[-1]
    if not parents[last]:
      parents[last] = [names[0]]
    cpds = {v: (lambda n, ps: np.arange(n, dtype=float)) for v in names}
    spec = dict(name="bad", var_names=list(names), parents=parents, cpds=cpds,
                cov_variables=cov, treatment_variable=x, response_variable=y)
    ok = SCM.SCM(**spec)
    ok.generate(3)
    kind = ("no parents entry", "no cpd", "unknown treatment",
            "unknown response", "unknown covariate", "wrong order",
            "unknown parent")[i % 7]
    who = names[int(rng.integers(nv))]
    if kind == "no parents entry":
      spec["parents"] = {k: v for k, v in parents.items() if k != who}
    elif kind == "no cpd":
      spec["cpds"] = {k: v for k, v in cpds.items() if k != who}
    elif kind == "unknown treatment":
      spec["treatment_variable"] = "nowhere"
    elif kind == "unknown response":
      spec["response_variable"] = "nowhere"
    elif kind == "unknown covariate":
      spec["cov_variables"] = list(cov) + ["nowhere"]
    elif kind == "wrong order":
      child = [v for v in names if parents[v]][
          int(rng.integers(sum(bool(parents[v]) for v in names)))]
      order = [v for v in names if v != child]
      p = min(order.index(q) for q in parents[child])
      order.insert(int(rng.integers(0, p + 1)), child)
      spec["var_names"] = order
    else:
      spec["parents"] = dict(parents)
      spec["parents"][who] = list(parents[who]) + ["nowhere"]

    ctx.raises(ValueError, lambda: SCM.SCM(**spec).generate(3),
               f"a model with {kind} is accepted", variable=who,
               variables=spec["var_names"], parents=spec["parents"])
    ctx.count("inconsistent models refused")

  ctx.cases("inconsistent", ctx.pick(350, 7000), bad)
  ctx.require(**{"generations checked": 2000, "parent samples checked": 2000,
                 "inconsistent models refused": 100,
                 "models with shared mechanisms": 200})


# --- C22 ----------------------------------------------------------------------
class Boom(Exception):
  pass


def c22(ctx):
  ctx.rule = (
      "random DAGs with deterministic unit-wise nonlinear mechanisms (so that the "
      "contrast is exactly known) and a forbidden treatment mechanism; mechanisms "
      "that raise at any point of the computation; distinct: (structure, "
      "treatment, response)")

  def build(rng):
    names, parents, dims, x, y, cov = random_dag(rng)
    if rng.integers(2):  # a pair with a causal path
      edges = [(p, v) for v in names for p in parents[v]]
      if edges:
        x, y = edges[int(rng.integers(len(edges)))]
        while rng.integers(2):  # ... of any length
          nxt = [v for v in names if y in parents[v]]
          if not nxt:
            break
          y = nxt[int(rng.integers(len(nxt)))]
        dims[x] = dims[y] = 0
    dims = {v: 0 if d < 2 else d for v, d in dims.items()}
    coef = {v: rng.integers(-3, 4, 8) for v in names}
    # some mechanisms compute with integers, some responses have a few outliers
    coef["integers"] = rng.integers(4) == 0
    coef["outliers"] = rng.integers(3) == 0
    coef["differences"] = rng.integers(3) == 0
    return names, parents, dims, x, y, cov, coef

  def mechanism(v, dims, coef):
    c = coef[v]

    def f(n, ps):
      base = c[0] * np.cos(np.arange(n) + c[1])
      for j, p in enumerate(ps):
        if coef["integers"]:
          p = p * 100 * 20 - 3
        if coef["differences"]:
          # arithmetic with the parent as it is: its sign and its differences
          p = (-p) * 2 + (p - 1) * 3 + (p + p + p)
        if coef["outliers"]:
          p = np.array(p, dtype=float)
          p[:1 + n // 1000] *= 1e3
        p = np.asarray(p, dtype=float)
        p = p if p.ndim == 1 else p.sum(axis=1)
        base = base + c[2 + j % 6] * p + (p > .5) * np.sin(base)
      return base if dims[v] == 0 else np.column_stack(
          [base + j for j in range(dims[v])])
    return f

  def effect(names, parents, fs, x, y, n):
    out, size = [], 1.0
    for value in (1, 0):
      s = {}
      for v in names:
        s[v] = np.full(n, value) if v == x else fs[v](
            n, [s[p] for p in parents[v]])
      out.append(math.fsum(s[y]) / n)
      size = max(size, float(np.abs(s[y]).max()))
    return out[0] - out[1], 1e-9 * size

  def case(rng, i):
    names, parents, dims, x, y, cov, coef = build(rng)
    if i % 10 == 0:
      y = x
    calls = []
    state = dict(raise_at=None, k=0, doing=False)
    fs = {v: mechanism(v, dims, coef) for v in names}

    def make(v):
      def f(n, ps):
        calls.append((v, n, [np.array(p) for p in ps]))
        state["k"] += 1
        if state["raise_at"] == state["k"]:
          raise Boom()
        if v == x:
          return (np.arange(n) % 3 == 0) * 1.0
        return fs[v](n, ps)
      return f

    cpds = {v: make(v) for v in names}
    par = {v: list(parents[v]) for v in names}
    m = SCM.SCM("random", list(names), par, cpds, list(cov), x, y)
    before = snapshot(m, cpds, par)
    n = int(rng.integers(1, 40) if i % 20 != 5 else rng.integers(1000, 4000))
    if i % 300 == 7 and len(names) < 9:
      n = int(rng.integers(4000, 60001))
      ctx.count("effects of large samples")
    info = dict(variables=names, parents=parents, treatment=x, response=y, n=n)
    d0 = m.generate(n)
    calls.clear()
    state["k"] = 0
    got = m.compute_treatment_effect(n)
    want, tol = effect(names, parents, fs, x, y, n)
    ctx.close(got, want, "the effect is not the mean response under treatment "
              "minus that under control", rtol=1e-9, atol=tol, **info)
    ctx.ok(all(c[0] != x for c in calls), "the treatment mechanism is consulted",
           **info)
    for v, _, ps in calls:
      for p, a in zip(parents[v], ps):
        if p == x:
          ctx.ok(np.all(a == 1) or np.all(a == 0), "the treatment is not the same "
                 "for all units", treatment_values=a[:10], **info)
          ctx.count("interventions seen")
    ctx.ok(snapshot(m, cpds, par) == before,
           "computing the effect changed the model", **info)
    total = state["k"]
    # a mechanism raises in the middle
    if total:
      state["raise_at"] = int(rng.integers(1, total + 1))
      state["k"] = 0
      try:
        m.compute_treatment_effect(n)
        ctx.fail("an exception of a mechanism is swallowed", **info)
      except Boom:
        pass
      ctx.ok(snapshot(m, cpds, par) == before,
             "the model is changed after a mechanism raised",
             raised_at=state["raise_at"], of=total, **info)
      state["raise_at"] = None
      ctx.count("mechanisms that raised")
    # the model still behaves as before
    calls.clear()
    d1 = m.generate(n)
    ctx.ok(any(c[0] == x for c in calls) and np.array_equal(d0.exp, d1.exp) and
           np.array_equal(d0.rsp, d1.rsp) and np.array_equal(d0.cov, d1.cov),
           "the model generates other data after computing the effect", **info)
    ctx.close(m.compute_treatment_effect(n), want,
              "a second computation gives another effect", rtol=1e-9, atol=tol,
              **info)
    ctx.count("effects checked")
    ctx.count("nonzero effects", abs(want) > 1e-9)
    ctx.saw(tuple(tuple(names.index(p) for p in parents[v]) for v in names),
            names.index(x), names.index(y))
    ctx.sample("effect", value=want, **info)

  ctx.cases("contrast", ctx.pick(3000, 60000), case)

  def unbounded(rng, i):
    """Responses of some units are infinite or missing."""
    n = int(rng.integers(1, 60))
    base = rng.standard_normal(n)
    odd = float(rng.choice([np.inf, -np.inf, np.nan]))
    at = rng.integers(0, n, int(rng.integers(1, 4)))
    arm_of_odd = i % 3  # under control, under treatment, under both

    def y(k, ps):
      del k
      out = base + 2.0 * ps[0]
      value = int(ps[0][0])
      if arm_of_odd in (value, 2):
        out[at] = odd
      return out

    m = SCM.SCM("unbounded", ["Z", "X", "Y"], {"Z": [], "X": ["Z"], "Y": ["X"]}, {
        "Z": lambda k, ps: np.arange(k) * 1.0,
        "X": lambda k, ps: np.arange(k) % 2,
        "Y": y}, ["Z"], "X", "Y")
    with np.errstate(all="ignore"):
      want = np.mean(y(n, [np.ones(n)])) - np.mean(y(n, [np.zeros(n)]))
      got = m.compute_treatment_effect(n)
    ctx.close(got, want, "the effect is not the mean response under treatment "
              "minus that under control", units=n, odd=odd, where=arm_of_odd)
    ctx.count("effects of unbounded responses")
    ctx.saw("unbounded", n, str(odd), arm_of_odd)

  ctx.cases("unbounded", ctx.pick(150, 1500), unbounded)
  ctx.require(**{"effects checked": 1000, "nonzero effects": 300,
                 "mechanisms that raised": 500, "interventions seen": 1000})


# --- C23 ----------------------------------------------------------------------
def arrays(rng, n, k, dims=None, ints=False):
  """k parents of n units; dimension 0 stands for a vector."""
  out = []
  for j in range(k):
    d = dims[j] if dims else int(rng.choice([0, 1, 2, 3]))
    shape = (n,) if d == 0 else (n, d)
    a = rng.integers(-3, 4, shape)
    if not (ints and rng.uniform() < .7):
      a = a + rng.standard_normal(shape)
    out.append(a)
  return out


def frozen(xs):
  return [np.array(x) for x in xs]


def same(xs, ys):
  return len(xs) == len(ys) and all(
      a.dtype == b.dtype and np.array_equal(a, b) for a, b in zip(xs, ys))


def psd(rng, d):
  a = rng.standard_normal((d, d))
  return a.dot(a.T) + .2 * np.eye(d)


BLOCKS = ("normal 1", "normal d", "additive 1", "additive column",
          "additive d", "transformed 1", "transformed d", "structural 1",
          "structural d", "normal (1,)", "transformed (1,)", "structural (1,)",
          "additive (1,)")


def block(rng, kind, n, ints):
  """Builds a call: (parents or x, call(mean, cov), the value without noise, d)."""
  u = rng.uniform()
  k = int(rng.integers(1, 4) if u < .9 else rng.integers(4, 9) if u < .96 else
          rng.integers(9, 40))
  multi = kind.endswith((" d", " (1,)"))  # a mean with a dimension
  d = (1 if kind.endswith("(1,)") else int(
      rng.integers(2, 4) if rng.uniform() < .9 else rng.integers(4, 9))
      ) if multi else 0
  name = kind.split()[0]
  if name == "normal":
    ps = arrays(rng, n, k, [int(rng.integers(1, 4)) for _ in range(k)] if multi
                else None, ints)
    bs = []
    for p in ps:
      shape = () if p.ndim == 1 else (p.shape[1],)
      b = rng.integers(-3, 4, shape + ((d,) if multi else ())) + (
          0 if ints else .25)
      bs.append(np.asarray(b))
    value = sum(np.array([np.dot(np.atleast_1d(u), np.atleast_1d(b) if not multi
                                 else b) for u in p]) for p, b in zip(ps, bs))
    keep = ps + bs
    return keep, lambda m, c: SCM.normal_cpd(ps, bs, m, c), value, d
  if name == "additive":
    shape = (n, d) if d > 1 else (n,) if kind == "additive 1" else (n, 1)
    if kind == "additive (1,)" and rng.integers(2):
      shape = (n,)
    x = rng.integers(-3, 4, shape) + (0 if ints else rng.standard_normal(shape))
    # documented to return (n,) for a mean of shape (1,)
    value = np.array(x, dtype=float).reshape((n, d) if d > 1 else (n,))
    fl = bool(rng.integers(2))
    return [x], lambda m, c: SCM.add_gaussian_noise(
        x, m, float(c[0, 0]) if d == 1 and fl else c), value, d
  if name == "transformed":
    ps = arrays(rng, n, k, [int(rng.integers(1, 4)) for _ in range(k)], ints)
    bs = [np.asarray(rng.integers(-3, 4, (p.shape[1],) + ((d,) if multi else ())) /
                     (1 if ints else 2)) for p in ps]
    table = [np.square, np.tanh, lambda v: 2 * v + 1, lambda v: v,
             lambda v: np.where(v > 0, 3, -1)]
    fns = [table[int(rng.integers(5))] for _ in ps]
    caches = []

    def wrap(f):
      out = {}

      def g(v):
        # a function may hand out an array it keeps, or the one it was given
        key = np.asarray(v).tobytes()
        if key not in out:
          out[key] = np.asarray(f(v))
          caches.append((out[key], np.array(out[key])))
        return out[key]
      return g

    gs = [wrap(f) for f in fns]
    value = sum(np.asarray(f(np.dot(p, b)), dtype=float)
                for f, p, b in zip(fns, ps, bs))

    def call(m, c):
      out = SCM.transformed_normal_cpd(ps, bs, gs, m, c)
      for a, b in caches:
        if not np.array_equal(a, b):
          raise Mutated("an array owned by a transformation was modified")
      return out
    return ps + bs, call, value, d
  ps = arrays(rng, n, k, None, ints)
  stack = np.column_stack(ps)
  w = rng.integers(-2, 3, (stack.shape[1], max(d, 1)))
  flat = bool(rng.integers(2))

  def f(x):
    out = np.tanh(x.dot(w)) + x[:, :1]
    return out if multi else out[:, 0] if flat else out

  return ps, lambda m, c: SCM.structural_equation_with_noise(ps, f, m, c), (
      np.tanh(stack.dot(w)) + stack[:, :1]).reshape((n, d) if multi else (n,)), d


class Mutated(Exception):
  pass


def c23(ctx):
  ctx.rule = (
      "calls of every building block with 1-3 (some up to 39) float or integer parents "
      "of dimension 1-3: without noise the stated function exactly, with noise the "
      "residuals' mean, covariance, distribution and independence; distinct: "
      "(block, dimensions, integer parents)")

  def exact(rng, i):
    kind = BLOCKS[i % len(BLOCKS)]
    n, ints = int(rng.integers(1, 30)), bool(rng.integers(2))
    if i % 16 == 15:
      n = int(rng.integers(30, 1500))
    keep, call, value, d = block(rng, kind, n, ints)
    before = frozen(keep)
    if d:
      mean = rng.standard_normal(d)
      cov = np.zeros((d, d))
    else:
      mean, cov = float(rng.standard_normal()), 0.0
    # these two document that the mean may be a column
    column = bool(kind.split()[0] in ("additive", "structural") and
                  (d > 1 or d and kind.startswith("structural")) and
                  rng.integers(2))
    if column:
      call = lambda m, c, plain=call: plain(np.reshape(m, (d, 1)), c)
    info = dict(block=kind, n=n, integer_parents=ints, column_mean=column,
                shapes=[np.shape(x) for x in keep])
    try:
      out = call(mean, cov)
    except Mutated as e:
      ctx.fail(str(e), **info)
    ctx.close(out, value + mean, "without noise the value is not the stated "
              "function of each unit's parents plus the mean", **info)
    ctx.ok(same(keep, before), "the parents or coefficients were modified", **info)
    out2 = call(mean, cov)
    ctx.close(out2, value + mean, "a second call gives another value", **info)
    ctx.count("exact values", n)
    ctx.count("means given as columns", int(column))
    ctx.saw(kind, d, ints, column, tuple(np.shape(x)[1:] for x in keep))
    ctx.sample("block", **info)

  ctx.cases("noise-free", ctx.pick(4500, 90000), exact)

  def noise(rng, i, n=ctx.pick(20000, 100000), scaled=.4):
    kind = BLOCKS[i % len(BLOCKS)]
    keep, call, value, d = block(rng, kind, n, bool(rng.integers(2)))
    info = dict(block=kind)
    # noise that is small or large beside what it is added to
    unit = 10**rng.uniform(-4, 4) if rng.uniform() < scaled else 1
    if d:
      mean, cov = rng.standard_normal(d), psd(rng, d)
      by = unit * np.exp(rng.standard_normal(d)) if unit != 1 else np.ones(d)
      cov = cov * np.outer(by, by)
      r, r2 = [np.linalg.solve(np.linalg.cholesky(cov), (
          call(mean, cov) - value - mean).reshape(n, d).T).T for _ in range(2)]
    else:
      mean, cov = float(rng.standard_normal()), float(
          rng.choice([.04, .5, 4, 9]) * unit**2)
      r = ((call(mean, cov) - value - mean) / math.sqrt(cov)).reshape(n, 1)
      r2 = ((call(mean, cov) - value - mean) / math.sqrt(cov)).reshape(n, 1)
    info.update(mean=mean, cov=cov)
    e = 6 / math.sqrt(n)
    ctx.ok(np.all(abs(r.mean(axis=0)) < e), "the noise does not have the stated "
           "mean", standardised_mean=r.mean(axis=0), **info)
    c = r.T.dot(r) / n
    ctx.ok(np.all(abs(c - np.eye(len(c))) < e * np.sqrt(1 + np.eye(len(c)))),
           "the noise does not have the stated (co)variance",
           standardised_covariance=c, **info)
    for j in range(r.shape[1]):
      ctx.ok(st.kstest(r[:, j], "norm").statistic < 3.2 / math.sqrt(n),
             "the noise is not Gaussian", **info)
      ctx.ok(abs(np.mean(r[1:, j] * r[:-1, j])) < e * 1.2,
             "the noise of successive units is dependent", **info)
      ctx.ok(len(np.unique(r[:, j])) > n * .99, "units share their noise", **info)
      independence.lags(ctx, r[:, j], "the noise", **info)
      ctx.ok(abs(np.mean(r[:, j] * r2[:, j])) < e * 1.2,
             "the noise of two calls is dependent", **info)
      v = np.asarray(value, dtype=float).reshape(n, -1)[:, 0]
      if v.std() > 0:
        v = (v - v.mean()) / v.std()
        ctx.ok(abs(np.mean(v.clip(-4, 4) * r[:, j])) < e * 1.3 and
               abs(np.mean(v.clip(-4, 4) * (r[:, j]**2 - 1))) < e * 2,
               "the noise depends on the parents", **info)
    ctx.count("residuals", n)
    ctx.saw(kind, "noise", d)

  ctx.cases("noise", ctx.pick(52, 520), noise)
  ctx.cases("scaled noise", ctx.pick(390, 3900),
            lambda rng, i: noise(rng, i, 1500, 1))

  def small(rng, i):
    # many samples of a few units: every two units, every component
    kinds = BLOCKS + ("bernoulli", "linear bernoulli")
    kind = kinds[i % len(kinds)]
    n = int(rng.integers(2, 12) if rng.uniform() < .6 else rng.integers(12, 60))
    info = dict(block=kind, n=n)
    if kind.endswith("bernoulli"):
      ps = arrays(rng, n, int(rng.integers(1, 4)))
      s = np.clip(sum(p.reshape(n, -1).sum(axis=1) for p in ps), -1.5, 1.5)
      if kind == "bernoulli":
        call = lambda: SCM.logistic_bernoulli_cpd(ps, lambda q: s)
      else:
        call = lambda: SCM.logistic_linear_bernoulli_cpd([s], [np.asarray(1.0)])
      p = 1 / (1 + np.exp(-s))
      rows = [(call() - p) / np.sqrt(p * (1 - p)) for _ in range(200)]
    else:
      _, call, value, d = block(rng, kind, n, bool(rng.integers(2)))
      if d:
        mean, cov = rng.standard_normal(d), psd(rng, d)
        rows = [np.linalg.solve(np.linalg.cholesky(cov), (
            call(mean, cov) - value - mean).reshape(n, d).T).ravel()
                for _ in range(200)]
      else:
        mean, cov = float(rng.standard_normal()), float(rng.choice([.04, .5, 9]))
        rows = [np.ravel(call(mean, cov) - value - mean) / math.sqrt(cov)
                for _ in range(200)]
    independence.units(ctx, rows, "the draws", **info)

  ctx.cases("small samples", ctx.pick(150, 3000), small)

  def bernoulli(rng, i):
    k, n = int(rng.integers(1, 4) if i % 10 < 8 else rng.integers(4, 40)), 4000
    ints = bool(rng.integers(2))
    base = arrays(rng, 40, k, None, ints)
    ps = [np.repeat(p, n // 40, axis=0) for p in base]
    gs = [np.asarray(rng.integers(-2, 3, p.shape[1:]) / (1 if ints else 2))
          for p in ps]
    if i % 2:
      s = sum(np.dot(p, g) for p, g in zip(ps, gs))
      call = lambda: SCM.logistic_linear_bernoulli_cpd(ps, gs)
    else:
      def f(q):
        if not all(np.array_equal(a, b) for a, b in zip(q, ps)):
          raise Mutated("the function does not get the parents")
        return np.sin(sum(np.dot(p, g) for p, g in zip(q, gs))) * 3
      s = f(ps)
      call = lambda: SCM.logistic_bernoulli_cpd(ps, f)
    before = frozen(ps + gs)
    info = dict(linear=bool(i % 2), integer_parents=ints)
    try:
      x = call()
    except Mutated as e:
      ctx.fail(str(e), **info)
    ctx.ok(same(ps + gs, before), "the parents were modified", **info)
    ctx.ok(np.shape(x) == (n,) and set(np.unique(x)) <= {0, 1},
           "the samples are not one bit per unit", shape=np.shape(x), **info)
    p = 1 / (1 + np.exp(-np.asarray(s, dtype=float)))
    order = np.argsort(p, kind="stable")
    for part in np.array_split(order, 8):
      m, v = p[part].sum(), (p[part] * (1 - p[part])).sum()
      ctx.ok(abs(x[part].sum() - m) <= 6 * math.sqrt(v) + 2,
             "the frequency is not the stated probability",
             expected=m / len(part), got=x[part].mean(), **info)
    v = p * (1 - p)
    r = np.where(v > .01, (x - p) / np.sqrt(np.maximum(v, .01)), 0)
    ctx.ok(abs(np.mean(r[1:] * r[:-1])) < 7 / math.sqrt(n),
           "the draws of successive units are dependent", **info)
    independence.lags(ctx, np.where(v > .14, r, 0), "the draws", **info)
    # saturated probabilities are drawn with certainty
    big = [np.array([800, -800, 60, -60])]
    y = SCM.logistic_linear_bernoulli_cpd(big, [np.asarray(1.0)])
    ctx.ok(list(y) == [1, 0, 1, 0], "saturated probabilities are not drawn with "
           "certainty", got=y, **info)
    ctx.count("Bernoulli draws", n)
    ctx.saw("bernoulli", i % 2, k, ints)

  ctx.cases("bernoulli", ctx.pick(300, 5000), bernoulli)

  def categorical(rng, i):
    del i
    n, k, c = int(rng.integers(1, 25)), int(rng.integers(1, 5)), int(
        rng.integers(1, 5))
    if rng.uniform() < .04:  # many categories
      c = int(rng.integers(5, 500))
    if rng.uniform() < .03 or c > 4 and rng.uniform() < .4:  # many units
      n = int(np.exp(rng.uniform(np.log(25), np.log(9000))))
    which = int(rng.integers(k))
    ps, dims = [], []
    for j in range(k):
      if j == which:
        cat = rng.integers(0, c, n)
        cat = cat if rng.integers(2) else cat.astype(float)
        ps.append(cat)
      else:
        d = int(rng.choice([0, 1, 2]))
        dims.append(d)
        a = rng.standard_normal((n,) if d == 0 else (n, d))
        ps.append(a)
    out_d = int(rng.choice([0, 2]))

    def make(j):
      def f(m, q):
        # own copy of the parents of m units, whatever their exact layout
        cols = [np.reshape(np.asarray(v), (m, max(d, 1)))
                for v, d in zip(q, dims)]
        if len(q) != len(dims):
          raise Mutated("a distribution does not get the other parents")
        s = sum(((t + 1.5) * v.sum(axis=1) for t, v in enumerate(cols)),
                np.zeros(m)) + 100 * j
        return s if out_d == 0 else np.column_stack([s, -s])
      return f

    arg = list(ps)
    ids = [id(p) for p in arg]
    before = frozen(ps)
    info = dict(n=n, parents=k, index=which, categories=c, out=out_d)
    try:
      out = SCM.categorical_conditioning(arg, which, [make(j) for j in range(c)])
    except Mutated as e:
      ctx.fail(str(e), **info)
    ctx.ok([id(p) for p in arg] == ids, "the list of parents was modified", **info)
    ctx.ok(same(ps, before), "the parents were modified", **info)
    rest = [p for j, p in enumerate(ps) if j != which]
    want = np.array([sum((t + 1.5) * np.sum(p[u]) for t, p in enumerate(rest)) +
                     100 * int(ps[which][u]) for u in range(n)])
    want = want if out_d == 0 else np.column_stack([want, -want])
    ctx.close(out, want, "a unit does not get the distribution of its category at "
              "its own parents", **info)
    for bad in (k, k + 1, k + int(rng.integers(1, 20))):
      ctx.raises(ValueError, lambda: SCM.categorical_conditioning(
          list(ps), bad, [make(j) for j in range(c)]),
                 "an index beyond the parents is accepted", bad=bad, **info)
    ctx.count("categorical samples", n)
    ctx.saw("categorical", k, which, c, out_d)

  ctx.cases("categorical", ctx.pick(1500, 30000), categorical)

  def categorical_draws(rng, i):
    # equal categories and equal other parents, but a draw for each unit
    n, k, c = int(rng.integers(500, 2500)), i % 3, int(rng.integers(1, 4))
    which = int(rng.integers(k + 1))
    ps = []
    for j in range(k):
      ps.append(np.full(n, j) if rng.integers(2) else rng.integers(0, 2, n))
    cat = np.sort(rng.integers(0, c, n)) if rng.integers(2) else rng.integers(
        0, c, n)
    ps.insert(which, cat)
    sd = float(rng.uniform(.1, 5))
    np.random.seed(int(rng.integers(2**31)))

    def make(j):
      return lambda m, q: 10.0 * j + sum(q, np.zeros(m)) + np.random.normal(
          0, sd, size=m)
    out = SCM.categorical_conditioning(list(ps), which, [make(j) for j in range(c)])
    e = (out - 10.0 * cat - sum(p for j, p in enumerate(ps) if j != which)) / sd
    info = dict(units=n, parents=k + 1, index=which, categories=c)
    ctx.ok(np.shape(out) == (n,), "wrong shape", got=np.shape(out), **info)
    ctx.ok(len(np.unique(e)) == n, "units share a draw", distinct=len(np.unique(e)),
           **info)
    for what, v in (("mean", e), ("variance", (e**2 - 1) / math.sqrt(2)),
                    ("correlation of neighbours", e[1:] * e[:-1])):
      ctx.ok(abs(np.sum(v)) < 7 * math.sqrt(n), f"the {what} of the draws is wrong",
             z=np.sum(v) / math.sqrt(n), **info)
    ctx.count("categorical draws", n)

  ctx.cases("categorical draws", ctx.pick(60, 600), categorical_draws)

  def bad(rng, i):
    n = int(rng.integers(2, 20))
    v = float(rng.standard_normal())
    ctx.ok(np.array_equal(SCM.deterministic_cpd(n, v), [v] * n),
           "the deterministic distribution is not its value", n=n, v=v)
    d = int(rng.integers(2, 5))
    e = d + 1 if i % 2 else d - 1
    ctx.raises(ValueError, lambda: SCM.add_gaussian_noise(
        np.zeros((n, d)), np.zeros(e), np.eye(e)),
               "a mean of another dimension is accepted", x_dim=d, mean_dim=e)
    for m in (0.0, np.zeros((e, 1))):
      ctx.raises(ValueError, lambda: SCM.add_gaussian_noise(
          np.zeros((n, d)), m, np.eye(np.size(m))),
                 "a mean of another dimension is accepted", x_dim=d,
                 mean_shape=np.shape(m))
    for x in (np.zeros(n), np.zeros((n, 1))):
      ctx.raises(ValueError, lambda: SCM.add_gaussian_noise(
          x, np.zeros((d, 1)), 1.0), "a matrix mean is accepted for a vector",
                 shape=x.shape)
    ps = arrays(rng, n, 2, [1, 2])
    bs = [np.ones(1), np.ones(2)]
    for fns in ([np.tanh], [np.tanh] * 3):
      ctx.raises(ValueError, lambda: SCM.transformed_normal_cpd(
          ps, bs, fns, 0.0, 1.0), "another number of transformations than parents "
                 "is accepted", transformations=len(fns))
    ctx.count("inconsistent calls")

  ctx.cases("arguments", ctx.pick(60, 600), bad)
  ctx.require(**{"exact values": 10000, "means given as columns": 300,
                 "residuals": 500000,
                 "Bernoulli draws": 100000, "categorical samples": 2000,
                 "categorical draws": 10000,
                 "inconsistent calls": 20,
                 "pairs of units compared": 10000,
                 "distances compared": 100000})


# --- C25 ----------------------------------------------------------------------
def c25(ctx):
  ctx.rule = (
      "random instances of both example models (among them the most extreme of a "
      "few hundred): moments of large samples within 6 standard errors of the "
      "stated ones, jointly over instances by a chi-square bound, and the effect "
      "of setting the exposure in the model; distinct: instances")

  def zscores(ctx, d, truth, columns, info):
    n = len(d)
    vals = {c: np.asarray(d.cov[:, j], dtype=float)
            for j, c in enumerate(columns)}
    vals["x"], vals["y"] = d.exp.astype(float), d.rsp
    out = {}
    for name, v in vals.items():
      if f"mu_{name}" not in truth:
        ctx.fail(f"no truth stated for {name}", **info)
      s = v.std()
      c = v - v.mean()
      m4 = np.mean(c**4)
      out[f"mu_{name}"] = (v.mean(), truth[f"mu_{name}"], s / math.sqrt(n))
      # for a balanced bit the variance is far more exact than this
      out[f"var_{name}"] = (np.mean(c**2), truth[f"var_{name}"], math.sqrt(
          max(m4 - s**4, 0) / n) + 4 * s**2 / n)
    return out

  def do(m, names, n, value):
    s = {}
    for v in names:
      s[v] = np.full(n, value) if v == m.treatment_variable else m.cpds[v](
          n, [s[p] for p in m.parents[v]])
    return np.mean(s[m.response_variable]), np.std(s[m.response_variable])

  def instance(rng, which, extreme):
    make = X.back_door_scm if which == 0 else X.frontdoor_scm
    best, score = None, -1
    for _ in range(300 if extreme else 1):
      np.random.seed(int(rng.integers(2**31)))
      m = make()
      t = m[1]
      s = abs(t["alpha"] * t["beta"]) if which == 0 else abs(
          t["alpha_1"] * t["alpha_2"]) * t["gamma"]
      if s > score:
        best, score = m, s
    return best

  def case(rng, i):
    which = i % 2
    n = ctx.pick(100000, 400000)
    total = {}
    k = ctx.pick(16, 60)
    for j in range(k):
      m, truth = instance(rng, which, j % 2 == 0)
      stated = dict(truth)
      instance(rng, which, False)  # another instance must not affect this one
      info = dict(model=("back-door", "front-door")[which], truth=stated)
      d = m.generate(n)
      cols = ["z"] if which == 0 else ["u", "z"]
      zs = zscores(ctx, d, truth, cols, info)
      h = n
      (m1, s1), (m0, s0) = do(m, m.var_names, h, 1), do(m, m.var_names, h, 0)
      zs["tau"] = (m1 - m0, truth["tau"], math.sqrt((s1**2 + s0**2) / h))
      zs["tau (compute_treatment_effect)"] = (
          m.compute_treatment_effect(h), truth["tau"],
          math.sqrt((s1**2 + s0**2) / h))
      ctx.ok(truth == stated, "the stated truth changed", **info)
      for name, (got, want, se) in zs.items():
        z = (got - want) / se
        ctx.ok(abs(z) < 6, f"the stated {name} is wrong", observed=got,
               stated=want, standard_error=se, **info)
        total.setdefault(name, []).append(z)
        ctx.count("moments checked")
      ctx.saw(which, tuple(sorted(truth.items())))
      ctx.sample(info["model"], n=n, observed={a: b[0] for a, b in zs.items()},
                 **info)
    for name, z in total.items():
      q = float(np.sum(np.square(z)))
      ctx.ok(st.chi2.sf(q, len(z)) > 1e-9, f"the stated {name} is wrong over many "
             "instances", chi_square=q, instances=len(z), z=z,
             model=("back-door", "front-door")[which])
    # exact relations between the stated values
    ctx.count("instances", k)

  ctx.cases("moments", ctx.pick(4, 16), case)

  def draws(f, size, parents, chunk=1000000):
    """Mean, variance and their standard errors of a mechanism's samples."""
    shift = None
    s1 = s2 = s3 = s4 = 0.0
    for _ in range(size // chunk):
      v = np.asarray(f(chunk, [np.full(chunk, p) for p in parents]), dtype=float)
      shift = v.mean() if shift is None else shift
      v = v - shift
      w = v * v
      s1, s2, s3, s4 = s1 + v.sum(), s2 + w.sum(), s3 + (w * v).sum(), s4 + (
          w * w).sum()
    n = size // chunk * chunk
    m1 = s1 / n
    var = s2 / n - m1**2
    m4 = s4 / n - 4 * m1 * s3 / n + 6 * m1**2 * s2 / n - 3 * m1**4
    return (shift + m1, math.sqrt(max(var, 0) / n)), (
        var, math.sqrt(max(m4 - var**2, 0) / n) + 4 * var / n)

  def from_parts(which, t):
    """The moments of the model, given those of its mechanisms."""
    out = {}
    root, x, z, my, vy = t[0], t[1:3], t[3:5], t[-8:-4], t[-4:]
    ey = ey2 = 0.0
    px = root * x[1] + (1 - root) * x[0]
    pz = root if which == 0 else px * z[1] + (1 - px) * z[0]
    for r in (0, 1):
      for b in (0, 1):
        if which == 0:  # cells (z, x)
          w = (root if r else 1 - root) * (x[r] if b else 1 - x[r])
        else:  # cells (z, u), with r the value of u
          q = x[r] * z[1] + (1 - x[r]) * z[0]
          w = (root if r else 1 - root) * (q if b else 1 - q)
        c = 2 * r + b if which == 0 else 2 * b + r
        ey, ey2 = ey + w * my[c], ey2 + w * (vy[c] + my[c]**2)
    out.update(mu_x=px, var_x=px * (1 - px), mu_z=pz, var_z=pz * (1 - pz),
               mu_y=ey, var_y=ey2 - ey**2)
    if which == 0:
      out["tau"] = root * (my[3] - my[2]) + (1 - root) * (my[1] - my[0])
    else:
      out.update(mu_u=root, var_u=root * (1 - root))
      out["tau"] = (z[1] - z[0]) * (root * (my[3] - my[1]) + (1 - root) * (
          my[2] - my[0]))
    return out

  def parts(rng, i):
    which = i % 2
    best, score = None, -1
    for _ in range(200):
      m = instance(rng, which, False)
      t = m[1]
      s = abs(t["alpha"] * t["beta"]) if which == 0 else abs(
          t["beta"]) + rng.uniform(0, .2) + abs(t["alpha_1"])
      if s > score:
        best, score = m, s
    m, truth = best
    np.random.seed(int(rng.integers(2**31)))
    many, some = ctx.pick(10000000, 20000000), ctx.pick(1000000, 4000000)

    def given(v, size, **values):
      return draws(m.cpds[v], size, [values[p] for p in m.parents[v]])

    if which == 0:
      est = [given("Z", many)[0]] + [given("X", many, Z=a)[0] for a in (0, 1)]
      cells = [given("Y", some, Z=a, X=b) for a in (0, 1) for b in (0, 1)]
    else:
      est = [given("U", many)[0]] + [given("X", many, U=a)[0] for a in (0, 1)] + [
          given("Z", many, X=a)[0] for a in (0, 1)]
      cells = [given("Y", some, Z=a, U=b) for a in (0, 1) for b in (0, 1)]
    est += [c[0] for c in cells] + [c[1] for c in cells]
    t = [e[0] for e in est]
    got = from_parts(which, t)
    var = {k: 0.0 for k in got}
    for j, (v, se) in enumerate(est):
      hi, lo = list(t), list(t)
      hi[j], lo[j] = v + se, v - se
      hi, lo = from_parts(which, hi), from_parts(which, lo)
      for k in var:
        var[k] += ((hi[k] - lo[k]) / 2)**2 + ((hi[k] + lo[k]) / 2 - got[k])**2
    for k in got:
      se = math.sqrt(var[k])
      ctx.ok(abs(got[k] - truth[k]) <= 6 * se + 1e-9, f"the stated {k} is wrong",
             observed=got[k], stated=truth[k], standard_error=se,
             model=("back-door", "front-door")[which], truth=truth)
      ctx.count("sharp moments checked")
    ctx.saw("parts", which, tuple(sorted(truth.items())))

  ctx.cases("parts", ctx.pick(6, 40), parts)

  def support(rng, i):
    which = i % 2
    m, _ = instance(rng, which, False)
    n = 2000
    d = m.generate(n)
    ctx.ok(d.cov.shape == (n, 1 + which) and set(np.unique(d.cov)) <= {0, 1} and
           set(np.unique(d.exp)) <= {0, 1},
           "the example's covariates and exposure are not binary", which=which)
    ctx.count("layouts checked")
    # many samples of a few units
    b = int(rng.integers(2, 30))
    rows = []
    for _ in range(200):
      d = m.generate(b)
      rows.append(np.concatenate([d.cov.T.ravel(), d.exp, d.rsp]))
    rows, unit_of = np.array(rows, dtype=float), np.tile(np.arange(b), 3 + which)
    binary = np.arange(len(unit_of)) < b * (2 + which)
    ok = ~binary | (np.abs(np.where(binary, rows, .5).mean(axis=0) - .5) < .35)
    rows = rows[:, ok]
    independence.units(ctx, (rows - rows.mean(axis=0)) / rows.std(axis=0),
                       "the example's units", unit_of=unit_of[ok], which=which)

  ctx.cases("layout", 10, support)
  ctx.require(**{"moments checked": 400, "instances": 30,
                 "sharp moments checked": 40, "layouts checked": 6,
                 "pairs of units compared": 100})


_ = itertools
