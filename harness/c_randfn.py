"""Monitor of C42: random functions are draws of the stated Gaussian process."""
import itertools
import math

import numpy as np
from scipy import stats
from sklearn.gaussian_process import kernels

from harness import boot

NU = boot.nonlinear_utils


def some_kernel(rng, dim):
  """A kernel without free parameters, positive definite in dim dimensions."""
  length = float(rng.uniform(.4, 3))
  # the periodic ones are no covariances in several dimensions
  kind = int(rng.integers(7 if dim == 1 else 5))
  base = [
      lambda: kernels.RBF(length, "fixed"),
      lambda: kernels.Matern(length, "fixed", nu=float(rng.choice([.5, 1.5, 2.5]))),
      lambda: kernels.RationalQuadratic(length, 1.3, "fixed", "fixed"),
      lambda: kernels.DotProduct(1.0, "fixed"),
      lambda: kernels.DotProduct(.3, "fixed") + kernels.RBF(length, "fixed"),
      lambda: kernels.ExpSineSquared(length, float(rng.uniform(2, 7)), "fixed",
                                     "fixed"),
      lambda: kernels.ExpSineSquared(1, 5.0, "fixed", "fixed"),
  ][kind]()
  if rng.uniform() < .3:
    base = kernels.ConstantKernel(float(10**rng.uniform(-1, 2)), "fixed") * base
  return base


def c42(ctx):
  ctx.rule = (
      "several hundred random functions per configuration (kernel without free "
      "parameters, 1-3 inputs, 1-7 outputs, range, points per axis, noise level; "
      "given or no seed): their values at chosen points are whitened with the "
      "exact covariance of the stated process and must be independent standard "
      "normals; every function must be a combination of the kernel at the grid "
      "points; distinct: (kernel, dimensions, range, points, noise level)")

  def case(rng, i):
    dim, out_dim = int(rng.choice([1, 1, 2, 3])), int(
        rng.integers(1, 4) if rng.uniform() < .85 else rng.integers(4, 8))
    kernel = some_kernel(rng, dim)
    opts = {}
    k = int(rng.integers(*{1: (2, 13), 2: (2, 6), 3: (2, 4)}[dim]))
    lo, hi, alpha = -1.0, 1.0, 100.0
    if dim > 1 or rng.integers(4):
      opts["n_points"] = k
    else:
      k = 10
    if rng.uniform() < .75:
      lo = float(rng.choice([-3, -1, 0, .5, 2, 7, -9]))
      hi = lo + float(rng.choice([.5, 1, 2, 5]))
      opts.update(min_x=lo, max_x=hi)
    if rng.uniform() < .75:
      alpha = float(rng.choice([1e-3, .03, .3, 1, 10]))
      opts["alpha"] = alpha
    m = ctx.pick(480, 900) // (1 + out_dim)
    seeded = i % 4 != 3
    first = int(rng.integers(2**30))
    step = int(rng.choice([1, 1, 977]))
    grid = np.array(list(itertools.product(np.linspace(lo, hi, k), repeat=dim)))
    width = hi - lo
    points = rng.uniform(lo - .3 * width, hi + .3 * width, size=(
        max(60, 2 * len(grid)), dim))
    points[:8] = np.round(points[:8], 1)
    far = points[20:30]  # further away, where the kernel allows it
    far += rng.choice([-2, -1, 1, 2], far.shape) * width
    chosen = np.arange(12)
    info = dict(kernel=str(kernel), dim=dim, out_dim=out_dim, n_points=k,
                min_x=lo, max_x=hi, alpha=alpha)
    # the covariance of the values at the chosen points, from the statement
    kg, kp = kernel(grid), kernel(points, grid)
    lam, q = np.linalg.eigh(kg)
    root = q * np.sqrt(np.clip(lam, 0, None))
    a = np.linalg.solve(kg + alpha * np.eye(len(grid)), root)
    u, s, _ = np.linalg.svd(kp[chosen].dot(a), full_matrices=False)
    keep = s > 1e-4 * s[0]
    u, s = u[:, keep], s[keep]
    # the span of the kernel functions of the grid, at all points
    basis, sv, _ = np.linalg.svd(kp, full_matrices=False)
    basis = basis[:, sv > 1e-12 * sv[0]]
    z = np.zeros((m, out_dim, len(s)))
    np.random.seed(first % 2**31)
    for t in range(m):
      f = NU.generate_random_nd_function(
          dim, out_dim, kernel=kernel,
          **({"seed": first + t * step} if seeded else {}), **opts)
      y = f(points)
      ctx.ok(np.shape(y) == (len(points), out_dim), "a random function does not "
             "return (n, out_dim)", shape=np.shape(y), **info)
      rest = y - basis.dot(basis.T.dot(y))
      ctx.ok(abs(rest).max() <= 1e-6 * s[0], "a random function is not a "
             "combination of the kernel at the points of the grid",
             residual=abs(rest).max(), scale=s[0], **info)
      z[t] = (u.T.dot(y[chosen]) / s[:, None]).T
      if t < 3:  # the same at the same points, however they are passed
        ctx.close(f(points[:8][::-1])[::-1], y[:8], "a random function depends on "
                  "the order or number of the rows", rtol=1e-7, atol=1e-9 * s[0],
                  **info)
        big = np.repeat(points, 40, axis=0)
        ctx.close(f(big)[::40], y, "a random function depends on the number of "
                  "rows", rtol=1e-7, atol=1e-9 * s[0], **info)
        whole = np.round(points[:9]).astype(int)
        ctx.close(f(whole), f(whole.astype(float)), "a random function depends on "
                  "the type of its input", rtol=1e-7, atol=1e-9 * s[0], **info)
    info.update(functions=m)

    def chi2(x, what, **kw):
      n = x.size
      v = float(np.sum(x * x))
      p = min(stats.chi2.sf(v, n), stats.chi2.cdf(v, n))
      ctx.ok(p > 1e-11, what, mean_square=v / n, count=n, p=p, **kw, **info)
      ctx.count("statistics compared")

    def pairs(x, y, what, **kw):
      n = x.size
      r = float(np.sum(x * y)) / math.sqrt(n)
      ctx.ok(abs(r) < 8, what, statistic=r, count=n, **kw, **info)
      ctx.count("statistics compared")

    chi2(z, "the variance of random functions is not that of the process")
    for d in range(len(s)):
      chi2(z[:, :, d], "the covariance of random functions is not that of the "
           "process", direction=d)
    for o in range(out_dim):
      chi2(z[:, o], "the variance of a component is not that of the process",
           component=o)
    mean = z.mean(axis=0) * math.sqrt(m)
    ctx.ok(np.all(abs(mean) < 7), "random functions do not have mean zero",
           statistics=mean, **info)
    for d, e in itertools.combinations(range(len(s)), 2):
      pairs(z[:, :, d], z[:, :, e], "the covariance of random functions is not "
            "that of the process", directions=(d, e))
    for o, p in itertools.combinations(range(out_dim), 2):
      pairs(z[:, o], z[:, p], "the components of a random function are dependent",
            components=(o, p))
    for lag in (1, 2):
      pairs(z[lag:], z[:-lag], "successive random functions are dependent",
            lag=lag)
      if out_dim > 1:
        pairs(z[lag:, 0], z[:-lag, -1], "components of successive random functions "
              "are dependent", lag=lag)
    ctx.count("functions drawn", m)
    ctx.count("functions without a seed", m * (not seeded))
    ctx.count("functions of several inputs", m * (dim > 1))
    ctx.count("directions compared", len(s))
    ctx.saw(str(kernel), dim, out_dim, lo, hi, k, alpha)
    ctx.sample("process", mean_square=float(np.mean(z * z)), directions=len(s),
               **info)

  ctx.cases("draws", ctx.pick(60, 900), case, budget_s=ctx.pick(240, 1800))
  ctx.require(**{"functions drawn": 1000, "statistics compared": 500,
                 "functions of several inputs": 200,
                 "functions without a seed": 200})
