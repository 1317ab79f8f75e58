"""Are the units of a sample, and those of successive samples, independent?"""
import numpy as np


def units(ctx, rows, what, limit=9, unit_of=None, **info):
  """rows: R samples of n units (or more variables), each with mean 0, variance 1.

  Every pair of columns is compared over the samples, and every sample with the
  five before it. With R=200, two columns that share or mirror a draw give z=14.
  unit_of: the unit of each column, where variables of one unit are dependent.
  """
  rows = np.asarray(rows, dtype=float)
  r, n = rows.shape
  size = np.abs(rows) - np.abs(rows).mean(axis=0)
  sd = size.std(axis=0)
  size = np.where(sd > .3, size, 0) / np.where(sd > .3, sd, 1)
  for kind, x in (("", rows), (" in size", size)):
    z = x.T.dot(x) / np.sqrt(r)
    np.fill_diagonal(z, 0)
    if unit_of is not None:
      z[np.equal.outer(unit_of, unit_of)] = 0
    j = np.unravel_index(np.argmax(np.abs(z)), z.shape)
    ctx.ok(abs(z[j]) < limit, f"{what}: two units of a sample are dependent{kind}",
           columns=[int(v) for v in j], z=z[j], samples=r, **info)
    for k in range(1, 6):
      z = (x[k:] * x[:-k]).sum(axis=0) / np.sqrt(r - k)
      j = int(np.argmax(np.abs(z)))
      ctx.ok(abs(z[j]) < limit, f"{what}: a unit depends on that of an earlier "
             f"sample{kind}", column=j, lag=k, z=z[j], samples=r, **info)
  ctx.count("pairs of units compared", n * (n - 1) // 2)


def lags(ctx, e, what, limit=9.5, **info):
  """All distances between two units of one large sample, and all reflections."""
  e = np.asarray(e, dtype=float)
  n = len(e)
  if n < 400:
    return
  f = np.fft.rfft(e, 2 * n)
  auto = np.fft.irfft(f * np.conj(f), 2 * n)[1:n - 150]
  z = auto / np.sqrt(n - np.arange(1, n - 150))
  j = int(np.argmax(np.abs(z)))
  ctx.ok(abs(z[j]) < limit, f"{what}: units at some distance are dependent",
         distance=j + 1, z=z[j], units=n, **info)
  # sum over i < k - i of e[i] e[k - i]
  both = np.fft.irfft(f * f, 2 * n)[:2 * n - 1]
  k = np.arange(2 * n - 1)
  mid = np.where(k % 2 == 0, e[np.minimum(k // 2, n - 1)]**2, 0)
  terms = (np.minimum(k, 2 * n - 2 - k) + 1) // 2
  keep = terms >= 150
  z = ((both - mid) / 2)[keep] / np.sqrt(terms[keep])
  j = int(np.argmax(np.abs(z)))
  ctx.ok(abs(z[j]) < limit, f"{what}: units mirrored at some place are dependent",
         place=k[keep][j] / 2, z=z[j], units=n, **info)
  ctx.count("distances compared", n)
