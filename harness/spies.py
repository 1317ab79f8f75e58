"""Spy estimators and tagged units for the arm monitors."""
import numpy as np

from harness import boot

D = boot.data


def unit_values(ids):
  """Deterministic exposure and response of the units with these ids."""
  ids = np.asarray(ids)
  exp = (ids * 7 // 3) % 2
  rsp = ((ids * 37 + ids // 5) % 64) / 8.0 - 3
  return exp, rsp


def tagged(ids, n_features=2, exp_type=float):
  ids = np.asarray(ids, dtype=np.int64)
  exp, rsp = unit_values(ids)
  cov = np.column_stack([ids * 1.0] +
                        [ids * 0.25 + j for j in range(1, n_features)])
  return D.ExpData(cov, exp.astype(exp_type), rsp.astype(float))


def ids_of(d):
  return [int(i) for i in np.asarray(d.cov)[:, 0]]


def intact(d):
  """Do all fields of every unit still belong together?"""
  ids = np.asarray(d.cov)[:, 0].astype(np.int64)
  exp, rsp = unit_values(ids)
  ok = np.array_equal(np.asarray(d.exp), exp) and np.array_equal(
      np.asarray(d.rsp), rsp)
  for j in range(1, d.cov.shape[1]):
    ok = ok and np.array_equal(d.cov[:, j], ids * 0.25 + j)
  return bool(ok and len(d) == len(ids))


class SpyEta:
  """Records the units it is fitted to and scores.

  The score of a unit depends on the unit and on the set of units of the last
  fit, so that a fit to other units is visible in every estimate.
  """

  def __init__(self, need=1, width=None, offset=0.0, spike=0.0, scale=1.0,
               flat=False):
    self.need = need
    self.scale = scale  # multiplies all scores
    self.flat = flat  # all units have the same score under a fit
    self.spike = spike  # added to the scores of about one unit in 1000
    self.offset = offset  # added to all scores
    self.width = width
    self.events = []
    self.width_calls = []
    self.fitted = None

  def reset(self):
    self.events.append(("reset",))
    self.fitted = None

  def fit(self, d):
    ids = ids_of(d)
    self.events.append(("fit", ids, intact(d)))
    self.fitted = ids

  def has_enough_samples(self):
    return self.fitted is not None and len(self.fitted) >= self.need

  @staticmethod
  def factor(fitted):
    return 1.0 + (sum(fitted) % 13) / 16.0 + (len(fitted) % 5) / 8.0

  def scores(self, ids, fitted):
    if self.flat:
      return np.full(len(ids), self.scale * self.factor(fitted))
    _, rsp = unit_values(np.asarray(ids, dtype=np.int64))
    return self.scale * (
        rsp * self.factor(fitted) + (np.asarray(ids) % 3 == 0) + self.offset +
        (np.asarray(ids) % 997 == 10) * self.spike)

  def calculate_score(self, d):
    ids = ids_of(d)
    out = self.scores(ids, self.fitted)
    self.events.append(("score", ids, intact(d), list(self.fitted)))
    return np.array(out, dtype=float)

  def calculate_cs_width(self, delta, sub_g, rho):
    self.width_calls.append((delta, sub_g, rho))
    return self.true_width(delta, sub_g, rho)

  def true_width(self, delta, sub_g, rho):
    if self.width is not None:
      return self.width
    return float(0.3 * sub_g + 0.01 * rho + 0.05 * np.log(1 / delta))


def held_out(events, received):
  """The (fit ids, scored ids, scores' fit) pairs that partition all units."""
  out = []
  fit = None
  for e in events:
    if e[0] == "fit":
      fit = e
    elif e[0] == "score" and fit is not None:
      f, h = set(fit[1]), set(e[1])
      if not f & h and f | h == received and len(fit[1]) + len(
          e[1]) == len(received):
        out.append((fit[1], e[1]))
  return out
