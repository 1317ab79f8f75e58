"""Imports the package under test from the working tree of the repository.

VERIF_REPO (default /repo) names the tree; it exists only so that the author can
run the checks on scratch copies. The sources are always compiled from the
files as they are now: no byte code is read or written for them.
"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
  os.environ.setdefault(_v, "1")
os.environ["MPLBACKEND"] = "Agg"

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = os.path.join(REPO, "causal_effect_bandits")

_scratch = None


def _prepare():
  global _scratch
  import atexit
  import shutil
  import tempfile
  import warnings
  _scratch = tempfile.mkdtemp(prefix="verif-mpl-")
  atexit.register(shutil.rmtree, _scratch, True)
  os.environ["MPLCONFIGDIR"] = _scratch
  # Third-party packages first, with their cached byte code ...
  import numpy  # pylint: disable=unused-import
  import scipy.stats  # pylint: disable=unused-import
  import sklearn.ensemble  # pylint: disable=unused-import
  import sklearn.gaussian_process  # pylint: disable=unused-import
  import sklearn.kernel_ridge  # pylint: disable=unused-import
  import sklearn.linear_model  # pylint: disable=unused-import
  import matplotlib
  matplotlib.use("Agg")
  import matplotlib.pyplot  # pylint: disable=unused-import
  import mpl_toolkits.mplot3d  # pylint: disable=unused-import
  from absl import logging
  logging.set_verbosity(logging.FATAL)
  warnings.filterwarnings("ignore")
  numpy.seterr(all="ignore")
  # ... then the repository's own sources, never from cached byte code.
  sys.dont_write_bytecode = True
  sys.pycache_prefix = os.path.join(_scratch, "no-such-cache")
  sys.path.insert(0, REPO)


_prepare()

from causal_effect_bandits import arms  # pylint: disable=wrong-import-position
from causal_effect_bandits import bandits
from causal_effect_bandits import data
from causal_effect_bandits import example_scm
from causal_effect_bandits import nonlinear_utils
from causal_effect_bandits import paper_utils
from causal_effect_bandits import parameters
from causal_effect_bandits import plotting_utils
from causal_effect_bandits import scm

for _m in (arms, bandits, data, example_scm, nonlinear_utils, paper_utils,
           parameters, plotting_utils, scm):
  if not os.path.realpath(_m.__file__).startswith(PKG + os.sep):
    print(f"harness error: {_m.__name__} was loaded from {_m.__file__}, "
          f"not from {PKG}", file=sys.stderr)
    sys.exit(2)
