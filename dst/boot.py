"""Process set-up: environment, imports of the code under test, and the seams.

Every seam the simulator owns is installed here, from outside /repo:
  * the numpy namespace each effector module sees (allocation faults, yields, RNG log)
  * pyplot.subplots / figure / show (GUI faults)
  * tqdm's clock and stderr (virtual clock, no monitor thread)
  * the stdout stream the library prints to
The model and Jacobian callables are seams the code already has.
"""
import os
import sys

REPO = os.path.abspath(os.environ.get("DST_REPO", "/repo"))
_ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
}


def reexec_if_needed():
    """Fix everything that must be set before the interpreter starts."""
    want = dict(_ENV)
    want["PYTHONHASHSEED"] = os.environ.get("DST_HASHSEED", "0")
    if any(os.environ.get(k) != v for k, v in want.items()):
        env = dict(os.environ)
        env.update(want)
        os.execve(sys.executable, [sys.executable] + sys.orig_argv[1:], env)


def boot(need_shap=False):
    for k, v in _ENV.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    # never trust byte code left behind in the working tree
    sys.pycache_prefix = "/nonexistent/dst-pycache"
    import tempfile
    if "MPLCONFIGDIR" not in os.environ:
        d = os.path.join(tempfile.gettempdir(), "dst-mpl-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        os.environ["MPLCONFIGDIR"] = d
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import matplotlib
    matplotlib.use("Agg", force=True)
    matplotlib.rcParams["figure.max_open_warning"] = 0
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import effector
    if not os.path.abspath(effector.__file__).startswith(REPO + os.sep):
        raise RuntimeError("effector was imported from %s, not from %s" % (effector.__file__, REPO))
    import effector.interaction  # noqa: F401
    import numpy as np
    np.seterr(all="ignore")
    from . import sim
    sim.install_seams()
    if need_shap:
        warm_shap()


def warm_shap():
    """Trigger numba's JIT in the parent, through shap alone, so forked workers inherit it."""
    import numpy as np
    import shap
    rs = np.random.RandomState(0)
    st = np.random.get_state()
    x = rs.rand(6, 3)
    f = lambda a: a[:, 0] * a[:, 1] + a[:, 2]
    shap.Explainer(f, x)(x, silent=True)
    x = rs.rand(3, 11)
    f = lambda a: a.sum(axis=1)
    shap.Explainer(f, x)(x, silent=True)
    np.random.set_state(st)
