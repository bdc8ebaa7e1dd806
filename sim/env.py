"""Process set-up: which code is under test, and the seams the simulator owns.

The code under test is always /repo's working tree (``/repo/src``).  The seams
are all outside the repository:

* ``builtins.open`` / ``io.open`` / ``os.replace`` / ``os.rename`` / ``os.fsync``
  -> :mod:`sim.disk` (only paths below the run's scratch directory are touched)
* ``sys.settrace`` line events in the library's files -> :mod:`sim.sched`
  (who runs next, and where an interrupt lands)
* ``threading.Lock`` / ``RLock`` -> cooperative locks, so that a lock added to
  the library cannot deadlock the simulated scheduler
* ``set`` inside the library's modules -> a set whose iteration order is chosen
  by the run's seed (class objects hash by address, so their real set order is
  not reproducible)
* ``gc`` -> automatic collection is off; the run decides when it happens
"""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "aligned_textgrid") + os.sep

_done = False


def load():
    """Import the code under test once, with the seams in place."""
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    os.environ.setdefault("POLARS_MAX_THREADS", "1")
    # third-party code first: it keeps the real primitives
    import numpy, polars, cloudpickle, toml, praatio.textgrid  # noqa: F401
    from . import sched
    sched.install_locks()
    if SRC not in sys.path or sys.path[0] != SRC:
        sys.path.insert(0, SRC)
    import aligned_textgrid
    real = os.path.realpath(aligned_textgrid.__file__)
    if not real.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError("wrong aligned_textgrid: " + real)
    import pkgutil
    import importlib
    for m in pkgutil.walk_packages(aligned_textgrid.__path__, "aligned_textgrid."):
        importlib.import_module(m.name)
    from . import setorder
    setorder.install()
    import gc
    gc.disable()
