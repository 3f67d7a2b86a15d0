"""Brings the real neutrinomass package of the working tree into this process.

The repository does not ship ``database/democratic.p`` (and so ``import
neutrinomass`` stops at that file).  While, and only while, the package is being
imported and that one file is absent, an empty table is served for it.  Every
other file the package reads at start-up is read for real.
"""

import builtins
import contextlib
import io
import os
import pickle
import sys
import warnings

REPO = os.environ.get("NM_REPO", "/repo")
PKG = os.path.join(REPO, "neutrinomass")

_real_open = builtins.open
_real_io_open = io.open


@contextlib.contextmanager
def missing_table_served():
    missing = os.path.join(PKG, "database", "democratic.p")
    if os.path.exists(missing):
        yield
        return

    prev_b, prev_i = builtins.open, io.open

    def serve(prev):
        def opener(file, mode="r", *a, **k):
            try:
                same = os.path.abspath(os.fspath(file)) == missing
            except TypeError:
                same = False
            if same and "r" in mode:
                return io.BytesIO(pickle.dumps({}))
            return prev(file, mode, *a, **k)

        return opener

    builtins.open, io.open = serve(prev_b), serve(prev_i)
    try:
        yield
    finally:
        builtins.open, io.open = prev_b, prev_i


def load():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from sim import seams

    seams.install_locks(PKG + os.sep)
    with missing_table_served():
        bring_in()
    from sim import faster

    faster.install()
    return sys.modules["neutrinomass"]


def bring_in():
    """All of the package a user starts with."""
    import neutrinomass

    here = os.path.dirname(os.path.abspath(neutrinomass.__file__))
    if os.path.realpath(here) != os.path.realpath(PKG):
        raise RuntimeError("imported %s, wanted %s" % (here, PKG))
    import neutrinomass.completions
    import neutrinomass.tensormethod
    import neutrinomass.tensormethod.lagrangian
    import neutrinomass.database.database
    import neutrinomass.database.export
    import neutrinomass.database.closures
