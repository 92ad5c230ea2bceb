"""Environment of a check: code under test from /repo, Hypothesis from the
tooling venv (appended last so that the numpy/scipy of the venv win)."""

import os
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup() -> None:
    """Set sys.path and check that the right code is imported."""
    while REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)
    sys.dont_write_bytecode = True
    import matplotlib

    matplotlib.use("Agg")
    import puncturedfem

    where = os.path.realpath(puncturedfem.__file__)
    if not where.startswith(REPO + "/"):
        raise RuntimeError("puncturedfem imported from " + where)
    import hypothesis  # noqa: F401  pylint: disable=unused-import
