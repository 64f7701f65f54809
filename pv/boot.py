"""Make the code under test importable: /repo/src of the working tree."""

from __future__ import annotations

import importlib
import os
import sys

REPO_SRC = os.environ.get("PV_REPO_SRC", "/repo/src")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"


def boot():
    """Import protosym from the working tree; make Hypothesis importable."""
    if sys.path[:1] != [REPO_SRC]:
        sys.path.insert(0, REPO_SRC)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    import protosym

    where = os.path.realpath(protosym.__file__)
    if not where.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError(f"protosym imported from {where}, not from {REPO_SRC}")


def import_all():
    """Import every protosym module (lazily imported ones too)."""
    import pkgutil

    import protosym

    for m in pkgutil.walk_packages(protosym.__path__, "protosym."):
        importlib.import_module(m.name)
