"""
Loads the library from the working tree of /repo, never from a copy or from stale bytecode.
"""

import importlib
import os
import sys

REPO = os.environ.get("VM_REPO", "/repo")


def load():
    """Imports the package under test from source and returns the root module."""
    sys.dont_write_bytecode = True
    # an unused prefix: existing __pycache__ directories are not consulted
    sys.pycache_prefix = "/nonexistent/vm-pycache"
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    root = importlib.import_module("qctrlopencontrols")
    where = os.path.realpath(root.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("library imported from %s, expected %s" % (where, REPO))
    return root


def source_files():
    """All library source files of the working tree."""
    result = []
    for folder, _, names in os.walk(os.path.join(REPO, "qctrlopencontrols")):
        for name in sorted(names):
            if name.endswith(".py"):
                result.append(os.path.join(folder, name))
    return sorted(result)


class Lib:
    """The public surface used by the monitors."""

    def __init__(self):
        root = load()
        exc = importlib.import_module("qctrlopencontrols.exceptions")
        names = [
            "primitive", "bb1", "sk1", "scrofulous", "corpse", "corpse_in_bb1",
            "corpse_in_sk1", "corpse_in_scrofulous", "wamf1", "modulated_gaussian",
        ]
        self.controls = {n: getattr(root, "new_%s_control" % n) for n in names}
        names = [
            "ramsey", "spin_echo", "carr_purcell", "cpmg", "uhrig", "periodic", "walsh",
            "quadratic", "x_concatenated", "xy_concatenated",
        ]
        self.sequences = {n: getattr(root, "new_%s_sequence" % n) for n in names}
        self.DrivenControl = root.DrivenControl
        self.Sequence = root.DynamicDecouplingSequence
        self.convert = root.convert_dds_to_driven_control
        self.ArgumentsValueError = exc.ArgumentsValueError
        self.QctrlError = exc.QctrlError
