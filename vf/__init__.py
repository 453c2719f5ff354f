"""Contract-based deductive verifier for the real givenergy_modbus source."""

import importlib.machinery
import sys

_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _SolverFinder:
    """Expose z3 (only) from the tooling environment, leaving everything else to the library's own."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "z3":
            return importlib.machinery.PathFinder.find_spec(name, [_TOOLS])
        return None


if not any(f is _SolverFinder for f in sys.meta_path):
    sys.meta_path.append(_SolverFinder)
