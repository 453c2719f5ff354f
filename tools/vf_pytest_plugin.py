"""pytest plugin: import the instrumented library (no symbolic context active)."""
import sys

sys.path.insert(0, "/verif")
from vf import instrument

instrument.install("/repo")
