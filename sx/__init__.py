"""Bounded concolic/symbolic execution of the real whatami code, decided by an SMT solver."""
from . import sched  # noqa (before whatami is imported)
