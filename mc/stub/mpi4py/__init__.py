"""Simulated mpi4py: see MPI.py."""
__version__ = "4.1.2+mc"
from . import MPI  # noqa: F401


def get_include():
    import os
    return os.path.join(os.path.dirname(os.path.dirname(__file__)), "include")
