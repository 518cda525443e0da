"""Process environment for the code under test.  Import this before jax / skillmodels."""
import os
import sys

REPO = os.environ.get("SKILLMODELS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("MPLBACKEND", "Agg")
    # low optimization: 2x faster compilation, same semantics; one thread per worker
    os.environ["XLA_FLAGS"] = (
        "--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false"
    )
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[var] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)


def load():
    """Import the package under test and make sure it is the working tree's."""
    setup()
    import warnings

    warnings.simplefilter("ignore")
    import skillmodels

    path = os.path.realpath(skillmodels.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"skillmodels imported from {path}, not {REPO}")
    return skillmodels
