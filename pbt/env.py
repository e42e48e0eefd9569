"""Process set-up shared by workers and replays: import path, jax, silence."""
import os
import sys


def setup():
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    vend = os.path.join(verif, "vendor")
    for p in (verif, repo):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, verif)
    sys.path.insert(0, repo)
    if vend not in sys.path:
        sys.path.append(vend)
    import jax
    jax.config.update("jax_enable_x64", True)
    jax.config.update("jax_platforms", "cpu")
    import ormatex_py
    got = os.path.realpath(ormatex_py.__file__)
    assert got.startswith(repo + os.sep), (got, repo)


def environ(tmp):
    """Environment for a worker process."""
    e = dict(os.environ)
    e.update({
        "HOME": e.get("HOME", "/root"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(tmp, "pyc"),
        "PYTHONHASHSEED": "0",
        "JAX_PLATFORMS": "cpu",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(tmp, "mpl"),
        "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
                     "--xla_backend_optimization_level=1",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "TF_CPP_MIN_LOG_LEVEL": "2",
        "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(tmp, "hyp"),
    })
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    e["PYTHONPATH"] = verif
    return e
