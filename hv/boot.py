"""Process set-up shared by the parent and the workers: locations, hermetic environment, imports."""
import os
import sys
import tempfile
import atexit
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WHEELS = "/opt/veriftools/wheels"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def child_env(hashseed="0"):
    """Environment of a process that imports the code under test."""
    env = dict(os.environ)
    env.update({
        "PYTHONHASHSEED": hashseed,
        "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg",
        "SDL_VIDEODRIVER": env.get("HV_SDL", "dummy"),
        "SDL_AUDIODRIVER": "dummy",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "PYGAME_HIDE_SUPPORT_PROMPT": "1",
        "HV_REEXEC": "1", "HV_REEXEC2": "1",
    })
    env.pop("OFFSCREEN_RENDERING", None)
    return env


def ensure_hypothesis():
    lib = os.path.join(HERE, ".lib")
    if os.path.isdir(os.path.join(lib, "hypothesis")):
        sys.path.append(lib)
    else:
        sys.path.append(VT_SITE)
    import hypothesis  # noqa: F401
    # keep the analysis venv from providing anything the code under test could import
    return hypothesis


def import_repo():
    """Import highway_env from the working tree of REPO, never from a stale bytecode cache."""
    cache = tempfile.mkdtemp(prefix="hv_pyc_")
    atexit.register(shutil.rmtree, cache, ignore_errors=True)
    sys.pycache_prefix = cache
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import gym
    gym.logger.set_level(50)
    import highway_env
    got = os.path.realpath(highway_env.__file__)
    want = os.path.realpath(os.path.join(REPO, "highway_env", "__init__.py"))
    if got != want:
        raise RuntimeError("imported %s instead of %s" % (got, want))
    import highway_env.envs  # noqa: F401
    return highway_env
