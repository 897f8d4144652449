"""Process set-up: the code under test is imported from the repository's working tree."""
import os
import sys
import tempfile
import atexit
import shutil
import warnings

REPO = os.environ.get("UNARYSIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"


def setup():
    """Make `import UnarySim` resolve to REPO's working tree, never to a cached byte-code file."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    warnings.filterwarnings("ignore")
    base = tempfile.mkdtemp(prefix="umon_")
    pid = os.getpid()

    def _clean():
        if os.getpid() == pid:
            shutil.rmtree(base, ignore_errors=True)
    atexit.register(_clean)
    os.symlink(os.path.realpath(REPO), os.path.join(base, "UnarySim"))
    sys.pycache_prefix = os.path.join(base, "pyc")
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != "/opt/pypath"]
    sys.path.insert(0, base)
    import torch
    torch.set_num_threads(1)
    return base


def repo_frame(filename):
    """Is this source file part of the code under test?"""
    f = os.path.realpath(filename)
    return f.startswith(os.path.realpath(REPO) + os.sep)
