"""Watches what a stretch of code does to the process: random states, settings, files, processes, printed text.  Does not import the library."""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings
import numpy as np
import torch
from .util import pick

SEEN = []
WATCH = [False]
BAD = ("subprocess.Popen", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.chmod", "os.putenv",
       "os.unsetenv", "os.truncate", "os.kill", "shutil.rmtree", "shutil.move", "shutil.copyfile", "socket.connect", "socket.bind", "tempfile.mkstemp", "tempfile.mkdtemp",
       "signal.pthread_kill", "sys.addaudithook", "gc.collect")


def _audit(ev, args):
    if not WATCH[0]:
        return
    if ev == "open":
        mode, flags = args[1], args[2]
        w = (mode is not None and any(ch in str(mode) for ch in "wax+")) or (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if not w:
            return
    elif ev not in BAD:
        return
    f = sys._getframe(1)
    while f is not None:
        if "importlib" in f.f_code.co_filename:
            return
        f = f.f_back
    SEEN.append("%s %s" % (ev, str(args)[:80]))


def audit():
    if not getattr(sys, "_umon_audit", False):
        sys._umon_audit = True
        sys.addaudithook(_audit)


def randoms():
    s = np.random.get_state()
    return {"PyTorch's random state": torch.get_rng_state().numpy().tobytes(), "numpy's random state": (s[1].tobytes(),) + tuple(s[2:]),
            "Python's random state": random.getstate()}


def settings():
    o = torch._tensor_str.PRINT_OPTS
    return {"gradient recording": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(), "default number type": torch.get_default_dtype(),
            "threads": torch.get_num_threads(), "print options": (o.precision, o.threshold, o.edgeitems, o.linewidth, o.sci_mode),
            "numpy print options": repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())), "numpy error handling": repr(np.geterr()),
            "warning filters": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters], "environment": dict(os.environ), "working directory": os.getcwd(),
            "deterministic algorithms": (torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled()),
            "anomaly detection": torch.is_anomaly_enabled(), "default device": str(torch.empty(0).device), "recursion limit": sys.getrecursionlimit(),
            "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)], "live threads": threading.active_count(),
            "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable), "garbage collector": (gc.isenabled(), gc.get_threshold()),
            "module path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL), "decimal context": repr(decimal.getcontext()), "trace hooks": (sys.gettrace(), sys.getprofile()),
            "matrix precision": torch.get_float32_matmul_precision(), "denormals": float((torch.tensor(1e-40) * 2).item()) != 0,
            "autocast": (torch.is_autocast_enabled("cpu"), torch.get_autocast_dtype("cpu")), "display hooks": (sys.displayhook, sys.excepthook),
            "tensor class": (torch.Tensor.__repr__, torch.Tensor.__add__, torch.nn.Module.__call__), "switch interval": sys.getswitchinterval()}


def compare(ctx, before, after, what):
    for k in before:
        ctx.values += 1
        if before[k] != after[k]:
            ctx.fail("%s changes %s of the process" % (what, k), before=str(before[k])[:200], after=str(after[k])[:200])


@contextlib.contextmanager
def surroundings(rs, names):
    """random values of settings that must not matter, put back afterwards"""
    with contextlib.ExitStack() as st:
        for n in names:
            if n == "print":
                o = torch._tensor_str.PRINT_OPTS
                old = dict(precision=o.precision, threshold=o.threshold, edgeitems=o.edgeitems, linewidth=o.linewidth, sci_mode=o.sci_mode)
                torch.set_printoptions(precision=int(rs.randint(1, 9)), threshold=int(rs.randint(2, 30)), edgeitems=int(rs.randint(1, 5)), linewidth=int(rs.randint(40, 200)), sci_mode=bool(rs.rand() < .5))
                st.callback(lambda old=old: torch.set_printoptions(**old))
                st.enter_context(np.printoptions(precision=int(rs.randint(1, 9)), suppress=bool(rs.rand() < .5), linewidth=int(rs.randint(40, 200))))
            elif n == "warnings":
                st.enter_context(warnings.catch_warnings())
                warnings.resetwarnings()
                warnings.simplefilter("ignore", category=pick(rs, [Warning, UserWarning, DeprecationWarning]))
                warnings.filterwarnings("ignore")
            elif n == "numpy errors":
                st.enter_context(np.errstate(all=pick(rs, ["ignore", "warn"])))
            elif n == "threads":
                old = torch.get_num_threads()
                torch.set_num_threads(int(rs.randint(2, 5)))
                st.callback(lambda old=old: torch.set_num_threads(old))
            elif n == "deterministic":
                torch.use_deterministic_algorithms(True)
                st.callback(lambda: torch.use_deterministic_algorithms(False))
            elif n == "anomaly":
                st.enter_context(torch.autograd.set_detect_anomaly(True, check_nan=False))
            elif n == "no_grad":
                st.enter_context(torch.no_grad())
            elif n == "inference":
                st.enter_context(torch.inference_mode())
            elif n == "device":
                st.enter_context(torch.device("cpu"))
            elif n == "recursion":
                old = sys.getrecursionlimit()
                sys.setrecursionlimit(old + int(rs.randint(1, 500)))
                st.callback(lambda old=old: sys.setrecursionlimit(old))
            elif n == "logging":
                old = logging.root.level
                logging.root.setLevel(int(rs.randint(1, 60)))
                st.callback(lambda old=old: logging.root.setLevel(old))
            elif n == "precision":
                old = torch.get_float32_matmul_precision()
                torch.set_float32_matmul_precision(pick(rs, ["highest", "high"]))
                st.callback(lambda old=old: torch.set_float32_matmul_precision(old))
            elif n == "gc":
                old = gc.get_threshold()
                gc.set_threshold(int(rs.randint(1, 900)), 7, 9)
                st.callback(lambda old=old: gc.set_threshold(*old))
            elif n == "decimal":
                st.enter_context(decimal.localcontext(decimal.Context(prec=int(rs.randint(2, 9)))))
            elif n == "directory":
                old = os.getcwd()
                os.chdir(pick(rs, ["/", "/tmp", "/usr"]))
                st.callback(lambda old=old: os.chdir(old))
            elif n == "environment":
                os.environ["UMON_NOTE"] = str(rs.randint(99))
                st.callback(lambda: os.environ.pop("UMON_NOTE", None))
        yield


class Watch:
    """one watched stretch: what it printed and opened, and which random states and settings it changed"""
    def __init__(self, ctx, what, draws=()):
        self.ctx, self.what, self.draws = ctx, what, draws

    def __enter__(self):
        audit()
        del SEEN[:]
        self.r, self.s = randoms(), settings()
        self.out, self.err = io.StringIO(), io.StringIO()
        self.old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.out, self.err
        WATCH[0] = True
        return self

    def __exit__(self, *exc):
        WATCH[0] = False
        moved = (sys.stdout, sys.stderr) != (self.out, self.err)
        sys.stdout, sys.stderr = self.old
        if exc[0] is not None:
            return False
        self.ctx.check(not moved, "%s redirects the standard streams" % self.what)
        compare(self.ctx, self.s, settings(), self.what)
        compare(self.ctx, {k: v for k, v in self.r.items() if not any(k.startswith(d) for d in self.draws)}, randoms(), self.what)
        self.ctx.check(not SEEN, "%s touches files or processes" % self.what, seen=list(SEEN[:5]))
        return False
