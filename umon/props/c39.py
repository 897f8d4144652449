"""Separate instances in concurrent threads do not influence each other."""
import contextlib
import sys
import threading
import time
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from .. import zoo
from ..capture import float_shifts
from ..util import rs_of, pick

ID = "C39"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = several threads released together, each building and running its own unit (same or other kinds, same or other shapes) with a tiny "
        "interpreter switch interval; every output is compared with the run made alone; non-trivial when the log of steps (of steps and of tensor operations inside them) shows at least 10 switches "
        "between threads; distinct interleavings are counted")
ASSUMPTIONS = ["one instance is used by one thread at a time", "deterministic number sequences", "CPython with its global interpreter lock"]
NAMES = zoo.ALL + [n for n in zoo.BINARY if n not in ("hardmgu", "hardmgufxp")]      # those draw their weights from the global random state


def cases(tier, seed):
    n = 3 if tier == "quick" else 30
    out = [{"units": [u] * 4, "rep": r, "cost": 5} for u in NAMES for r in range(n)]
    rs = np.random.RandomState(seed + 5)
    out += [{"units": [NAMES[i] for i in rs.choice(len(NAMES), 5)], "rep": r, "cost": 6} for r in range(10 * n)]
    return out


class Pause(TorchDispatchMode):
    """Gives way to the other threads at random tensor operations inside the calls."""
    def __init__(self, seed, log, k, sleep=True):
        super().__init__()
        self.sleep = sleep
        self.rs, self.log, self.k = np.random.RandomState(seed), log, k

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.log.append(self.k)
        r = func(*args, **(kwargs or {}))
        if self.sleep and self.rs.rand() < .2:
            time.sleep(0 if self.rs.rand() < .7 else 2e-5)
        return r


class Job:
    def __init__(self, name, rs, T):
        self.name = name
        if name in zoo.ALL:
            u = zoo.make(name, rs)
            xs = u.stimulus(rs, T)
            def start():
                r = u.new()
                return lambda t: r.step(t, xs)
        else:
            u = zoo.binary(name, rs)
            ins = [u.input(rs) for _ in range(T if name != "hubmgu" else 3)]
            self.T = len(ins)

            def start():
                m = u.new()

                def step(t):
                    a = [None if v is None else v.clone() for v in ins[t]]
                    back = name in zoo.TRAINED and t % 3 == 0
                    if back:
                        a = [v.requires_grad_(True) for v in a]
                        for p in (m.weight, m.bias):
                            if p is not None:
                                p.grad = None
                    y = m(*a)
                    if back:
                        y.sum().backward()
                        return [y.detach(), a[0].grad, m.weight.grad.clone()]
                    return [y.detach()]
                return step
        self.start = start
        self.T = getattr(self, "T", T)
        self.alone = self.go([], 0)
        # PyTorch makes the Python objects of its operators on first use, and not thread-safely: have them made before the threads start
        with Pause(0, [], 0, False):
            self.go([], 0)

    def go(self, log, k):
        step = self.start()
        out = []
        for t in range(self.T):
            log.append(k)
            out.append([v.detach().to(torch.float64).numpy().copy() for v in step(t)])
        return out


def run(c, ctx):
    rs = rs_of(c)
    with float_shifts() if "round" in c["units"] else contextlib.nullcontext():
        T = int(pick(rs, [12, 25]))
        same = rs.rand() < .4
        first = np.random.RandomState(rs.randint(1 << 30))
        st = first.get_state()
        jobs = []
        for u in c["units"]:
            r = np.random.RandomState()
            r.set_state(st)
            jobs.append(Job(u, r if same and len(set(c["units"])) == 1 and len(jobs) < 2 else np.random.RandomState(rs.randint(1 << 30)), T))
        log, res, errs = [], [None] * len(jobs), []
        pause, seeds = rs.rand() < .8, [int(v) for v in rs.randint(1 << 30, size=len(jobs))]
        gate = threading.Barrier(len(jobs))

        def work(k):
            try:
                torch.set_num_threads(1)
                gate.wait()
                with Pause(seeds[k], log, k) if pause else contextlib.nullcontext():
                    res[k] = jobs[k].go(log, k)
            except BaseException as e:
                errs.append((k, e))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            th = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
            [t.start() for t in th]
            [t.join() for t in th]
        finally:
            sys.setswitchinterval(old)
        if errs and "'OpOverload' object" in str(errs[0][1]):
            ctx.note("pytorch_operator_not_ready")
            return
        if errs:
            raise errs[0][1]
        for k, j in enumerate(jobs):
            for t in range(j.T):
                ctx.event()
                for a, b in zip(res[k][t], j.alone[t]):
                    ctx.eq(a, b, "%s run next to %s" % (j.name, c["units"]), cycle=t)
        sw = sum(a != b for a, b in zip(log, log[1:]))
        ctx.note("thread_switches", sw)
        ctx.state(str(log))
        if sw >= 10:
            ctx.mark(str(log))
        ctx.sample = {"units": c["units"], "steps": len(log), "switches": sw}
