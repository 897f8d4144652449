"""Streaming runs at constant cost: memory, work per cycle, and no autograd history."""
import contextlib
import gc
import pickle
import sys
import types
import weakref
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from .. import env, zoo
from ..capture import float_shifts
from ..util import rs_of, pick

ID = "C38"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one unit run for hundreds of cycles (or calls) with probes: serialised size of the module, number and bytes of live tensors in the "
        "process, number and element count of the tensor operations executed in a cycle, bytes reachable from the library's modules and classes, and the autograd history of outputs; non-trivial when all "
        "probes were taken at four points of the run; the probes after the first window must not grow")
ASSUMPTIONS = ["the first 40 cycles are warm-up (shapes are allocated at the first call)", "size of a pickle may vary by a few bytes with the values of counters"]


class Ops(TorchDispatchMode):
    def __init__(self):
        super().__init__()
        self.n = 0
        self.size = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        r = func(*args, **(kwargs or {}))
        self.n += 1
        if isinstance(r, torch.Tensor):
            self.size += r.numel()
        return r


def cases(tier, seed):
    n, T = (2, 400) if tier == "quick" else (10, 3000)
    out = [{"unit": u, "rep": r, "T": T, "cost": 4 if u in zoo.LAYERS else 1} for u in zoo.ALL for r in range(n if u in zoo.LAYERS else 2 * n)]
    out += [{"unit": u, "rep": r, "T": 30 if u == "hubmgu" else 80, "cost": 4 if u == "hubmgu" else 1} for u in zoo.BINARY for r in range(n)]
    return out


class Lines:
    """lines of the library executed (the interpreter's own line events)"""
    TOOL = 4

    def __enter__(self):
        self.n = 0
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "umon-lines")
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        return self

    def line(self, code, number):
        if not env.repo_frame(code.co_filename):
            return sys.monitoring.DISABLE
        self.n += 1

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


def live():
    gc.collect()
    n = b = 0
    for o in gc.get_objects():
        if issubclass(type(o), torch.Tensor):
            n += 1
            b += o.numel() * o.element_size()
    return n, b


def held():
    """size in bytes of everything the library's modules, classes and functions refer to (containers of other packages excluded)"""
    ours = lambda o: str(getattr(o, "__module__", "")).startswith("UnarySim")
    stack = [vars(m) for n, m in list(sys.modules.items()) if n.startswith("UnarySim") and m is not None]
    seen, size = set(), 0
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (types.ModuleType, types.CodeType, types.FrameType, weakref.ref)) or o is sys.modules:
            continue
        if isinstance(o, (type, types.FunctionType)) and not ours(o):
            continue
        size += sys.getsizeof(o, 0)
        if issubclass(type(o), torch.Tensor):
            size += o.numel() * o.element_size()
            stack.append(vars(o))
        elif isinstance(o, types.FunctionType):     # not its globals: those of an imported module are reached by name
            stack += [o.__dict__, o.__defaults__, o.__kwdefaults__, o.__closure__]
        else:
            stack += gc.get_referents(o)
    return size


def run(c, ctx):
    with float_shifts() if c["unit"] in ("round", "hardmgufxp") else contextlib.nullcontext():
        judged(c, ctx)


def judged(c, ctx):
    rs = rs_of(c)
    T = c["T"]
    if c["unit"] in zoo.ALL:
        u = zoo.make(c["unit"], rs)
        xs = u.stimulus(rs, 60)
        r = u.new()
        m = r.keep["m"]
        step = lambda t: r.call(t, r.inputs(t % 60, xs) if xs else [])
        warm = 40
    else:
        u = zoo.binary(c["unit"], rs)
        m = u.new()
        ins = [u.input(rs, 3) for _ in range(5)]
        step = lambda t: [m(*ins[t % 5])]
        warm = 10
    points = [warm + (T - warm) * k // 3 for k in range(4)]
    probes = []
    kept = []
    grad = c["rep"] % 2 == 0 and c["unit"] in zoo.ALL
    for t in range(points[-1] + 1):
        if t in points:
            kept.append(held())
            with Ops() as ops:
                o = step(t)
            sizes = [(ops.n, ops.size)]
            for k in range(1, 4):           # work may depend on the data: several cycles
                with Ops() as more:
                    step(t + k)
                sizes.append((more.n, more.size))
            lines = []
            for k in range(4, 9):
                with Lines() as ln:
                    step(t + k)
                lines.append(ln.n)
            for v in o:
                if c["unit"] in zoo.ALL and (v.grad_fn is not None or v.requires_grad):
                    ctx.fail("%s: a stream carries autograd history" % u.name, cycle=t)
            del o
            try:
                size = len(pickle.dumps(m))
            except Exception:
                size = -1
            probes.append((t, size, live(), max(sizes), max(s[1] for s in sizes), max(lines)))
        else:
            with torch.no_grad() if not grad and c["unit"] in zoo.ALL else contextlib.nullcontext():
                step(t)
        ctx.event()
    t0, p0, (n0, b0), w0, e0, l0 = probes[0]
    for t, p, (n, b), w, e, ln in probes[1:]:
        d = dict(first_probe=str(probes[0]), this_probe=str((t, p, (n, b), w, e, ln)))
        ctx.check(p <= p0 + 200, "%s: the module grows with the length of the run" % u.name, **d)
        ctx.check(n <= n0 + 3, "%s: live tensors accumulate with the length of the run" % u.name, **d)
        ctx.check(b <= b0 + 2048 + b0 // 10, "%s: tensor memory accumulates with the length of the run" % u.name, **d)
        ctx.check(w[0] <= w0[0] + 2 and e <= e0 * 1.05 + 16, "%s: work per cycle grows with the length of the run" % u.name, **d)
        ctx.check(ln <= l0 * 1.5 + 30, "%s: the code executed per cycle grows with the length of the run" % u.name, **d)
    inc = [b - a for a, b in zip(kept, kept[1:])]       # one pointer kept per call is 8 bytes
    ctx.check(min(inc[1:]) < 4 * (points[1] - points[0]), "%s: what the library's modules and classes hold grows with the length of the run" % u.name,
              bytes_at_the_probes=str(kept))
    ctx.mark(u.name, str([q[1:] for q in probes]))
    ctx.sample = {"unit": u.name, "probes (cycle, pickle bytes, (live tensors, bytes), ops, elements)": [str(q) for q in probes]}
