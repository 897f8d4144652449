"""Drive a streaming module and its reference automaton in lock step (the online monitor)."""
import numpy as np
import torch
from .util import tt, DT, noncontig, laid, LAYOUTS


def lockstep(ctx, module, spec, inputs, stype, what, names=("out",), want_dtype=None, view=None, **detail):
    """inputs: list of [T, ...] bit arrays; module(*bits_t) and spec.step(*bits_t) are compared every cycle.

    Inputs are checked to be unmodified, earlier outputs to stay what they were.  Returns the output bits.
    In some runs the caller keeps one buffer per input and refills it every cycle; in some it calls without gradients;
    in some the inputs are views (transposed, strided, offset, broadcast), parameters or numpy memory.
    """
    T = len(inputs[0])
    rs = np.random.RandomState(T + int(sum(int(x.sum()) for x in inputs)))
    reuse = bufs = None
    if rs.rand() < .3:
        reuse = True
    nograd = rs.rand() < .3
    # two inputs wired to the same tensor, throughout or in stretches (where they carry the same bits, it may be one object)
    fan = rs.rand() < .5
    if len(inputs) == 2 and rs.rand() < .15 and inputs[1].flags.writeable and inputs[0].shape == inputs[1].shape and inputs[0][0].size < 2000:
        lo = 0 if rs.rand() < .5 else int(rs.randint(T))
        hi = T if rs.rand() < .5 else int(rs.randint(lo, T)) + 1
        inputs[1][lo:hi] = inputs[0][lo:hi]
    # two views of one buffer that start at the same element and differ in every other one
    lap = False
    if len(inputs) == 2 and rs.rand() < .12 and inputs[1].flags.writeable and inputs[1].flags.c_contiguous and inputs[0].shape == inputs[1].shape and inputs[0][0].size <= 64:
        lap = True
        inputs[1].reshape(T, -1)[:, 0] = inputs[0].reshape(T, -1)[:, 0]
    how = [LAYOUTS[rs.randint(len(LAYOUTS))] for _ in inputs] if rs.rand() < .3 else None
    outs = [[] for _ in names]
    held = []
    for t in range(T):
        xs = [tt(x[t], stype) for x in inputs]
        if lap:
            n = xs[0].numel()
            buf = torch.full((n * n,), 1, dtype=xs[0].dtype)
            buf[::n] = xs[1].reshape(-1)
            buf[:n] = xs[0].reshape(-1)
            xs = [buf[:n].view(xs[0].shape), buf.as_strided((n,), (n,)).view(xs[1].shape)]
        if view and not lap:
            xs = [noncontig(x) for x in xs]
        if how and not lap:
            xs = [laid(x, h) for x, h in zip(xs, how)]
        if fan and not reuse and not lap and len(xs) == 2 and np.array_equal(inputs[0][t], inputs[1][t]):
            xs[1] = xs[0]
        if reuse and not lap:
            if bufs is None:
                bufs = xs
            else:
                for j, (b, x) in enumerate(zip(bufs, xs)):
                    if 0 in b.stride() and b.numel():        # several elements of an expanded buffer share memory
                        bufs[j] = x
                    else:
                        b.copy_(x)
                xs = bufs
        if nograd:
            with torch.no_grad():
                o = module(*xs)
        else:
            o = module(*xs)
        ctx.event()
        w = spec.step(*[x[t] for x in inputs])
        if len(names) == 1:
            o, w = (o,), (w,)
        if not isinstance(o, (tuple, list)) or len(o) != len(names):
            ctx.fail("%s: number of outputs" % what, cycle=t)
        for j, nm in enumerate(names):
            ctx.eq(o[j], w[j], "%s %s" % (what, nm), dtype=want_dtype or DT[stype], cycle=t, **detail)
            outs[j].append(np.asarray(w[j]))
        for j, x in enumerate(xs):
            if not np.array_equal(x.to(torch.float64).numpy(), inputs[j][t].astype(np.float64)):
                ctx.fail("%s changed its input" % what, cycle=t)
        if t % 7 == 3:
            held.append((t, o[0], np.asarray(w[0])))
    for t, o, w in held:
        ctx.eq(o, w, "%s: an earlier output changed later" % what, cycle=t)
    return [np.stack(o) for o in outs]
