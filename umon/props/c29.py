"""Stochastic cross correlation."""
import numpy as np
import torch
from UnarySim.metric.metric import Correlation
from .. import stim
from ..util import rs_of, pick, tt, DT, laid, LAYOUTS

ID = "C29"
RULE = ("one case = a pair of streams (or one stream against its own delay) of one shape, length and relation, read at random cycles, or all "
        "pairs of short streams; non-trivial when values above and below zero or several values occur; every element is compared at every read")
ASSUMPTIONS = ["streams shorter than 4096 cycles (exact counters)", "float32 noise 1e-6"]


def scc(a, b, c, d):
    a, b, c, d = [v.astype(np.int64) for v in (a, b, c, d)]
    n = a + b + c + d
    num = a * d - b * c
    den = np.where(num > 0, n * np.minimum(a + b, a + c) - (a + b) * (a + c), (a + b) * (a + c) - n * np.maximum(a - d, 0))
    return num / np.maximum(den, 1)


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = [{"k": "exh", "n": n} for n in range(1, 6 if tier == "quick" else 8)]
    for rep in range(600 if tier == "quick" else 3000):
        out.append({"k": pick(rs, ["pair", "pair", "self"]), "rel": pick(rs, ["indep", "same", "inv", "sub", "lag", "mostly"]), "st": pick(rs, list(DT)), "st2": pick(rs, list(DT)),
                    "shape": list(pick(rs, stim.SHAPES)), "T": int(pick(rs, [1, 2, 17, 64, 257, 500, 500, 1100])), "rep": rep})
    for k in ("pair", "self"):
        out.append({"k": k, "rel": "indep", "st": "f32", "st2": "f32", "shape": [6], "T": 4000, "long": True, "rep": 0, "cost": 40})
    return out


def run(c, ctx):
    rs = rs_of(c)
    single = c["k"] == "self"
    if c["k"] == "exh":
        x, y = stim.exhaustive(c["n"], 2)
        T, st, st2 = c["n"], "f32", "f32"
    else:
        T, st, st2 = c["T"], c["st"], c["st2"]
        if not c.get("long") and c["rep"] % 50 == 7:
            c = dict(c, shape=[pick(rs, [5000, 4097, 20000])])
            T = min(T, 40)
        x = stim.long(rs, T)[0] if c.get("long") else stim.mix(rs, T, c["shape"])
        r = c["rel"]
        z = stim.long(rs, T)[0] if c.get("long") else stim.mix(rs, T, c["shape"])
        y = {"indep": z, "same": x, "inv": 1 - x, "sub": x & z, "lag": np.concatenate([x[:1] * 0, x[:-1]]), "mostly": x ^ (rs.rand(*x.shape) < .1).astype(np.uint8)}[r]
    if single:
        y = np.concatenate([np.zeros_like(x[:1]), x[:-1]])
    m = Correlation()
    back = None if single else Correlation()
    how = pick(rs, [None, None, *[h for h in LAYOUTS if h != "expanded"]])
    alias = not single and st == st2 and rs.rand() < .5
    seen = []
    for t in range(T):
        a, b = laid(tt(x[t], st), how, rs), laid(tt(y[t], st2), how, rs)
        if alias and np.array_equal(x[t], y[t]):
            b = a           # one tensor for both streams
        if single:
            m.Monitor(a)
        else:
            m.Monitor(a, b)
            back.Monitor(b, a)
        ctx.event()
        ctx.check(np.array_equal(a.double().numpy(), x[t]), "monitoring changes the stream")
        a.fill_(1)          # the caller may reuse its buffer
        if t == T - 1 or rs.rand() < .2:
            got = m()
            ctx.event()
            X, Y = x[:t + 1].astype(np.int64), y[:t + 1].astype(np.int64)
            n11, n10, n01 = (X * Y).sum(0), (X * (1 - Y)).sum(0), ((1 - X) * Y).sum(0)
            n00 = t + 1 - n11 - n10 - n01
            want = scc(n11, n10, n01, n00)
            ctx.close(got, want, 1e-6, "correlation", cycle=t, kind=c["k"])
            g = ctx.num(got)
            ctx.check(np.all(np.abs(g) <= 1 + 1e-6), "correlation is within [-1, 1]", worst=float(np.abs(g).max()))
            if not single:
                ctx.close(back(), want, 1e-6, "correlation is symmetric")
                var = (X.sum(0) > 0) & (X.sum(0) < t + 1)
                if c.get("rel") == "same":
                    ctx.close(g[var], np.ones(int(var.sum())), 1e-6, "identical streams correlate fully")
                elif c.get("rel") == "inv":
                    ctx.close(g[var], -np.ones(int(var.sum())), 1e-6, "complementary streams correlate negatively")
                ctx.check(np.all(g[~var] == 0), "a constant stream has no correlation")
            seen.append(want)
    v = np.concatenate([s.reshape(-1) for s in seen])
    ctx.note("positive", int((v > 0).sum()))
    ctx.note("negative", int((v < 0).sum()))
    if np.ptp(v) > 0:
        ctx.mark(c["k"], c.get("rel"), v[:200])
    ctx.sample = {"T": T, "scc": seen[-1].reshape(-1)[:4].tolist()}
