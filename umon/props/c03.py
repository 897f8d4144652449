"""RawScale."""
import numpy as np
import torch
from UnarySim.stream import RawScale
from ..util import rs_of, pick, anyhow

ID = "C03"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = "one case = one data distribution, shape and quantile; non-trivial when the data are not constant; every element is compared"
ASSUMPTIONS = ["linear-interpolation quantiles (numpy) are the reference; tolerance 1e-4 of the value plus float32 noise"]
DISTS = ["normal", "uniform", "pos", "neg", "outlier", "const", "zeros", "zero_inflated", "tiny", "huge", "two", "int", "single", "onesided"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(180 if tier == "quick" else 1500):
        for d in DISTS:
            out.append({"dist": d, "q": float(pick(rs, [1, 1, 0.999, 0.99, 0.95, 0.9, 0.75, 0.5, 0.2, 0.05])), "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    shape = [(16,), (5, 7), (3, 4, 5), (2, 3, 4, 5), (1000,), (257, 33), (1,), (2,), (3, 1), (300, 400), (70001,), (9, 30000), (1, 1, 1, 1), (2, 1, 40), ()][rs.choice(15, p=[.08] * 10 + [.01, .01, .06, .06, .06])]
    d = c["dist"]
    x = rs.randn(*shape)
    if d == "uniform":
        x = rs.rand(*shape) * 2 - 1
    elif d == "pos":
        x = np.abs(x) + .1
    elif d == "neg":
        x = -np.abs(x) - 3
    elif d == "outlier":
        x = np.where(rs.rand(*shape) < .03, x * 1000, x)
    elif d == "const":
        x = np.full(shape, rs.randn() * 5)
    elif d == "zeros":
        x = np.zeros(shape)
    elif d == "zero_inflated":
        x = np.where(rs.rand(*shape) < .97, 0, x)
    elif d == "tiny":
        x = x * 1e-20
    elif d == "huge":
        x = x * 1e20
    elif d == "two":
        x = np.where(rs.rand(*shape) < .5, -1.5, 4.0)
    elif d == "int":
        x = rs.randint(-9, 10, size=shape).astype(float)
    elif d == "single":
        x = rs.randn(*((1,) if shape else ()))
    elif d == "onesided":
        x = np.where(rs.rand(*shape) < .5, 0, np.abs(x) * rs.choice([-1, 1]))
    x = np.asarray(x, np.float32)
    t = torch.from_numpy(x.copy())
    t = anyhow(t, rs, .4)
    if rs.rand() < .2:
        t = t.to(torch.float64)
    if rs.rand() < .2:
        t = t.clone().requires_grad_()
    m = RawScale({"quantile": c["q"]})
    y = m(t)
    ctx.event()
    ctx.eq(t, x, "input after scaling")
    g = ctx.num(y, "scaled data").astype(np.float64)
    X = x.astype(np.float64)
    lo, hi = np.quantile(X, 0.5 - c["q"] / 2), np.quantile(X, 0.5 + c["q"] / 2)
    s = max(abs(lo), abs(hi))
    ctx.check(np.all(np.isfinite(g)), "scaled data are finite", got=g, lo=lo, hi=hi)
    ctx.check(g.shape == X.shape, "shape preserved", got=str(g.shape))
    ctx.check(np.all(np.abs(g) <= 1 + 1e-5), "scaled data lie in [-1,1]", got=g)
    # order is preserved (weakly)
    o = np.argsort(X.reshape(-1), kind="stable")
    ctx.check(np.all(np.diff(g.reshape(-1)[o]) >= 0), "order preserved", got=g)
    spread = np.abs(X).max() * 2e-6   # quantile interpolation noise in float32
    if s > spread * 10 and s > 0:
        want = np.clip(X, lo, hi) / s
        ctx.close(g, want, 1e-4 + 2 * spread / s, "clipped and scaled value", quantile=c["q"], lo=lo, hi=hi)
        if c["q"] == 1:
            ctx.check(abs(np.abs(g).max() - 1) < 1e-5, "full scale is reached", got=g)
    elif s == 0:
        ctx.check(np.all(g == 0), "all-zero data stay zero", got=g)
    if X.size > 1 and X.min() != X.max():
        ctx.mark(d, c["q"], x)
        ctx.note("quantile_below_1", c["q"] < 1)
    ctx.sample = {"shape": list(shape), "max_abs_in": float(np.abs(X).max()), "max_abs_out": float(np.abs(g).max())}
