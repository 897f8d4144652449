"""Round: fixed-point rounding with straight-through gradient."""
import numpy as np
import torch
from UnarySim.kernel.utils import Round
from ..capture import float_shifts
from ..util import rs_of, pick, DT, noncontig

ID = "C24"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one pair of integer/fraction widths, number type, shape and data kind; non-trivial when at least two different values "
        "come out; every value and gradient is compared")
ASSUMPTIONS = ["the shift operators of floating-point tensors, which current PyTorch lacks (known finding), are supplied as power-of-two scaling", "float32/float64/bfloat16/float16 inputs; the grid of the chosen widths is exact in the type used"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = [{"i": i, "f": f, "dt": dt, "k": "plain"} for i, f, dt in ((1, 2, "f32"), (0, 3, "f64"), (3, 0, "f32"))]
    for i in range(0, 7):
        for f in range(0, 9):
            out.append({"i": i, "f": f, "dt": "f32", "k": "dense"})
    for rep in range(1200 if tier == "quick" else 4000):
        out.append({"i": int(rs.randint(0, 9)), "f": int(rs.randint(0, 12)), "dt": pick(rs, ["f32", "f32", "f64", "bf16", "f16"]),
                    "k": pick(rs, ["normal", "ties", "big", "tiny", "edges"]), "shape": pick(rs, [[1], [7], [3, 5], [2, 3, 4], [64], [2, 1, 3, 2], []]), "rep": rep})
    return out


def run(c, ctx):
    if c["k"] == "plain":
        return plain(c, ctx)
    with float_shifts():
        judged(c, ctx)


def plain(c, ctx):
    """without the shift operators supplied: refusing to run is the recorded defect, a wrong value is a new one"""
    x = torch.arange(-40, 41).to(DT[c["dt"]]) / 8
    m = Round(intwidth=c["i"], fracwidth=c["f"])
    ctx.event()
    try:
        y = m(x)
    except NotImplementedError as e:
        if "shift" not in str(e):
            raise
        ctx.finding("float-shift", "Round raises for every floating-point tensor: %s" % e)
        ctx.values += 1
        return
    top = 2 ** (c["i"] + c["f"]) - 1
    ctx.eq(y, np.clip(np.rint(x.double().numpy() * 2.0 ** c["f"]), -top, top) / 2.0 ** c["f"], "rounded value", dtype=DT[c["dt"]])


def judged(c, ctx):
    rs = rs_of(c)
    i, f = c["i"], c["f"]
    top = 2 ** (i + f) - 1
    lim = top / 2 ** f
    if c["k"] == "dense":
        # every multiple of a quarter LSB, past both ends
        x = np.arange(-4 * (top + 3), 4 * (top + 3) + 1) / 4.0 / 2 ** f
        x = x if x.size < 20000 else x[:: x.size // 20000 + 1]
        x = np.concatenate([x, [lim, -lim, 0.0, -0.0]])
    elif c["k"] == "ties":
        x = (rs.randint(-top - 2, top + 3, size=tuple(c["shape"])) + 0.5) / 2 ** f
    elif c["k"] == "big":
        x = rs.randn(*c["shape"]) * lim * 10
    elif c["k"] == "tiny":
        x = rs.randn(*c["shape"]) / 2 ** f * .6
    elif c["k"] == "edges":
        x = rs.choice([lim, -lim, lim + .5 / 2 ** f, -lim - .5 / 2 ** f, 2.0 ** i, -2.0 ** i, 0, 1 / 2 ** f, 3e4, -3e4], size=tuple(c["shape"]))
    else:
        x = rs.randn(*c["shape"]) * max(lim, .5) * .6
    t = torch.from_numpy(np.asarray(x)).to(DT[c["dt"]])
    if rs.rand() < .15:
        t = t.clone()
        t.view(-1)[::3] = float("inf") if rs.rand() < .5 else -float("inf")
    if rs.rand() < .3:
        t = noncontig(t)
    m = Round(intwidth=i, fracwidth=f) if rs.rand() < .7 else Round(i, f)
    xt = t.clone().requires_grad_(True)
    y = m(xt)
    ctx.event()
    v = t.to(torch.float32).numpy().astype(np.float64)
    want64 = np.clip(np.rint(v * 2.0 ** f), -top, top) / 2.0 ** f
    want = torch.from_numpy(np.asarray(want64)).to(DT[c["dt"]])
    ctx.eq(y, want.to(torch.float64).numpy() if c["dt"] == "f64" else want.float().numpy(), "rounded value", dtype=DT[c["dt"]], intwidth=i, fracwidth=f)
    if c["dt"] in ("f32", "f64"):
        g = ctx.num(y).astype(np.float64) * 2.0 ** f
        ctx.check(np.all(g == np.rint(g)) and np.all(np.abs(g) <= top), "result lies on the grid, inside the range")
        inside = np.abs(v) <= lim
        ctx.check(np.all(np.abs(ctx.num(y).astype(np.float64) - v)[inside] <= .5 / 2 ** f), "error is at most half a step inside the range")
        z = m(y.detach())
        ctx.eq(z, ctx.num(y), "rounding twice equals rounding once")
    ctx.check(torch.equal(xt.detach(), t), "input unchanged")
    if not y.requires_grad:
        ctx.fail("the result is cut off from the gradient graph")
    g = torch.from_numpy(np.asarray(rs.randint(-8, 9, size=tuple(t.shape)) / 4.0)).to(DT[c["dt"]])
    y.backward(g)
    ctx.eq(xt.grad, g.to(torch.float64).numpy(), "gradient passes straight through", dtype=DT[c["dt"]])
    ctx.check(m(None) is None, "no data in, no data out")
    if len(np.unique(want64)) > 1:
        ctx.mark(i, f, c["dt"], want64)
    ctx.sample = {"in": v.reshape(-1)[:4].tolist(), "out": want64.reshape(-1)[:4].tolist()}
