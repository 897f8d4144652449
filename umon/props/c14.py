"""FSUReLU and HUBReLU."""
import numpy as np
import torch
from UnarySim.kernel import FSUReLU, HUBReLU
from .. import stim, spec
from ..drive import lockstep
from ..util import DT, sw, rs_of, pick, both

ID = "C14"
RULE = ("one case = one depth, number types, shape and stream mix (or all sequences of a short length after a prefix), or one "
        "binary tensor for the binary ReLU; non-trivial when the output has both levels; every value is compared")
ASSUMPTIONS = ["the counter type holds 2^depth"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = [{"k": "exh", "depth": d, "n": 13 if tier == "quick" else 16, "st": "f32", "bt": "f32", "cost": 4} for d in (1, 2, 3, 4, 6)]
    for rep in range(800 if tier == "quick" else 2800):
        depth = int(pick(rs, [1, 2, 3, 4, 5, 6, 6, 7, 8, 10]))
        bt = pick(rs, list(DT))
        if bt == "i8":
            depth = min(depth, 6)
        if bt == "bf16":
            depth = min(depth, 7)
        out.append({"k": "mix", "depth": depth, "st": pick(rs, list(DT)), "bt": bt, "shape": list(pick(rs, stim.SHAPES)),
                    "T": int(pick(rs, [40, 200, 2 ** depth + 60])), "rep": rep})
    for rep in range(200 if tier == "quick" else 400):
        out.append({"k": "hub", "scale": pick(rs, [1.0, 1, 2.0, 0.5, 6.0, 0.125]), "inplace": bool(rs.rand() < .3), "rep": rep})
    for depth, bt in ((3, "f32"), (6, "i8"), (5, "f16"), (17, "i32")):
        out.append({"k": "long", "depth": depth, "st": "f32", "bt": bt, "T": stim.LONG[depth % 2], "cost": 30})
    return out


def run(c, ctx):
    rs = rs_of(c)
    if c["k"] == "hub":
        dt = DT[pick(rs, ["f32", "f32", "f64", "f16"])]
        x = (rs.randn(*stim.SHAPES[rs.randint(len(stim.SHAPES))]) * 3)
        x.reshape(-1)[:1] = pick(rs, [0, -0.0, 1, c["scale"], -1])
        t = torch.from_numpy(x.copy()).to(dt)
        x = t.to(torch.float64).numpy().copy()
        y = HUBReLU(c["scale"], c["inplace"])(t)
        ctx.event()
        ctx.eq(y, np.clip(x, 0, c["scale"]), "binary ReLU clips to [0, scale]", dtype=dt)
        if not c["inplace"]:
            ctx.eq(t, x, "input of the binary ReLU")
        z = HUBReLU()(torch.from_numpy(x.copy()).to(dt))
        ctx.eq(z, np.clip(x, 0, 1), "default binary ReLU clips to [0, 1]")
        if np.any(x > 0) and np.any(x < 0):
            ctx.mark("hub", c["scale"], x)
        ctx.sample = {"in": x.reshape(-1)[:4].tolist()}
        return
    if c["k"] == "exh":
        x = stim.exhaustive(c["n"])[0]
        k = int(rs.randint(0, 2 ** c["depth"]))
        x = np.concatenate([np.full((k, x.shape[1]), rs.randint(2), np.uint8), x])
    elif c["k"] == "long":
        x, = stim.long(rs, c["T"])
    else:
        x = stim.mix(rs, c["T"], c["shape"])
    m = FSUReLU({"depth": c["depth"]}, sw(c["st"], c["bt"]))
    y, = lockstep(ctx, m, spec.ReLU(c["depth"]), [x], c["st"], "unary ReLU", depth=c["depth"], view=rs.rand() < .2)
    ctx.check(np.all(y >= x), "unary ReLU never drops a 1")
    bal = np.cumsum(2 * y - 1, 0)
    ctx.check(bal.min() >= -2 ** (c["depth"] - 1) - 1, "decoded output never falls below zero beyond the counter's slack", low=int(bal.min()))
    if both(y):
        ctx.mark(c["depth"], c["st"], c["bt"], y[:64])
    ctx.note("bits_forced_to_one", int((y > x).sum()))
    ctx.sample = {"T": int(len(y)), "ones_in": int(x.sum()), "ones_out": int(y.sum())}
