"""Hard sigmoid / hard tanh: stream and binary versions."""
import numpy as np
import torch
from UnarySim.kernel import FSUHardsigmoid, FSUHardtanh, HUBHardsigmoid, HUBHardtanh
from .. import stim
from ..util import DT, sw, rs_of, pick, both, tt

ID = "C16"
RULE = ("one case = one activation with its mode, depth, number types, shape and stimulus; non-trivial when the output has more "
        "than one level; every value is compared")
ASSUMPTIONS = ["binary activations within a few units in the last place of the input's float type, and of that type"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(300 if tier == "quick" else 1500):
        depth = int(pick(rs, [4, 5, 6, 8, 10, 12]))
        bt = pick(rs, ["f32", "f32", "f64", "i16", "i32", "i64", "f16", "i8"])
        out.append({"k": "fsig", "mode": pick(rs, ["unipolar", "bipolar", "Bipolar"]), "depth": depth, "st": pick(rs, list(DT)), "bt": bt,
                    "shape": list(pick(rs, stim.SHAPES)), "T": int(pick(rs, [30, 200, 800])), "rep": rep})
        out.append({"k": "ftanh", "st": pick(rs, list(DT)), "shape": list(pick(rs, stim.SHAPES)), "rep": rep})
        out.append({"k": "hsig", "scale": pick(rs, [None, None, 3, 1, 2, 6.0, 0.5]), "rep": rep})
        out.append({"k": "htanh", "rep": rep})
    for mode in ("unipolar", "bipolar"):
        out.append({"k": "fsig", "mode": mode, "depth": 8, "st": "f32", "bt": "f32", "exh": 13, "cost": 4})
    for mode in ("unipolar", "bipolar"):
        out.append({"k": "fsig", "mode": mode, "depth": int(pick(rs, [4, 10])), "st": "f32", "bt": "f32", "T": stim.LONG[0], "long": True, "cost": 30})
    return out


def run(c, ctx):
    rs = rs_of(c)
    if c["k"] == "fsig":
        x = stim.exhaustive(c["exh"])[0] if "exh" in c else stim.long(rs, c["T"])[0] if c.get("long") else stim.mix(rs, c["T"], c["shape"])
        hw = {"mode": c["mode"], "depth": c["depth"]}
        if rs.rand() < .5:
            hw.update(scale=2, dima=0, entry=2)      # as in the documented default
        elif rs.rand() < .4:        # the configuration of a whole network: it is always (x+1)/2
            hw.update(scale=pick(rs, [1, 4, 32, None]), dima=pick(rs, [-1, 1]), entry=pick(rs, [None, 1, 9]), width=8, rng="Sobol", dimr=1)
        m = FSUHardsigmoid(hw, sw(c["st"], c["bt"]))
        ones = np.zeros(x.shape[1:], int)
        prev = ones
        ys = []
        for t in range(len(x)):
            o = m(tt(x[t], c["st"]))
            ctx.event()
            ones = ones + x[t]
            tot = (ones + t + 1) // 2
            ctx.eq(o, tot - prev, "hard sigmoid stream is (x+1)/2 with at most one bit of lag", dtype=DT[c["st"]], cycle=t)
            prev = tot
            ys.append(ctx.num(o))
        if both(np.stack(ys)):
            ctx.mark("fsig", c["mode"], c["depth"], np.stack(ys)[:64])
        ctx.sample = {"T": int(len(x)), "ones_in": int(x.sum()), "ones_out": int(prev.sum())}
        return
    if c["k"] == "ftanh":
        x = stim.mix(rs, 20, c["shape"])
        m = FSUHardtanh()
        for t in range(20):
            ctx.eq(m(tt(x[t], c["st"])), x[t], "hard tanh stream passes through", dtype=DT[c["st"]])
            ctx.event()
        if both(x):
            ctx.mark("ftanh", x)
        return
    bt = pick(rs, ["f32", "f32", "f64", "f16", "bf16"])
    x = rs.randn(*stim.SHAPES[rs.randint(len(stim.SHAPES))]) * 2
    if rs.rand() < .4:      # far outside the range, and the infinities
        far = rs.rand(*x.shape) < .3
        x[far] *= 10. ** rs.randint(1, 4 if bt == "f16" else 30, x.shape)[far]
        x.reshape(-1)[1:][rs.rand(x.size - 1) < .05] = pick(rs, [np.inf, -np.inf])
    x.reshape(-1)[:1] = pick(rs, [-1, 1, 0, -3, 3, 0.5])
    t = torch.from_numpy(x.copy()).to(DT[bt])
    x = t.to(torch.float64).numpy().copy()
    tol = {"f32": 1e-6, "f64": 1e-13, "f16": 4e-3, "bf16": 3e-2}[bt]      # a few units in the last place of the type
    if c["k"] == "hsig":
        m = HUBHardsigmoid() if c["scale"] is None else HUBHardsigmoid(c["scale"])
        s = 3 if c["scale"] is None else c["scale"]
        ctx.close(m(t), np.clip((s * x / 3 + 1) / 2, 0, 1), tol, "binary hard sigmoid", scale=s, dtype=bt)
    else:
        ctx.eq(HUBHardtanh()(t), np.clip(x, -1, 1), "binary hard tanh", dtype=DT[bt])
    ctx.eq(t, x, "input of the binary activation")
    ctx.event()
    if np.ptp(np.clip(x, -1, 1)) > 0:
        ctx.mark(c["k"], x)
