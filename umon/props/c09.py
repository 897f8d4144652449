"""FSUMul with a static operand."""
import numpy as np
import torch
from UnarySim.kernel import FSUMul
from .. import stim, spec
from ..capture import rng_sequences
from ..drive import lockstep
from ..util import DT, sw, rs_of, pick, both, grid_values

ID = "C09"
RULE = ("one case = one mode, width, generator, dimension, number type, operand shapes and stream mix; non-trivial when the "
        "product stream holds both 0s and 1s; every product bit is compared, and full windows are counted")
ASSUMPTIONS = ["the random sequence of lfsr/sys multipliers is the one their generator handed out during construction"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(700 if tier == "quick" else 2600):
        w = int(pick(rs, [1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10]))
        r = pick(rs, ["Sobol", "Sobol", "rc", "race", "tc", "race10", "tc10", "lfsr", "sys"])
        if r == "lfsr":
            w = max(w, 2)
        out.append({"w": w, "mode": pick(rs, ["unipolar", "bipolar", "Unipolar"]), "rng": r, "dim": int(pick(rs, [1, 2, 3, 4, 7, 30])),
                    "st": pick(rs, list(DT)), "bc": pick(rs, ["same", "same", "scalar", "inner"]),
                    "shape": list(pick(rs, stim.SHAPES)), "T": int(min(2 ** w * 2 + 17, 1200)), "rep": rep, "cost": 2 ** w / 50})
    for rep in range(8):
        out.append({"w": int(pick(rs, [2, 4, 7, 8, 12])), "mode": pick(rs, ["unipolar", "bipolar"]), "rng": pick(rs, ["Sobol", "rc", "tc"]), "dim": 1, "st": pick(rs, ["f32", "i8", "f16", "bf16"]),
                    "bc": "same", "shape": [6], "T": stim.LONG[rep % 2], "long": True, "cost": 80, "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    w, ml, sh = c["w"], c["mode"].lower(), tuple(c["shape"])
    psh = sh if c["bc"] == "same" else ((1,) if c["bc"] == "scalar" else sh[:-1] + (1,))
    p = grid_values(rs, psh, w, ml)
    rt = pick(rs, ["f32", "f64", "i32", "i64"])
    hw = {"width": w, "mode": c["mode"], "static": True, "rng": c["rng"], "dimr": c["dim"]}
    pt = torch.from_numpy(p.copy())
    with rng_sequences() as got:
        m = FSUMul(in_1_prob=pt, hwcfg=hw, swcfg=sw(c["st"], "f32", rt))
    if c["rng"] in ("lfsr", "sys"):
        if len(got) != 1:
            ctx.note("random_generator_not_observed")
            return
        seq = got[0].to(torch.float64).numpy().astype(np.int64)
    else:
        seq = stim.rng_seq(c["rng"].lower(), w, c["dim"])
    W = spec.to_int(p, w, ml)
    a = stim.long(rs, c["T"])[0] if c.get("long") else stim.mix(rs, c["T"], sh)
    if not c.get("long") and rs.rand() < .15:
        a = stim.meet(rs, a)
    # one lane of nothing but 1s: a window of 2^w cycles counts the operand exactly
    a.reshape(len(a), -1)[:, 0] = 1
    y, = lockstep(ctx, m, spec.MulStatic(W, seq, ml), [a], c["st"], "FSUMul(static)", width=w, mode=ml, rng=c["rng"])
    ctx.eq(pt, p, "operand after multiplying")
    n = 1 << w
    if c["rng"] != "lfsr" and len(y) >= n:
        Wf = np.broadcast_to(W, sh).reshape(-1)[0]
        ctx.check(int(y[:n].reshape(n, -1)[:, 0].sum()) == int(Wf), "1 x p over a full period has exactly p ones", W=int(Wf))
    if ml == "unipolar":
        ctx.check(np.all(y <= a), "unipolar product never exceeds its stream operand")
    if both(y):
        ctx.mark(w, ml, c["rng"], c["dim"], y[:64])
    ctx.sample = {"operand": p.reshape(-1)[:4].tolist(), "T": c["T"], "ones_in": int(a.sum()), "ones_out": int(y.sum())}
