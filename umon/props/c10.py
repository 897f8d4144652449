"""FSUMul in-stream (both operands are streams)."""
import numpy as np
from UnarySim.kernel import FSUMul
import torch
from .. import stim, spec
from ..capture import rng_sequences
from ..drive import lockstep
from ..util import DT, sw, rs_of, pick, both

ID = "C10"
RULE = ("one case = one mode, width (history 2^w), generator, number types, shape and stream pair; non-trivial when the product "
        "stream holds both 0s and 1s; every product bit is compared")
ASSUMPTIONS = ["stream types whose counts fit the history length"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for mode in ("unipolar", "bipolar"):
        for w in (1, 2, 3):
            out.append({"kind": "exh", "w": w, "mode": mode, "rng": "Sobol", "dim": 1, "n": 7 if tier == "quick" else 8, "st": "f32", "cost": 4})
    for rep in range(700 if tier == "quick" else 2600):
        w = int(pick(rs, [1, 2, 3, 4, 5, 6, 7, 8]))
        r = pick(rs, ["Sobol", "Sobol", "rc", "race", "tc", "race10", "tc10", "lfsr", "sys"])
        if r == "lfsr":
            w = max(w, 2)
        st = pick(rs, list(DT))
        if st == "bf16":
            w = min(w, 7)
        out.append({"kind": "mix", "w": w, "mode": pick(rs, ["unipolar", "bipolar", "Bipolar"]), "rng": r, "dim": int(pick(rs, [1, 2, 3, 4, 9])),
                    "st": st, "shape": list(pick(rs, stim.SHAPES)), "T": int(min(3 * 2 ** w + 20, 700)), "rep": rep, "cost": 2 ** w / 50})
    for rep in range(10 if tier == "quick" else 40):      # long histories
        w = int(pick(rs, [9, 10]))
        out.append({"kind": "mix", "w": w, "mode": pick(rs, ["unipolar", "bipolar"]), "rng": pick(rs, ["Sobol", "rc", "race"]), "dim": 1, "st": pick(rs, ["f32", "f64", "i16", "i32"]),
                    "shape": list(pick(rs, stim.SHAPES)), "T": 3 * 2 ** w + 20, "rep": rep, "cost": 2 ** w / 15})
    for rep in range(6):
        out.append({"kind": "long", "w": int(pick(rs, [2, 4, 6])), "mode": pick(rs, ["unipolar", "bipolar"]), "rng": pick(rs, ["Sobol", "rc", "tc"]), "dim": 1, "st": pick(rs, ["f32", "i8", "f16", "bf16"]),
                    "T": stim.LONG[rep % 2], "cost": 80, "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    w, ml = c["w"], c["mode"].lower()
    with rng_sequences() as got:
        m = FSUMul(in_1_prob=None, hwcfg={"width": w, "mode": c["mode"], "static": False, "rng": c["rng"], "dimr": c["dim"]},
                   swcfg=sw(c["st"], "f32", pick(rs, ["f32", "f64", "i64"])))
    if c["rng"] in ("lfsr", "sys"):
        if len(got) != 1:
            ctx.note("random_generator_not_observed")
            return
        seq = got[0].to(torch.float64).numpy().astype(np.int64)
    else:
        seq = stim.rng_seq(c["rng"].lower(), w, c["dim"])
    if c["kind"] == "exh":
        a, b = stim.exhaustive(c["n"], 2)
        k = int(rs.randint(0, 2 ** w + 3))
        pre = rs.randint(0, 2, size=(k, 2))
        a = np.concatenate([np.repeat(pre[:, :1], a.shape[1], 1), a]).astype(np.uint8)
        b = np.concatenate([np.repeat(pre[:, 1:], b.shape[1], 1), b]).astype(np.uint8)
    elif c["kind"] == "long":
        a, b = stim.long(rs, c["T"], 2)
    else:
        a, b = stim.mix(rs, c["T"], c["shape"]), stim.mix(rs, c["T"], c["shape"])
    y, = lockstep(ctx, m, spec.MulStream(seq, ml), [a, b], c["st"], "FSUMul(in-stream)", width=w, mode=ml, rng=c["rng"])
    if both(y):
        ctx.mark(w, ml, c["rng"], c["dim"], y[:64])
    ctx.note("cycles_beyond_history", max(0, len(y) - 2 ** w))
    ctx.sample = {"T": int(len(y)), "ones_in": [int(a.sum()), int(b.sum())], "ones_out": int(y.sum())}
