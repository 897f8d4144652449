"""FSUSignAbs."""
import numpy as np
from UnarySim.kernel import FSUSignAbs
from .. import stim, spec
from ..drive import lockstep
from ..util import DT, sw, rs_of, pick, both

ID = "C15"
RULE = ("one case = one depth, number types, shape and stream mix (or all sequences of a short length after a prefix); "
        "non-trivial when both signs were reported; sign and magnitude bits are compared every cycle")
ASSUMPTIONS = ["the counter type holds 2^depth"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = [{"k": "exh", "depth": d, "n": 13 if tier == "quick" else 16, "st": "f32", "bt": "f32", "cost": 4} for d in (1, 2, 3, 4, 6)]
    for rep in range(800 if tier == "quick" else 3000):
        depth = int(pick(rs, [1, 2, 3, 3, 4, 5, 6, 8, 10]))
        bt = pick(rs, list(DT))
        if bt == "i8":
            depth = min(depth, 6)
        if bt == "bf16":
            depth = min(depth, 7)
        out.append({"k": "mix", "depth": depth, "st": pick(rs, list(DT)), "bt": bt, "shape": list(pick(rs, stim.SHAPES)),
                    "T": int(pick(rs, [40, 200, 2 ** depth + 60])), "rep": rep})
    for depth, bt in ((3, "f32"), (6, "i8"), (5, "f16"), (17, "i32")):
        out.append({"k": "long", "depth": depth, "st": "f32", "bt": bt, "T": stim.LONG[depth % 2], "cost": 30})
    return out


def run(c, ctx):
    rs = rs_of(c)
    if c["k"] == "exh":
        x = stim.exhaustive(c["n"])[0]
        k = int(rs.randint(0, 2 ** c["depth"]))
        x = np.concatenate([np.full((k, x.shape[1]), rs.randint(2), np.uint8), x])
    elif c["k"] == "long":
        x, = stim.long(rs, c["T"])
    else:
        x = stim.mix(rs, c["T"], c["shape"])
    m = FSUSignAbs({"depth": c["depth"]}, sw(c["st"], c["bt"]))
    s, y = lockstep(ctx, m, spec.SignAbs(c["depth"]), [x], c["st"], "sign/abs", names=("sign", "magnitude"), depth=c["depth"], view=rs.rand() < .2)
    ctx.check(np.array_equal(s ^ y, x), "sign xor magnitude restores the input")
    # while the history balance has never left the counter's range the sign is the sign of the balance
    bal = np.cumsum(2 * x.astype(int) - 1, 0)
    h = 2 ** (c["depth"] - 1)
    ok = np.logical_and.accumulate((bal >= -h) & (bal <= h - 1), axis=0)
    ctx.check(np.array_equal(s[ok], (bal < 0).astype(int)[ok]), "sign is the sign of the history balance (in range)")
    if both(s):
        ctx.mark(c["depth"], c["st"], c["bt"], s[:64])
    ctx.note("sign_changes", int((np.diff(s, axis=0) != 0).sum()))
    ctx.sample = {"T": int(len(y)), "ones_in": int(x.sum()), "negative_cycles": int(s.sum())}
