"""SkewedSync: conservation and pairing."""
import numpy as np
from UnarySim.stream import SkewedSync
from .. import stim, spec
from ..drive import lockstep
from ..util import sw, rs_of, pick, both

ID = "C05"
RULE = ("one case = one depth, number types, shape and pair of streams (or all pairs of short sequences); non-trivial when "
        "at least one 1 was held back and one was released; every output bit is compared, and the ledger of 1s balanced")
ASSUMPTIONS = ["uint8/bool streams are outside the domain"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = [{"depth": d, "mode": "exh", "n": 7 if tier == "quick" else 9, "cost": 4} for d in (1, 2, 3, 4)]
    for rep in range(600 if tier == "quick" else 2500):
        depth = int(pick(rs, [1, 2, 2, 3, 4, 5, 6, 7]))
        st = pick(rs, ["f32", "f32", "f64", "f16", "bf16", "i8", "i16", "i32", "i64"])
        bt = pick(rs, ["f32", "f64", "i16", "i32", "i64", "i8", "f16"])
        if bt == "i8":
            depth = min(depth, 6)       # the counter must be able to hold 2^depth
        out.append({"depth": depth, "mode": "mix", "st": st, "bt": bt, "shape": list(pick(rs, stim.SHAPES)),
                    "T": int(pick(rs, [30, 120, 400, 900])), "rel": pick(rs, ["indep", "indep", "sub", "super", "same", "inv", "a_then_b"]), "rep": rep})
    for depth, bt in ((2, "f32"), (5, "i8"), (4, "f16"), (12, "i32")):
        out.append({"depth": depth, "mode": "long", "bt": bt, "T": stim.LONG[depth % 2], "cost": 30})
    out.append({"depth": 8, "mode": "fill", "T": 900})
    out.append({"depth": 10, "mode": "fill", "T": 3000})
    return out


def run(c, ctx):
    rs = rs_of(c)
    st, bt = c.get("st", "f32"), c.get("bt", "f32")
    if c["mode"] == "exh":
        a, b = stim.exhaustive(c["n"], 2)
        k = int(rs.randint(0, 2 ** c["depth"] + 2))     # pre-load k 1s
        a = np.concatenate([np.ones((k, a.shape[1]), np.uint8), a])
        b = np.concatenate([np.zeros((k, b.shape[1]), np.uint8), b])
    elif c["mode"] == "long":
        a, b = stim.long(rs, c["T"], 2)
    elif c["mode"] == "fill":
        T = c["T"]
        h = T // 2
        a = np.concatenate([np.ones((h, 3)), np.zeros((T - h, 3))]).astype(np.uint8)
        b = 1 - a
        a[:, 1] ^= (rs.rand(T) < .1).astype(np.uint8)
        b[:, 2] ^= (rs.rand(T) < .1).astype(np.uint8)
    else:
        T, sh = c["T"], c["shape"]
        a, b = stim.mix(rs, T, sh), stim.mix(rs, T, sh)
        if c["rel"] == "sub":
            a = a & b
        elif c["rel"] == "super":
            a = a | b
        elif c["rel"] == "same":
            a = b.copy()
        elif c["rel"] == "inv":
            a = 1 - b
        elif c["rel"] == "a_then_b":
            h = rs.randint(1, T)
            a[h:] = 0
            b[:h] = 0
    m = SkewedSync({"depth": c["depth"]}, sw(st, bt))
    o1, o2 = lockstep(ctx, m, spec.SkewedSync(c["depth"]), [a, b], st, "SkewedSync", names=("first", "second"), depth=c["depth"])
    ci, co = np.cumsum(a, 0).astype(int), np.cumsum(o1, 0)
    held = ci - co
    ctx.check(np.all(held >= 0) and np.all(held <= 2 ** c["depth"] - 1), "1s owed stay within 0..2^depth-1", got=held)
    ctx.check(np.array_equal(o2, b), "second stream passes unchanged")
    if np.any(np.diff(held, axis=0) > 0) and np.any(np.diff(held, axis=0) < 0):
        ctx.mark(c["depth"], st, bt, o1[:64])
    ctx.note("filled_to_capacity", int(np.any(held == 2 ** c["depth"] - 1)))
    ctx.sample = {"lanes": int(a[0].size), "T": int(len(a)), "max_held": int(held.max()), "overlap_before": int((a & b).sum()), "overlap_after": int((o1 & o2).sum())}
