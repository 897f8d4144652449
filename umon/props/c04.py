"""Format converters: bipolar -> unipolar and unipolar -> bipolar."""
import numpy as np
from UnarySim.stream import Bi2Uni, Uni2Bi
from .. import stim, spec
from ..drive import lockstep
from ..util import sw, rs_of, pick, both

ID = "C04"
RULE = ("one case = one converter, depth, number types, shape and stream mix (or all sequences of a short length after a "
        "prefix); non-trivial when the output has both 0s and 1s; every bit is compared with the reference automaton")
ASSUMPTIONS = ["uint8/bool streams are outside the domain (unsupported arithmetic)"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for which in ("b2u", "u2b"):
        for depth in (3, 4, 5):
            out.append({"which": which, "depth": depth, "mode": "exh", "n": 14 if tier == "quick" else 17, "cost": 5})
        for rep in range(400 if tier == "quick" else 1500):
            depth = int(pick(rs, [3, 3, 4, 4, 5, 6, 8, 10, 12])) if which == "b2u" else int(pick(rs, [4, 4, 4, 5, 6, 8, 10, 12]))
            st = pick(rs, ["f32", "f32", "f64", "f16", "bf16", "i8", "i16", "i32", "i64"])
            bt = pick(rs, ["f32", "f32", "f64", "f16", "i8", "i16", "i32", "i64"]) if depth <= 7 else pick(rs, ["f32", "f64", "i16", "i32", "i64"])
            out.append({"which": which, "depth": depth, "mode": "mix", "st": st, "bt": bt,
                        "shape": list(pick(rs, stim.SHAPES)), "T": int(pick(rs, [40, 150, 400, 1100])), "rep": rep})
    for which in ("b2u", "u2b"):
        for depth, bt in ((3, "f32"), (4, "i8"), (5, "f16"), (14, "i32")):
            out.append({"which": which, "depth": depth if which == "b2u" else max(4, depth), "mode": "long", "bt": bt, "T": stim.LONG[depth % 2], "cost": 30})
    # large depth driven far enough for the accumulator bounds to act
    for which in ("b2u", "u2b"):
        for depth in (6, 9, 11):
            out.append({"which": which, "depth": depth, "mode": "bounds", "T": 2 ** depth + 300, "cost": 3})
    return out


def run(c, ctx):
    rs = rs_of(c)
    b2u = c["which"] == "b2u"
    st, bt = c.get("st", "f32"), c.get("bt", "f32")
    if c["mode"] == "exh":
        x = stim.exhaustive(c["n"])[0]
        pre = stim.mix(rs, int(rs.randint(0, 9)), (1,))
        x = np.concatenate([np.broadcast_to(pre, (len(pre), x.shape[1])).astype(np.uint8), x])
    elif c["mode"] == "long":
        x, = stim.long(rs, c["T"])
    elif c["mode"] == "bounds":
        # drive to one bound, then to the other, then mixed
        T = c["T"]
        a = np.concatenate([np.zeros(T // 2), np.ones(T - T // 2), rs.rand(200) < .5])
        b = np.concatenate([np.ones(T // 2), np.zeros(T - T // 2), rs.rand(200) < .7])
        x = np.stack([a, b, 1 - np.concatenate([a[7:], a[:7]])], 1).astype(np.uint8)
    else:
        x = stim.mix(rs, c["T"], c["shape"])
    m = (Bi2Uni if b2u else Uni2Bi)({"depth": c["depth"]}, sw(st, bt))
    ref = (spec.BipolarToUnipolar if b2u else spec.UnipolarToBipolar)(c["depth"])
    y, = lockstep(ctx, m, ref, [x], st, "Bi2Uni" if b2u else "Uni2Bi", depth=c["depth"], view=rs.rand() < .2)
    # value-level facts, independent of the automaton
    ones, outs = np.cumsum(x, 0).astype(np.int64), np.cumsum(y, 0)
    t = np.arange(1, len(x) + 1).reshape((-1,) + (1,) * (x.ndim - 1))
    if not b2u and c["depth"] >= 4:
        ctx.check(np.array_equal(outs, (ones + t) // 2), "Uni2Bi emits floor((ones+cycles)/2) ones at every prefix")
    elif b2u:
        bal = 2 * ones - t
        run_max = np.maximum(np.maximum.accumulate(bal, 0), 0)
        lanes = np.all(bal - run_max >= -2 ** (c["depth"] - 2), axis=0)   # the deficit never saturates
        if np.any(lanes):
            ctx.check(np.array_equal(outs[:, lanes], run_max[:, lanes]), "Bi2Uni emits the running maximum of the decoded sum")
            ctx.note("lanes_never_saturated", int(np.sum(lanes)))
    if both(y):
        ctx.mark(c["which"], c["depth"], st, bt, y[:64])
    ctx.sample = {"T": int(len(x)), "lanes": int(x[0].size), "ones_in": int(x.sum()), "ones_out": int(y.sum())}
