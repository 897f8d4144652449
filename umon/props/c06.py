"""ShiftReg."""
import numpy as np
import torch
from UnarySim.kernel import ShiftReg
from .. import stim, spec
from ..util import DT, sw, rs_of, pick, both, tt

ID = "C06"
RULE = ("one case = one register length, number type, shape, enable pattern and read-index pattern; non-trivial when both "
        "the read bit and the count varied; the read bit and the ones count are compared every cycle")
ASSUMPTIONS = ["float16/bfloat16/int8 registers only up to the length their counts can hold",
               "0..length-1 read indices; the enable mask has the input's shape"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(700 if tier == "quick" else 3000):
        entry = int(pick(rs, [1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 31, 32, 64, 100, 128, 256, 300]))
        st = pick(rs, [d for d in DT if d != "bf16" or entry <= 256])
        out.append({"entry": entry, "st": st, "shape": list(pick(rs, stim.SHAPES)),
                    "T": int(min(3 * entry + 20, 300) if rs.rand() < .8 else 10), "rep": rep,
                    "mask": pick(rs, ["none", "none", "rand", "zero_one", "sparse", "switch"]),
                    "index": pick(rs, ["zero", "rand", "last", "walk"])})
    for entry, st, mask in ((4, "f32", "none"), (8, "i8", "rand"), (3, "f16", "switch"), (300, "f32", "none"), (16, "i64", "sparse")):
        out.append({"entry": entry, "st": st, "shape": [6], "T": stim.LONG[entry % 2], "mask": mask, "index": "rand", "long": True, "cost": 40})
    out.append({"entry": 1030, "st": "f32", "shape": [3], "T": 2500, "mask": "none", "index": "rand", "cost": 4})
    return out


def run(c, ctx):
    rs = rs_of(c)
    T, sh, n, st = c["T"], tuple(c["shape"]), c["entry"], c["st"]
    x = stim.long(rs, T)[0] if c.get("long") else stim.mix(rs, T, sh)
    m = ShiftReg({"entry": n}, {"stype": DT[st]})
    ref = spec.Shift(n)
    reads, counts, held = [], [], []
    for t in range(T):
        mk = None
        if c["mask"] == "rand":
            mk = (rs.rand(*sh) < .5).astype(np.uint8)
        elif c["mask"] == "zero_one":
            mk = np.full(sh, rs.randint(2), np.uint8)
        elif c["mask"] == "sparse":
            mk = (rs.rand(*sh) < .05).astype(np.uint8)
        elif c["mask"] == "switch" and rs.rand() < .5:
            mk = (rs.rand(*sh) < .5).astype(np.uint8)
        idx = {"zero": 0, "rand": int(rs.randint(n)), "last": n - 1, "walk": t % n}[c["index"]]
        xt = tt(x[t], st)
        kw = {}
        if mk is not None:
            kw["mask"] = tt(mk, pick(rs, [st, "f32", "i8"]))
        if c["index"] != "zero":
            kw["index"] = idx
        o, cnt = m(xt, **kw)
        ctx.event()
        wo, wc = ref.step(x[t], mk, idx)
        ctx.eq(o, wo, "read bit", dtype=DT[st], cycle=t, entry=n, index=idx)
        ctx.eq(cnt, wc, "count of 1s", cycle=t, entry=n)
        ctx.eq(xt, x[t], "input after shifting")
        reads.append(wo)
        counts.append(wc)
        if t % 5 == 2:
            held.append((t, o, wo, cnt, wc))
    for t, o, wo, cnt, wc in held:
        ctx.eq(o, wo, "an earlier read bit changed later", cycle=t)
        ctx.eq(cnt, wc, "an earlier count changed later", cycle=t)
    if both(np.stack(reads)) and np.ptp(np.stack(counts)) > 0:
        ctx.mark(n, st, c["mask"], c["index"], np.stack(counts)[:64])
    ctx.note("cycles_beyond_register_length", max(0, T - n))
    ctx.sample = {"count_range": [int(np.min(counts)), int(np.max(counts))]}
