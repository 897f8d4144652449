"""RNG sequences."""
import random
import numpy as np
import torch
from UnarySim.stream import RNG
from .. import stim
from ..util import DT, rs_of

ID = "C01"
RULE = ("one case = one generator kind and width over many dimensions and result types; non-trivial when the "
        "sequence has more than one value; the whole sequence is observed and compared")
ASSUMPTIONS = ["torch.quasirandom.SobolEngine columns are the reference for the Sobol dimension",
               "LFSR widths 2..16, float16/bfloat16/int8 result types only where the width fits them"]


def cases(tier, seed):
    out = []
    wmax = 14 if tier == "quick" else 17
    for w in range(0, wmax + 1):
        for r in ("Sobol", "RC", "race", "tc", "RACE10", "tc10", "sys"):
            out.append({"rng": r, "w": w, "n": (16 if w <= 10 else 8) if tier == "quick" else 40, "cost": 2 ** w / 1000})
    for w in range(2, (13 if tier == "quick" else 17)):
        out.append({"rng": "LFSR", "w": w, "n": max(2, 40 // w) if tier == "quick" else 60, "cost": 2 ** w / 50})
    for w in ((16, 18) if tier == "quick" else (18, 19, 20)):
        for r in ("sobol", "rc", "race", "TC10", "sys"):
            out.append({"rng": r, "w": w, "n": 2, "cost": 2 ** w / 1000})
    # narrow LFSRs many times: the start state is random
    for w in (2, 3, 4):
        out.append({"rng": "lfsr", "w": w, "n": 300 if tier == "quick" else 3000, "cost": 5})
    return out


def fits(dt, w):
    if dt in ("f16",):
        return w <= 11
    if dt == "bf16":
        return w <= 8
    if dt == "i8":
        return w <= 7
    if dt == "i16":
        return w <= 15
    return True


def run(c, ctx):
    rs = rs_of(c)
    w, r = c["w"], c["rng"]
    n = 1 << w
    kind = r.lower()
    dts = [d for d in DT if fits(d, w)]
    for i in range(c["n"]):
        dt = "f32" if i == 0 else dts[rs.randint(len(dts))]
        dim = [1, 2, 3, 4, 5, 11][i] if i < 6 else int(rs.randint(1, 1000 if w < 15 else 30))
        if i > 6 and w <= 8 and rs.rand() < .2:
            dim = int(rs.randint(1000, 20000))
        name = r if i < 3 else "".join(ch.upper() if rs.rand() < .5 else ch.lower() for ch in r)
        ctor = {"width": w, "dimr": dim, "rng": name}
        g = RNG(ctor, {"rtype": DT[dt]})
        seq = g()
        ctx.event()
        if seq.dtype != DT[dt]:
            ctx.fail("sequence number type", got=str(seq.dtype), want=dt)
        a = ctx.num(seq, "sequence")
        if a.shape != (n,):
            ctx.fail("sequence length", got=str(a.shape), want=str((n,)), rng=r, width=w)
        ctx.values += n
        x = a.astype(np.float64)
        if not np.array_equal(x, np.rint(x)):
            ctx.fail("sequence holds non-integers", got=a, rng=r, width=w)
        v = x.astype(np.int64)
        if v.min() < 0 or v.max() >= n:
            ctx.fail("value outside 0..2^w-1", got=v, rng=r, width=w, dim=dim)
        if kind == "lfsr":
            body = v[:-1]
            if len(np.unique(body)) != n - 1 or body.min() < 1:
                ctx.fail("LFSR does not visit every non-zero state once", got=v, width=w)
            if v[-1] != v[0]:
                ctx.fail("LFSR is not periodic with 2^w-1", got=v, width=w)
        else:
            if len(np.unique(v)) != n:
                ctx.fail("a value repeats within one period", got=v, rng=r, width=w, dim=dim)
            if kind in ("race", "tc"):
                ctx.eq(v, np.arange(n), "ascending order", rng=r, width=w)
            elif kind in ("race10", "tc10"):
                ctx.eq(v, np.arange(n)[::-1], "descending order", rng=r, width=w)
            elif kind in ("sobol", "rc"):
                ctx.eq(v, stim.sobol(dim, w), "Sobol sequence of the requested dimension", dim=dim, width=w)
                # low discrepancy: every aligned block of 2^k values hits each of 2^k equal bins once
                for k in range(0, w + 1):
                    blk = np.sort((v >> (w - k)).reshape(-1, 1 << k), axis=1)
                    ctx.values += 1
                    if not np.array_equal(blk, np.broadcast_to(np.arange(1 << k), blk.shape)):
                        ctx.fail("low-discrepancy property broken", dim=dim, width=w, block=1 << k)
        # asking again gives the same sequence
        if not torch.equal(g(), seq):
            ctx.fail("a second call returns another sequence", rng=r, width=w)
        if kind not in ("sys", "lfsr"):
            h = RNG(dict(ctor), {"rtype": DT[dt]})()
            if not torch.equal(h, seq):
                ctx.fail("same configuration, different sequence", rng=r, width=w, dim=dim)
        elif i < 8:
            # the random kinds draw from the global generators: seeding those repeats them
            pair = []
            for _ in range(2):
                np.random.seed(1000 + i)
                torch.manual_seed(1000 + i)
                random.seed(1000 + i)
                pair.append(RNG(dict(ctor), {"rtype": DT[dt]})())
            ctx.check(torch.equal(*pair), "seeding the global generators does not repeat the sequence", rng=r, width=w)
            ctx.note("seeded_pairs")
        if kind not in ("sys", "lfsr") and (i < 6 or rs.rand() < .3):
            # what a caller does to the sequence it was given stays its own affair
            other = RNG(dict(ctor), {"rtype": DT[dt]})
            before = other()
            kept = before.detach().clone()
            g().data.fill_(0)
            ctx.check(torch.equal(before, kept) and torch.equal(other(), kept), "overwriting the sequence of one generator changes that of another", rng=r, width=w, dim=dim)
            ctx.check(torch.equal(RNG(dict(ctor), {"rtype": DT[dt]})(), kept), "overwriting the sequence of one generator changes that of a later one", rng=r, width=w, dim=dim)
        if n > 1:
            ctx.mark(r, w, v[: 4096])
            ctx.note("sequences")
    ctx.sample = {"last_sequence_head": v[:16].tolist()}
