"""Progressive precision: every prefix of a computation is already a good approximation."""
import numpy as np
import torch
from UnarySim.stream import RNG, BinGen, BSGen
from UnarySim.kernel import FSUMul, FSUAdd, FSULinear
from .. import stim, spec
from ..util import rs_of, pick, tt, sw, grid_values, both

ID = "C36"
RULE = ("one case = one generator dimension and width with all representable sources, or one multiplier/adder/layer with random streams; "
        "non-trivial when the streams hold both levels; the error of every prefix of every lane is compared with the low-discrepancy bound")
ASSUMPTIONS = ["Sobol sequences (rate coding)", "bound: (log2 n / 3 + 1) / n for a prefix of n cycles, the star discrepancy of (0,1)-sequences in base 2"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for w in range(1, 11 if tier == "quick" else 13):
        for d in ([1, 2, 3, 5, 8, 16] + [int(v) for v in rs.randint(17, 100, 3)] if tier == "quick" else list(range(1, 100))):
            out.append({"k": "gen", "w": w, "dim": d, "mode": pick(rs, ["unipolar", "bipolar"]), "cost": 2 ** w / 64})
    for rep in range(240 if tier == "quick" else 800):
        out.append({"k": "mul", "w": int(pick(rs, [3, 5, 6, 8])), "dim": int(pick(rs, [1, 1, 2, 3, 7])), "mode": pick(rs, ["unipolar", "bipolar"]), "rep": rep})
    for rep in range(360 if tier == "quick" else 1200):
        out.append({"k": "add", "n": int(pick(rs, [1, 2, 3, 7, 16, 33])), "mode": pick(rs, ["unipolar", "bipolar"]), "scaled": bool(rs.rand() < .6), "rep": rep})
    for rep in range(120 if tier == "quick" else 400):
        out.append({"k": "lin", "w": int(pick(rs, [4, 6, 7])), "n": int(pick(rs, [1, 4, 9, 20])), "mode": pick(rs, ["unipolar", "bipolar"]), "bias": bool(rs.rand() < .5), "rep": rep})
    return out


def disc(n):
    """bound on |count of sequence points below p - n p| for the first n points"""
    n = np.asarray(n, np.float64)
    return np.where(n > 0, np.log2(np.maximum(n, 1)) / 3 + 1, 0) + 1e-9


def run(c, ctx):
    rs = rs_of(c)
    if c["k"] == "gen":
        w, N = c["w"], 1 << c["w"]
        p = np.arange(N + 1) / N
        v = (2 * p - 1 if c["mode"] == "bipolar" else p).astype(np.float32)
        b = BinGen(torch.from_numpy(v), {"width": w, "mode": c["mode"]}, sw())()
        g = BSGen(b, RNG({"width": w, "dimr": c["dim"], "rng": "Sobol"}, sw())(), sw())
        x = np.stack([ctx.num(g(torch.tensor([t]))) for t in range(N)])
        ctx.event(N)
        ones = np.cumsum(x, 0)
        n = np.arange(1, N + 1)[:, None]
        ctx.close(ones, n * p[None], np.broadcast_to(disc(n), ones.shape), "ones of every prefix", width=w, dim=c["dim"])
        ctx.check(np.array_equal(ones[-1], p * N), "a full period is exact")
        blk = 1
        while blk <= N:
            s = x.reshape(N // blk, blk, N + 1).sum(1)
            ctx.close(s, np.broadcast_to(blk * p, s.shape), 1 - 1e-9, "every aligned block of 2^k cycles holds floor or ceil of its share", block=blk)
            blk *= 2
        ctx.check(np.all(np.diff(x, axis=1) >= 0), "a larger source never has fewer 1s in any cycle")
        if N > 1:
            ctx.mark("gen", w, c["dim"])
        ctx.sample = {"width": w, "worst": float(np.abs(ones - n * p).max())}
    elif c["k"] == "mul":
        w, N, ml = c["w"], 1 << c["w"], c["mode"]
        L = 40
        v = grid_values(rs, (L,), w, ml, frac=False)
        W = spec.to_int(v, w, ml) / N
        m = FSUMul(torch.from_numpy(v.copy()), {"width": w, "mode": ml, "static": True, "rng": "Sobol", "dimr": c["dim"]}, sw())
        T = N
        a = stim.mix(rs, T, (L,))
        y = []
        for t in range(T):
            y.append(ctx.num(m(tt(a[t]))))
            ctx.event()
        y = np.stack(y)
        k, k0 = np.cumsum(a, 0).astype(np.int64), np.cumsum(1 - a.astype(np.int64), 0)
        out = np.cumsum(y, 0)
        want = k * W + (k0 * (1 - W) if ml == "bipolar" else 0)
        tol = disc(k) + (disc(k0) if ml == "bipolar" else 0)
        ctx.close(out, want, tol, "product of every prefix", mode=ml, width=w)
        # the result depends on how many 1s arrived, not on when
        perm = np.argsort(rs.rand(T, L), 0)
        a2 = np.take_along_axis(a, perm, 0)
        m2 = FSUMul(torch.from_numpy(v.copy()), {"width": w, "mode": ml, "static": True, "rng": "Sobol", "dimr": c["dim"]}, sw())
        tot = 0
        for t in range(T):
            tot = tot + ctx.num(m2(tt(a2[t])))
            ctx.event()
        ctx.eq(np.asarray(tot), out[-1], "the product counts the same whatever the order of the input bits")
        if both(a) and both(y):
            ctx.mark("mul", ml, w, out[-1])
        ctx.sample = {"worst": float(np.abs(out - want).max())}
    elif c["k"] == "add":
        n, ml = c["n"], c["mode"]
        scale = n if c["scaled"] else 1
        m = FSUAdd({"mode": ml, "scale": scale, "dima": 0, "depth": 20, "entry": n}, sw())
        L, T = 30, 200
        x = np.stack([stim.mix(rs, T, (L,)) for _ in range(n)], 1)
        y = []
        for t in range(T):
            y.append(ctx.num(m(tt(x[t]))))
            ctx.event()
        y = np.stack(y)
        s = np.cumsum(x.astype(np.int64).sum(1) - (n - scale) / 2 * (ml == "bipolar"), 0)
        out = np.cumsum(y, 0)
        if c["scaled"]:
            ctx.eq(out, np.floor(s / n), "scaled sum: every prefix emits floor(sum/entry) ones", entries=n, mode=ml)
        else:
            # a queue served once per cycle: what the accumulator holds is never lost
            t = np.arange(1, T + 1)[:, None]
            served = np.minimum.accumulate(np.minimum(0, s - t), 0)
            ctx.check(np.all(out <= np.maximum.accumulate(np.maximum(s, 0), 0) + 1), "non-scaled sum never emits more than arrived")
            inr = np.all((np.diff(np.vstack([np.zeros((1, L)), s]), axis=0) >= 0), 0) if ml == "bipolar" else np.ones(L, bool)
            want = t + served
            ctx.check(np.all(np.abs(out - want)[:, inr] <= 1.5), "non-scaled sum: every prefix emits all that arrived, at one per cycle", entries=n, mode=ml)
        if both(y):
            ctx.mark("add", ml, n, c["scaled"], out[-1])
        ctx.sample = {"entries": n, "sum": float(s[-1][0]), "ones_out": float(out[-1][0])}
    else:
        w, N, ml, n = c["w"], 1 << c["w"], c["mode"], c["n"]
        o, b = 6, 3
        Wv = grid_values(rs, (o, n), w, ml, frac=False)
        Bv = grid_values(rs, (o,), w, ml, frac=False) if c["bias"] else None
        xv = grid_values(rs, (b, n), w, ml, frac=False)
        m = FSULinear(n, o, bias=c["bias"], weight_ext=torch.from_numpy(Wv.copy()), bias_ext=None if Bv is None else torch.from_numpy(Bv.copy()),
                      hwcfg={"width": w, "mode": ml, "scale": None, "depth": 16, "rng": "Sobol", "dimr": 1}, swcfg=sw())
        g = BSGen(BinGen(torch.from_numpy(xv.copy()), {"width": w, "mode": ml}, sw())(), RNG({"width": w, "dimr": 2, "rng": "Sobol"}, sw())(), sw())
        ent = n + c["bias"]
        exact = (xv.astype(np.float64) @ Wv.T.astype(np.float64) + (0 if Bv is None else Bv[None])) / ent
        out = 0
        for t in range(N):
            out = out + ctx.num(m(g(torch.tensor([t]))))
            ctx.event()
            k = t + 1
            dec = out / k
            if ml == "bipolar":
                dec = 2 * dec - 1
            # input prefix error + generator error for the 1s and the 0s, per entry, plus the carry
            per = (3 * disc(k) if ml == "bipolar" else 2 * disc(k)) * (2 if ml == "bipolar" else 1)
            ctx.close(dec, exact, (per + (2 if ml == "bipolar" else 1)) / k, "layer result of every prefix", mode=ml, width=w, cycle=t)
        if np.ptp(exact) > 0:
            ctx.mark("lin", ml, n, exact)
        ctx.sample = {"final_error": float(np.abs(dec - exact).max())}
