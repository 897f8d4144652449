"""Binary conversion and bit-stream generation."""
import numpy as np
import torch
from UnarySim.stream import RNG, BinGen, BSGen
from .. import stim
from ..util import DT, rs_of, grid_values, pick, anyhow

ID = "C02"
RULE = ("one case = one (mode, width, generator, number types, shape) with sources on and off the grid, streamed for "
        "more than one period; non-trivial when the streams hold both 0s and 1s; every bit is compared")
ASSUMPTIONS = ["off-grid sources are compared with tolerance 2^w*2^-21 of an LSB-half (float32 arithmetic)",
               "sources lie in [0,1] (unipolar) or [-1,1] (bipolar)"]


def cases(tier, seed):
    out = []
    rs = np.random.RandomState(seed)
    ws = list(range(1, 11)) + ([12] if tier == "quick" else [11, 12, 13, 14])
    reps = 5 if tier == "quick" else 12
    for rep in range(reps):
        for w in ws:
            for mode in ("unipolar", "Bipolar"):
                for r in ("sobol", "rc", "race", "tc10", "race10", "lfsr", "sys"):
                    if r == "lfsr" and (w < 2 or w > 12):
                        continue
                    out.append({"w": w, "mode": mode, "rng": r, "rep": rep, "shape": list(pick(rs, stim.SHAPES)),
                                "dim": int(rs.randint(1, 20)), "cost": 2 ** w / 300})
    return out


def run(c, ctx):
    rs = rs_of(c)
    w, mode = c["w"], c["mode"].lower()
    n = 1 << w
    shape = tuple(c["shape"])
    # 1. conversion: exact sources
    src = grid_values(rs, shape, w, mode)
    rt = pick(rs, ["f32", "f64", "i32", "i64"] + (["i16"] if w < 15 else []) + (["i8"] if w < 7 else []) + (["f16"] if w < 11 else []))
    s = torch.from_numpy(src.copy())
    s = anyhow(s, rs, .4)
    if rs.rand() < .2:
        s = s.to(torch.float64)
    if rs.rand() < .2:
        s = torch.nn.Parameter(s)
    B = BinGen(s, {"width": w, "mode": c["mode"]}, {"rtype": DT[rt]})()
    ctx.event()
    want = np.rint(((src.astype(np.float64) + 1) / 2 if mode == "bipolar" else src.astype(np.float64)) * n)
    ctx.eq(B, want, "binary value of an exact source", dtype=DT[rt], width=w, mode=mode)
    ctx.eq(s, src, "source tensor after conversion")
    # ties go to even
    k = np.arange(0, min(n, 64), dtype=np.float64) + 0.5
    tie = (k / n if mode == "unipolar" else 2 * k / n - 1).astype(np.float32)
    Bt = BinGen(torch.from_numpy(tie), {"width": w, "mode": c["mode"]}, {"rtype": torch.float})()
    ctx.eq(Bt, np.rint(k), "ties round to even", width=w, mode=mode)
    # arbitrary sources: nearest up to float32 arithmetic; ends exact
    u = rs.rand(512)
    arb = np.concatenate([(2 * u - 1 if mode == "bipolar" else u), [1.0, 0.0, -1.0 if mode == "bipolar" else 0.0]]).astype(np.float32)
    Ba = ctx.num(BinGen(torch.from_numpy(arb), {"width": w, "mode": c["mode"]}, {"rtype": torch.float})())
    exact = ((arb.astype(np.float64) + 1) / 2 if mode == "bipolar" else arb.astype(np.float64)) * n
    ctx.close(Ba, exact, 0.5 + n * 2.0 ** -22, "binary value is the nearest integer", width=w)
    ctx.check(np.array_equal(Ba, np.rint(Ba)) and Ba.min() >= 0 and Ba.max() <= n, "binary value in 0..2^w", got=Ba)
    # the same in double precision, with values next to the ties that single precision cannot hold
    near = (rs.randint(0, n, 64) + .5 + rs.choice([-1, 1], 64) * n * 2.0 ** -rs.randint(30, 44, 64)) / n
    arb = np.concatenate([rs.rand(64), near])
    arb = 2 * arb - 1 if mode == "bipolar" else arb
    Ba = ctx.num(BinGen(torch.from_numpy(arb.copy()), {"width": w, "mode": c["mode"]}, {"rtype": torch.float})())
    exact = ((arb + 1) / 2 if mode == "bipolar" else arb) * n
    ctx.close(Ba, exact, 0.5 + n * 2.0 ** -50, "binary value of a double precision source is the nearest integer", width=w)
    ctx.event(3)
    # 2. streams
    rng = RNG({"width": w, "dimr": c["dim"], "rng": c["rng"]}, {"rtype": DT[rt]})()
    seq = ctx.num(rng).astype(np.int64)
    if c["rng"] not in ("lfsr", "sys"):
        ctx.eq(seq, stim.rng_seq(c["rng"], w, c["dim"]), "sequence used for comparison")
    Bi = want.astype(np.int64)
    st = pick(rs, list(DT))
    g = BSGen(B, rng, {"stype": DT[st]})
    T = n + min(n, 70) + 3
    per = c["rng"] != "lfsr"
    start = int(rs.randint(0, 3 * n))
    if rs.rand() < .4:        # late cycles: nothing may depend on how large the index is
        start += int(pick(rs, [2 ** 15, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 33, 2 ** 53])) - min(n, int(rs.randint(0, 2 * n)))
    ones = np.zeros(shape)
    seen = np.zeros(2, bool)
    cyc_dt = pick(rs, ["i64", "i32", "f32"] + [d for d, top in (("i16", 2 ** 15), ("i8", 128)) if n <= 4 * top]) if start + T < 2 ** 24 else "i64"
    if cyc_dt in ("i8", "i16"):      # a narrow counter, from its first cycle to its last
        start, T = 0, min(T, 128 if cyc_dt == "i8" else 2 ** 15)
    for t in range(T):
        cyc = torch.full(shape if rs.rand() < .5 else (1,), start + t).to(DT[cyc_dt])
        o = g(cyc)
        bits = (Bi > seq[(start + t) % n]).astype(np.int64)
        ctx.eq(o, bits, "bit at a cycle", dtype=DT[st], cycle=start + t, rng=c["rng"], width=w)
        ctx.event()
        if t < n:
            ones += bits
            got_ones = ctx.num(o).astype(np.int64) if t == 0 else got_ones + ctx.num(o).astype(np.int64)
        seen |= np.array([not bits.all(), bits.any()])
    if per and T >= n:
        ctx.eq(got_ones, Bi, "ones over one full period", width=w, rng=c["rng"], start=start)
    # per-element cycle counters (how the multipliers and layers use it)
    for _ in range(8):
        idx = rs.randint(0, 4 * n, size=shape) + int(pick(rs, [0, 0, 2 ** 24, 2 ** 31, 2 ** 40]))
        o = g(torch.from_numpy(idx))
        ctx.eq(o, (Bi > seq[idx % n]).astype(np.int64), "bit at per-element cycles", width=w)
        ctx.event()
    # indices of fewer or more dimensions than the source: the ordinary broadcasting rules
    for ish in ((), (1,), (1,) * (len(shape) + 2), (3,) + (1,) * len(shape), (2,) + shape, shape[-1:]):
        idx = rs.randint(0, 4 * n, size=ish)
        o = g(torch.as_tensor(idx))
        want_b = (Bi > seq[np.asarray(idx) % n]).astype(np.int64)
        if tuple(o.shape) != np.broadcast_shapes(shape, ish):
            ctx.fail("shape of the bits", got=str(tuple(o.shape)), want=str(np.broadcast_shapes(shape, ish)), index=str(ish))
        ctx.eq(o, want_b, "bit at broadcast cycles", width=w, index=str(ish))
        ctx.event()
    # a caller-made sequence (any integers, repeats allowed) of any power-of-two length
    for _ in range(4):
        L = 2 ** int(rs.randint(0, 8))
        own = rs.randint(0, n, size=L)
        g2 = BSGen(B, torch.from_numpy(own).to(pick(rs, [torch.int64, torch.float32, torch.float64])), {"stype": DT[st]})
        for _ in range(6):
            idx = rs.randint(0, 5 * L, size=shape)
            ctx.eq(g2(torch.from_numpy(idx)), (Bi > own[idx % L]).astype(np.int64), "bit from the caller's own sequence", dtype=DT[st], length=L)
            ctx.event()
    if seen.all():
        ctx.mark(w, mode, c["rng"], Bi, start)
    ctx.sample = {"binary": Bi.reshape(-1)[:8].tolist(), "start_cycle": start, "cycles": T, "stype": st, "rtype": rt}
