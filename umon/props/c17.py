"""FSULinear and its parallel counter."""
import numpy as np
import torch
from UnarySim.kernel import FSULinear, FSULinearPC
from .. import stim, spec
from ..capture import rng_sequences
from ..util import DT, sw, rs_of, pick, both, grid_values, tt, anyhow, laid, LAYOUTS

ID = "C17"
RULE = ("one case = one layer geometry, mode, width, scale, depth, weight generator, batch and stream mix; the parallel count and "
        "the carry stream are compared every cycle; non-trivial when the carry stream holds both 0s and 1s")
ASSUMPTIONS = ["weights and biases on a quarter-LSB grid inside the legal range", "bias, when enabled, is supplied",
               "temporal weight generators only with scaled addition (the constructor enforces it)"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(260 if tier == "quick" else 2600):
        w = int(pick(rs, [2, 3, 4, 5, 6, 7, 8, 8, 9]))
        n_in, n_out, b = int(pick(rs, [1, 2, 3, 5, 8, 16, 33, 70, 130, 300])), int(pick(rs, [1, 2, 3, 6, 17])), int(pick(rs, [1, 1, 2, 3, 8, 20]))
        bias = bool(rs.rand() < .5)
        rng = pick(rs, ["Sobol", "Sobol", "rc", "race", "tc", "race10", "tc10", "lfsr", "sys"])
        mode = pick(rs, ["unipolar", "bipolar", "Bipolar"])
        scale = pick(rs, [None, None, 1, 2, n_in + bias, 4, 1.5, 2.25, .5, n_in + .75])
        if rng in ("race", "tc", "race10", "tc10") and mode.lower() == "bipolar":
            scale = pick(rs, [None, n_in + bias])
        out.append({"w": w, "in": n_in, "out": n_out, "batch": b, "bias": bias, "rng": rng, "dim": int(pick(rs, [1, 1, 2, 4, 9])),
                    "mode": mode, "scale": scale, "depth": int(pick(rs, [10, 12, 14, 6])), "T": int(min(2 ** w * 2.5 + 9, 700)) if n_in < 100 else 60, "stp": pick(rs, ["f32", "f64", "i16", "i32", "i64"]), "rep": rep,
                    "at_call": bool(rs.rand() < .25), "form": pick(rs, ["name", "pos", "pos2", "name2"]), "entry_c": int(n_in + pick(rs, [0, 1, 3]))})
    for rep in range(8 if tier == "quick" else 40):       # large batches of many inputs
        n_in, bias = int(pick(rs, [257, 300, 520])), bool(rs.rand() < .5)
        out.append({"w": int(pick(rs, [3, 4, 8])), "in": n_in, "out": int(pick(rs, [1, 2, 5])), "batch": int(pick(rs, [33, 64, 130])), "bias": bias, "rng": pick(rs, ["Sobol", "rc", "tc"]), "dim": 1,
                    "mode": pick(rs, ["unipolar", "bipolar"]), "scale": pick(rs, [None, n_in + bias]), "depth": 14, "T": 40, "stp": pick(rs, ["f32", "f64", "i32"]), "rep": rep, "at_call": False, "entry_c": n_in, "cost": 40})
    for rep in range(4):
        out.append({"w": int(pick(rs, [3, 8])), "in": 6, "out": 2, "batch": 1, "bias": bool(rep & 1), "rng": ["Sobol", "tc"][rep == 3], "dim": 1, "mode": ["unipolar", "bipolar"][rep // 2],
                    "scale": None, "depth": 12, "T": stim.LONG[1], "at_call": False, "stp": "f32", "long": True, "cost": 500, "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    w, ml, n_in, n_out = c["w"], c["mode"].lower(), c["in"], c["out"]
    W = grid_values(rs, (n_out, n_in), w, ml)
    Bv = grid_values(rs, (n_out,), w, ml) if c["bias"] else None
    Wt, Bt = anyhow(torch.from_numpy(W.copy()), rs), None if Bv is None else anyhow(torch.from_numpy(Bv.copy()), rs)
    how = pick(rs, [None, None, *LAYOUTS])
    cfg_scale = None if c["at_call"] else c["scale"]
    hw = {"width": w, "mode": c["mode"], "scale": cfg_scale, "depth": c["depth"], "rng": c["rng"], "dimr": c["dim"]}
    temporal = c["rng"] in ("race", "tc", "race10", "tc10")
    with rng_sequences() as got:
        m = FSULinear(n_in, n_out, bias=c["bias"], weight_ext=Wt, bias_ext=Bt, hwcfg=hw, swcfg=sw())
    bseq = None
    if c["rng"] in ("lfsr", "sys"):
        if len(got) != 1 + c["bias"]:
            ctx.note("random_generator_not_observed")
            return
        seq = got[0].numpy().astype(np.int64)
        bseq = got[1].numpy().astype(np.int64) if c["bias"] else None
    else:
        seq = stim.rng_seq(c["rng"].lower(), w, c["dim"])
    ref = spec.LinearPC(spec.to_int(W, w, ml), None if Bv is None else spec.to_int(Bv, w, ml), seq, ml, temporal)
    # a runtime scale may come by name or by position, with or without a runtime entry count
    form = c.get("form", "name") if c["at_call"] else "name"
    entry = c["entry_c"] if form.endswith("2") else n_in + c["bias"]
    eff = n_in + c["bias"] if c["scale"] is None else c["scale"]
    add = spec.Add(ml, eff, entry, c["depth"])
    if bseq is None:
        pcm = FSULinearPC(n_in, n_out, bias=c["bias"], weight_ext=Wt, bias_ext=Bt,
                          hwcfg={k: hw[k] for k in ("width", "mode", "rng", "dimr")}, swcfg=sw(c["stp"])) if c["rng"] not in ("lfsr", "sys") else None
    else:
        pcm = None
    x = stim.long(rs, c["T"])[0][:, None, :] if c.get("long") else stim.mix(rs, c["T"], (c["batch"], n_in))
    # randomly drawn generators: the handed-out sequences are known, which of them drives the bias is not prescribed
    if bseq is None:
        ways = [(ref, None, add)]
    else:
        ways = []
        for sw_, sb_ in ([(seq, bseq), (bseq, seq)] if c["bias"] else [(seq, None)]):
            ways.append((spec.LinearPC(spec.to_int(W, w, ml), None, sw_, ml, temporal), sb_,
                         spec.Add(ml, eff, entry, c["depth"])))
    BI = None if Bv is None else spec.to_int(Bv, w, ml)
    ys, held = [], []
    for t in range(c["T"]):
        first = c["at_call"] and t == 0
        kw = {"scale": c["scale"], **({"entry": entry} if form == "name2" else {})} if first and form.startswith("name") else {}
        pos = (c["scale"], *((entry,) if form == "pos2" else ())) if first and form.startswith("pos") else ()
        cand = []
        for r_, sb_, a_ in ways:
            pc = r_.step(x[t])
            if sb_ is not None:
                pc = pc + (BI > sb_[t % len(sb_)]).astype(np.int64)[None]
            cand.append((pc, a_.step(pc)))
        if pcm is not None:
            ctx.eq(pcm(laid(tt(x[t], c["stp"]), how, rs)), cand[0][0], "parallel count", dtype=DT[c["stp"]], cycle=t)
        xt = laid(tt(x[t]), how, rs)
        o = m(xt, *pos, **kw)
        ctx.event()
        if len(ways) > 1:
            on = ctx.num(o)
            keep = [i for i, (_, y_) in enumerate(cand) if on.shape == y_.shape and np.array_equal(on, y_)]
            if keep:
                ways, cand = [ways[i] for i in keep], [cand[i] for i in keep]
        y = cand[0][1]
        ctx.eq(o, y, "layer output stream", dtype=torch.float32, cycle=t, mode=ml, rng=c["rng"], scale=eff)
        ctx.eq(xt, x[t], "input of the layer")
        ys.append(y)
        if t % 11 == 5:
            held.append((t, o, y))
    for t, o, y in held:
        ctx.eq(o, y, "an earlier output changed later", cycle=t)
    ctx.eq(Wt, W, "weights given by the caller")
    if Bt is not None:
        ctx.eq(Bt, Bv, "bias given by the caller")
    y = np.stack(ys)
    if both(y):
        ctx.mark(n_in, n_out, ml, c["rng"], y[:32])
    ctx.note("saturated_cases", ways[0][2].saturated)
    ctx.sample = {"entry": entry, "scale": eff, "ones_out": int(y.sum()), "of": int(y.size)}
