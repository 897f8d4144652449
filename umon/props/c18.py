"""FSUConv2d and its parallel counter."""
import numpy as np
import torch
from UnarySim.kernel import FSUConv2d, FSUConv2dPC
from .. import stim, spec
from ..util import sw, rs_of, pick, both, grid_values, tt, anyhow, laid, LAYOUTS

ID = "C18"
RULE = ("one case = one convolution geometry (kernel, stride, padding, dilation, channels, size, batch), mode, width, scale and "
        "generator; parallel counts and carry streams are compared every cycle; non-trivial when the output has both 0s and 1s")
ASSUMPTIONS = ["groups=1 and zero padding mode (the constructor enforces it)", "bias, when enabled, is supplied",
               "bipolar zero padding is the alternating stream 0,1,0,1,... starting with 0"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(260 if tier == "quick" else 1900):
        two = lambda vals: pick(rs, vals) if rs.rand() < .5 else [pick(rs, vals), pick(rs, vals)]
        k, s, p, d = two([1, 2, 3, 3, 4]), two([1, 1, 2, 3, 4]), two([0, 0, 1, 2, 3]), two([1, 1, 2, 3])
        cin, cout = int(pick(rs, [1, 2, 3, 5])), int(pick(rs, [1, 2, 4, 7]))
        kk = (k, k) if isinstance(k, int) else k
        n_in = kk[0] * kk[1] * cin
        bias = bool(rs.rand() < .5)
        rng = pick(rs, ["Sobol", "Sobol", "rc", "race", "tc10"])
        mode = pick(rs, ["unipolar", "bipolar", "Bipolar"])
        scale = pick(rs, [None, None, 1, 2, n_in + bias, 1.5, 2.25, .5, n_in + .75])
        if rng in ("race", "tc10") and mode.lower() == "bipolar":
            scale = None
        w = int(pick(rs, [2, 3, 4, 5, 6, 8]))
        out.append({"k": k, "s": s, "p": p, "d": d, "cin": cin, "cout": cout, "hw": [int(max(rs.randint(4, 10), d_ * (k_ - 1) + 1 - 2 * p_)) for k_, p_, d_ in zip(pair(k), pair(p), pair(d))],
                    "batch": int(pick(rs, [1, 1, 2, 3])), "bias": bias, "rng": rng, "dim": int(pick(rs, [1, 1, 2, 5])), "mode": mode,
                    "scale": scale, "depth": int(pick(rs, [10, 12])), "w": w, "T": int(min(2 ** w * 1.5 + 9, 140)) if rs.rand() < .9 else int(2 ** w * 2.2 + 3), "rep": rep,
                    "form": pick(rs, [None, None, None, "name", "pos", "pos2", "name2"]) if not (rng in ("race", "tc10") and mode.lower() == "bipolar") else None, "entry_c": int(n_in + pick(rs, [0, 1, 3]))})
    for rep in range(12 if tier == "quick" else 60):        # images of the size networks have, for some cycles
        k, p = int(pick(rs, [1, 3, 5])), int(pick(rs, [0, 1, 2]))
        w = int(pick(rs, [6, 8, 9, 10]))
        cin, cout, b, side = [(3, 6, 2, 32), (6, 16, 1, 14), (1, 6, 16, 28), (16, 8, 2, 12), (1, 2, 1, 150), (2, 60, 1, 12)][rep % 6]
        out.append({"k": k, "s": int(pick(rs, [1, 1, 2])), "p": p, "d": int(pick(rs, [1, 1, 2])), "cin": cin, "cout": cout, "hw": [side, side - int(rs.randint(3))],
                    "batch": b, "bias": bool(rs.rand() < .5), "rng": pick(rs, ["Sobol", "Sobol", "race"]), "dim": int(pick(rs, [1, 3])), "mode": pick(rs, ["unipolar", "bipolar"]),
                    "scale": None, "depth": 12, "w": w, "T": 12, "rep": rep, "form": None, "entry_c": 0, "cost": 20})
    for rep in range(4):
        out.append({"k": 2, "s": 1, "p": int(rep < 3), "d": 1, "cin": 1, "cout": 1, "hw": [2, 3], "batch": 1, "bias": rep >= 2, "rng": ["Sobol", "Sobol", "tc10", "Sobol"][rep], "dim": 1,
                    "mode": ["bipolar", "unipolar", "bipolar", "bipolar"][rep], "scale": None, "depth": 10, "w": 8, "T": 17000, "long": True, "cost": 500, "rep": rep})
    return out


def pair(v):
    return (v, v) if isinstance(v, int) else v


def two(v):
    return (v, v) if isinstance(v, int) else tuple(v)


def arg(v):
    return v if isinstance(v, int) else tuple(v)


def run(c, ctx):
    rs = rs_of(c)
    w, ml = c["w"], c["mode"].lower()
    k, s, p, d = two(c["k"]), two(c["s"]), two(c["p"]), two(c["d"])
    cin, cout, (H, Wd), b = c["cin"], c["cout"], c["hw"], c["batch"]
    n_in = k[0] * k[1] * cin
    W = grid_values(rs, (cout, cin) + k, w, ml)
    Bv = grid_values(rs, (cout,), w, ml) if c["bias"] else None
    Wt, Bt = anyhow(torch.from_numpy(W.copy()), rs), None if Bv is None else anyhow(torch.from_numpy(Bv.copy()), rs)
    how = pick(rs, [None, None, *LAYOUTS])
    hw = {"width": w, "mode": c["mode"], "scale": None if c.get("form") else c["scale"], "depth": c["depth"], "rng": c["rng"], "dimr": c["dim"]}
    kw = dict(stride=arg(c["s"]), padding=arg(c["p"]), dilation=arg(c["d"]), bias=c["bias"], weight_ext=Wt, bias_ext=Bt, swcfg=sw())
    m = FSUConv2d(cin, cout, arg(c["k"]), hwcfg=hw, **kw)
    pcm = FSUConv2dPC(cin, cout, arg(c["k"]), hwcfg=hw, **kw)
    seq = stim.rng_seq(c["rng"].lower(), w, c["dim"])
    temporal = c["rng"] in ("race", "tc", "race10", "tc10")
    ref = spec.LinearPC(spec.to_int(W, w, ml).reshape(cout, -1), None if Bv is None else spec.to_int(Bv, w, ml), seq, ml, temporal)
    form = c.get("form") or ""
    entry = c["entry_c"] if form.endswith("2") else n_in + c["bias"]
    eff = n_in + c["bias"] if c["scale"] is None else c["scale"]
    add = spec.Add(ml, eff, entry, c["depth"])
    x = stim.long(rs, c["T"])[0].reshape(-1, 1, 1, 2, 3) if c.get("long") else stim.mix(rs, c["T"], (b, cin, H, Wd))
    ys, held = [], []
    for t in range(c["T"]):
        pad = t % 2 if ml == "bipolar" else 0
        cols, (oh, ow) = spec.unfold(x[t].astype(np.int64), k, s, p, d, pad)
        pc = ref.step(cols).reshape(b, oh, ow, cout).transpose(0, 3, 1, 2)
        xt = laid(tt(x[t]), how, rs)
        ctx.eq(pcm(xt), pc, "parallel count", dtype=torch.float32, cycle=t)
        kw = {"scale": c["scale"], **({"entry": entry} if form == "name2" else {})} if t == 0 and form.startswith("name") else {}
        pos = (c["scale"], *((entry,) if form == "pos2" else ())) if t == 0 and form.startswith("pos") else ()
        o = m(xt, *pos, **kw)
        y = add.step(pc)
        ctx.event()
        ctx.eq(o, y, "convolution output stream", dtype=torch.float32, cycle=t, mode=ml, padding=str(p), kernel=str(k))
        ctx.eq(xt, x[t], "input of the convolution")
        ys.append(y)
        if t % 11 == 5:
            held.append((t, o, y))
    for t, o, y in held:
        ctx.eq(o, y, "an earlier output changed later", cycle=t)
    ctx.eq(Wt, W, "weights given by the caller")
    y = np.stack(ys)
    if both(y):
        ctx.mark(str(k), str(s), str(p), str(d), ml, c["rng"], y[:16])
    ctx.note("padded_cases", int(max(p) > 0))
    ctx.note("rectangular_padding", int(p[0] != p[1]))
    ctx.sample = {"output": list(y.shape), "ones_out": int(y.sum()), "of": int(y.size)}
