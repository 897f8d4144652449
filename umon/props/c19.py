"""FSU/HUB minimal gated unit cells."""
import numpy as np
import torch
from UnarySim.kernel.rnn import FSUMGUCell, HUBMGUCell
from .. import stim, spec
from ..util import sw, rs_of, pick, both, grid_values, tt, anyhow, laid, LAYOUTS

ID = "C19"
RULE = ("one case = one cell geometry, width, depths, bias, generator dimension and stream mix (or one binary input for the hybrid "
        "cell); non-trivial when the hidden-state stream holds both 0s and 1s; every output bit (or decoded value) is compared")
ASSUMPTIONS = ["bipolar mode (the constructor enforces it)", "inputs and hidden states on the quarter-LSB grid"]


class Cell:
    def __init__(self, Wf, Bf, Wn, Bn, hx, w, depth, wim, rng, dim):
        seq = stim.rng_seq(rng, w, dim)
        ti = lambda v: None if v is None else spec.to_int(v, w, "bipolar")
        n = Wf.shape[1] + (Bf is not None)
        temporal = rng in ("race", "tc", "race10", "tc10")
        self.f, self.n = spec.LinearPC(ti(Wf), ti(Bf), seq, "bipolar", temporal), spec.LinearPC(ti(Wn), ti(Bn), seq, "bipolar", temporal)
        self.fa, self.na = spec.Add("bipolar", 1, n, depth), spec.Add("bipolar", 1, n, depth)
        self.sig = spec.Add("bipolar", 2, 2, depth)
        self.mh = spec.MulStatic(ti(hx), seq, "bipolar")
        self.mn = spec.MulStream(stim.rng_seq(rng, wim, dim), "bipolar")
        self.hy = spec.Add("bipolar", 1, 3, depth)

    def step(self, x, h):
        fg = self.sig.step(self.fa.step(self.f.step(np.concatenate([h, x], 1))) + 1)
        fh = self.mh.step(fg)
        ng = self.na.step(self.n.step(np.concatenate([fh, x], 1)))
        fn = self.mn.step(fg, ng)
        return self.hy.step(ng + (1 - fn) + fh)


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(140 if tier == "quick" else 1400):
        w = int(pick(rs, [3, 4, 5, 6, 7, 8]))
        out.append({"k": "fsu", "w": w, "in": int(pick(rs, [1, 2, 4, 9, 20])), "hid": int(pick(rs, [1, 2, 3, 8])), "batch": int(pick(rs, [1, 1, 2, 4])),
                    "bias": bool(rs.rand() < .6), "depth": int(pick(rs, [8, 10, 12])), "wim": int(pick(rs, [1, 2, 4, 6, 8])),
                    "rng": pick(rs, ["Sobol", "Sobol", "rc"]), "dim": int(pick(rs, [1, 1, 2, 4])), "T": int(min(2 ** w * 2.3 + 5, 600)), "rep": rep})
    for rep in range(3):
        out.append({"k": "fsu", "w": int(pick(rs, [3, 8])), "in": 4, "hid": 2, "batch": 1, "bias": rep == 1, "depth": 10, "wim": int(pick(rs, [3, 6])), "rng": "Sobol", "dim": 1,
                    "T": 17000, "long": True, "cost": 500, "rep": rep})
    for rep in range(40 if tier == "quick" else 400):
        w = int(pick(rs, [3, 4, 5, 6, 8]))
        out.append({"k": "hub", "w": w, "in": int(pick(rs, [1, 3, 8])), "hid": int(pick(rs, [1, 2, 5])), "batch": int(pick(rs, [1, 2, 3])),
                    "bias": bool(rs.rand() < .6), "depth": int(pick(rs, [8, 10])), "wim": int(pick(rs, [3, 6])), "rng": "Sobol",
                    "dim": int(pick(rs, [1, 1, 3])), "rep": rep, "none_hx": bool(rs.rand() < .3), "cost": 3})
    return out


def run(c, ctx):
    rs = rs_of(c)
    w, ni, nh, b = c["w"], c["in"], c["hid"], c["batch"]
    sc = pick(rs, [1.0, 0.5, 0.25])
    g = lambda *s: (np.round(grid_values(rs, s, w, "bipolar", frac=False) * sc * 2 ** (w - 1)) / 2 ** (w - 1)).astype(np.float32)
    Wf, Wn = g(nh, nh + ni), g(nh, nh + ni)
    Bf, Bn = (g(nh), g(nh)) if c["bias"] else (None, None)
    T_ = lambda v: None if v is None else anyhow(torch.from_numpy(v.copy()), rs)
    how = pick(rs, [None, None, *LAYOUTS])
    hw = {"width": w, "mode": pick(rs, ["bipolar", "Bipolar"]), "depth": c["depth"], "depth_ismul": c["wim"], "rng": c["rng"], "dimr": c["dim"]}
    hx = grid_values(rs, (b, nh), w, "bipolar")
    if c["k"] == "fsu":
        ref = Cell(Wf, Bf, Wn, Bn, hx, w, c["depth"], c["wim"], c["rng"].lower(), c["dim"])
        hxt = T_(hx)
        m = FSUMGUCell(ni, nh, bias=c["bias"], weight_ext_f=T_(Wf), bias_ext_f=T_(Bf), weight_ext_n=T_(Wn), bias_ext_n=T_(Bn),
                       hx_buffer=hxt, hwcfg=hw, swcfg=sw())
        if c.get("long"):
            x, h = (v[:, None, :] for v in stim.long(rs, c["T"], 2))
            x, h = x[:, :, :4], h[:, :, 2:4]
        else:
            x, h = stim.mix(rs, c["T"], (b, ni)), stim.mix(rs, c["T"], (b, nh))
        ys = []
        for t in range(c["T"]):
            o = m(laid(tt(x[t]), how, rs), laid(tt(h[t]), how, rs))
            y = ref.step(x[t].astype(np.int64), h[t].astype(np.int64))
            ctx.event()
            ctx.eq(o, y, "hidden state stream", dtype=torch.float32, cycle=t)
            ys.append(y)
        ctx.eq(hxt, hx, "hidden state given by the caller")
        y = np.stack(ys)
        if both(y):
            ctx.mark("fsu", ni, nh, c["bias"], y[:64])
        ctx.sample = {"T": c["T"], "ones_out": int(y.sum()), "of": int(y.size)}
        return
    x = grid_values(rs, (b, ni), w, "bipolar")
    if c["none_hx"]:
        hx = np.zeros((b, nh), np.float32)
    m = HUBMGUCell(ni, nh, bias=c["bias"], weight_ext_f=T_(Wf), bias_ext_f=T_(Bf), weight_ext_n=T_(Wn), bias_ext_n=T_(Bn), hwcfg=hw)
    for rounds in range(2):
        # the recurrence: the second step is fed with the first one's result
        ref = Cell(Wf, Bf, Wn, Bn, hx, w, c["depth"], c["wim"], c["rng"].lower(), c["dim"])
        xt, ht = T_(x), (None if (c["none_hx"] and rounds == 0) else T_(hx))
        hy = m(xt, ht)
        ctx.event()
        seq = stim.rng_seq(c["rng"].lower(), w, c["dim"])
        X, H = spec.to_int(x, w, "bipolar"), spec.to_int(hx, w, "bipolar")
        ones = 0
        for t in range(2 ** w):
            ones = ones + ref.step((X > seq[t]).astype(np.int64), (H > seq[t]).astype(np.int64))
        want = 2 * (ones / 2 ** w) - 1
        ctx.close(hy, want, 1e-6, "decoded hidden state of the hybrid cell", step=rounds)
        ctx.eq(xt, x, "input of the hybrid cell")
        hx = want.astype(np.float32)
        x = grid_values(rs, (b, ni), w, "bipolar")
    if np.any(np.abs(want) < 1):
        ctx.mark("hub", ni, nh, want)
    ctx.sample = {"hidden": want.reshape(-1)[:4].tolist()}
