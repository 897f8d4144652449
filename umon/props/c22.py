"""TLUTLinear / TLUTConv2d."""
import numpy as np
import torch
from UnarySim.kernel import TLUTLinear, TLUTConv2d
from .. import hubref
from ..util import rs_of, pick, anyhow

ID = "C22"
RULE = ("one case = one layer kind, geometry, temporal operand, number formats, widths, digit width, cycle budget, quantiles, rounding "
        "and data distribution; non-trivial when the result is not constant; every output is compared with digit-limited exact arithmetic")
ASSUMPTIONS = ["floating-point operands have the dtype of their declared format (float32 where one operand is fixed-point)",
               "matrix-product noise: a few units in the last place of the result type times the sum of magnitudes",
               "data whose scale sits within 0.1% of a power-of-two rounding boundary are regenerated"]
FMT = {"float32": torch.float32, "bfloat16": torch.bfloat16, "float16": torch.float16}
EPS = {"float32": 2.0 ** -22, "bfloat16": 2.0 ** -7, "float16": 2.0 ** -10}


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(6000 if tier == "quick" else 7000):
        mode = pick(rs, ["fxpfxp", "fxpfxp", "fpfp", "fpfp", "fxpfp"])
        temporal = pick(rs, ["i", "w", "input", "weight", "I"])
        wt = int(pick(rs, [1, 2, 3, 4, 4, 5, 6, 8]))
        fi = fw = "fxp"
        dt = "float32"
        if mode == "fpfp":
            fi = fw = dt = pick(rs, ["float32", "bfloat16", "float16"])
        elif mode == "fxpfp":
            dt = pick(rs, ["float32", "float32", "bfloat16", "float16"])
            if temporal.lower()[0] == "i":
                fw = dt
            else:
                fi = dt
        wmax = {"float32": 13, "bfloat16": 8, "float16": 11}[dt]
        out.append({"k": pick(rs, ["lin", "lin", "conv"]), "temporal": temporal, "wt": wt, "fi": fi, "fw": fw, "dt": dt,
                    "wi": int(rs.randint(2, wmax)), "ww": int(rs.randint(2, wmax)), "qi": float(pick(rs, [1, 1, 0.99, 0.9])), "qw": float(pick(rs, [1, 1, 0.99, 0.9])),
                    "cycle": pick(rs, [None, None, 2 ** wt, 2 ** wt + 5, max(1, 2 ** wt - 1), max(1, 2 ** wt // 2), 1]),
                    "rounding": pick(rs, ["round", "floor", "ceil"]), "bias": bool(rs.rand() < .5),
                    "di": pick(rs, [k for k in hubref.KINDS if k not in ("big", "huge") or dt != "float16"]), "dw": pick(rs, [k for k in hubref.KINDS if k not in ("big", "huge")]), "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    conv = c["k"] == "conv"
    dt = FMT[c["dt"]]
    if conv:
        k, s, p, d = [(int(rs.randint(lo, hi)), int(rs.randint(lo, hi))) for lo, hi in hubref.GEO[rs.randint(len(hubref.GEO))]]
        cin, cout, b = int(pick(rs, [1, 2, 3, 6])), int(pick(rs, [1, 2, 4, 9])), int(pick(rs, [1, 2, 3, 5]))
        im = hubref.image(rs, k, p, d)
        if c["rep"] % 24 == 7:      # layers of the size networks have
            cin, cout, b, im = hubref.network(rs, k, im)
        xs, ws = (b, cin, *im), (cout, cin) + k
    else:
        b, ni, cout = int(pick(rs, [1, 2, 5, 16])), int(pick(rs, [1, 2, 7, 32, 100])), int(pick(rs, [1, 3, 10]))
        if c["rep"] % 24 == 7:
            b, ni, cout = pick(rs, [(1, 4096, 40), (128, 784, 10), (64, 256, 100), (300, 84, 10), (2, 1200, 500), (700, 40, 30)])
        xs, ws = (b, ni), (cout, ni)
    hw = {"temporal": c["temporal"], "widtht": c["wt"], "formati": c["fi"], "widthi": c["wi"], "quantilei": c["qi"], "formatw": c["fw"],
          "widthw": c["ww"], "quantilew": c["qw"], "cycle": c["cycle"], "rounding": c["rounding"], "signmag": True}

    def cast(v):
        return torch.from_numpy(v.copy()).to(dt)
    for _ in range(50):
        xt, Wt = cast(hubref.data(rs, xs, c["di"])), cast(hubref.data(rs, ws, c["dw"]))
        x, W = xt.float().numpy(), Wt.float().numpy()
        pair = None
        if conv and not (c["fi"] != "fxp" and c["fw"] != "fxp") and min(p) >= 0:
            # quantiles are taken over the unfolded patches, so compute on them
            from ..spec import unfold
            cols, (oh, ow) = unfold(x, k, s, p, d, 0)
            pair = hubref.tlut_operands(cols, W.reshape(cout, -1), hw)
        elif conv:
            from ..spec import unfold
            cols, (oh, ow) = unfold(x, k, s, p, d, 0)
            pair = hubref.tlut_operands(cols, W.reshape(cout, -1), hw)
        else:
            pair = hubref.tlut_operands(x, W, hw)
        if pair is not None:
            break
    else:
        return
    Bt = cast(hubref.data(rs, (cout,), "normal")) if c["bias"] else None
    B = None if Bt is None else Bt.float().numpy().astype(np.float64)
    X, Y = pair
    y2 = X @ Y.T
    mag = np.abs(X) @ np.abs(Y).T
    x0 = cols if conv else x
    full = np.abs(x0.astype(np.float64)) @ np.abs(W.reshape(cout, -1).astype(np.float64)).T
    ex = x0.astype(np.float64) @ W.reshape(cout, -1).astype(np.float64).T
    if conv:
        shp = lambda v: v.reshape(b, oh, ow, cout).transpose(0, 3, 1, 2)
        a = lambda v: v if v[0] != v[1] or rs.rand() < .5 else v[0]
        m = TLUTConv2d(cin, cout, a(k), a(s), a(p), a(d), bias=c["bias"], weight_ext=anyhow(Wt.clone(), rs), bias_ext=None if Bt is None else anyhow(Bt.clone(), rs), hwcfg=hw)
        bb = 0 if B is None else B.reshape(1, -1, 1, 1)
    else:
        shp = lambda v: v
        m = TLUTLinear(ni, cout, bias=c["bias"], weight_ext=anyhow(Wt.clone(), rs), bias_ext=None if Bt is None else anyhow(Bt.clone(), rs), hwcfg=hw)
        bb = 0 if B is None else B[None]
    want, mag, ex = shp(y2) + bb, shp(mag) + np.abs(bb), shp(ex) + bb
    tol = EPS[c["dt"]] * 2 * max(1, x0.shape[1] ** .5 / 5) * mag + (6e-5 if c["dt"] == "float16" else 1e-30) * (1 + x0.shape[1] * (c["dt"] == "float16"))
    xi = anyhow(xt.clone(), rs, .4)
    if hubref.earlier_use(rs, m, x, W):
        ctx.event()
        ctx.note("layers_used_before")
    for again in range(2):
        y = m(xi)
        ctx.event()
        if y.dtype != dt:
            ctx.fail("result type", got=str(y.dtype), want=str(dt))
        ctx.close(y, want, tol, "T-LUT product sum", kind=c["k"], temporal=c["temporal"], formats=c["fi"] + "/" + c["fw"], widtht=c["wt"], cycle=str(c["cycle"]))
    ctx.check(torch.equal(xi, xt), "layer input unchanged")
    cyc = 2 ** c["wt"] if c["cycle"] is None else min(c["cycle"], 2 ** c["wt"])
    if cyc == 2 ** c["wt"] and c["fi"] != "fxp" and c["fw"] != "fxp":
        ctx.close(y, ex, tol, "floating-point T-LUT at full cycles is lossless")
        ctx.note("lossless_cases")
    if np.ptp(want) > 0:
        ctx.mark(c["k"], c["temporal"], c["fi"], c["fw"], c["wt"], cyc, want)
    ctx.sample = {"out": want.reshape(-1)[:4].tolist(), "exact": ex.reshape(-1)[:4].tolist()}
