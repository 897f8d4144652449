"""FXPLinear / FXPConv2d."""
import numpy as np
import torch
from UnarySim.kernel import FXPLinear, FXPConv2d
from .. import hubref
from ..util import rs_of, pick, anyhow

ID = "C21"
RULE = ("one case = one layer kind, geometry, pair of widths, quantiles, rounding and data distribution; non-trivial when the result is "
        "not constant; every output is compared with exact fixed-point arithmetic, and with the real product within half-LSB bounds")
ASSUMPTIONS = ["data whose scale sits within 0.1% of a power-of-two rounding boundary are regenerated",
               "float32 accumulation noise: 2e-6 of the sum of magnitudes"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(4500 if tier == "quick" else 18000):
        out.append({"k": pick(rs, ["lin", "lin", "conv"]), "wi": int(rs.randint(2, 13)), "ww": int(rs.randint(2, 13)),
                    "qi": float(pick(rs, [1, 1, 0.99, 0.9, 0.7])), "qw": float(pick(rs, [1, 1, 0.99, 0.9])),
                    "rounding": pick(rs, ["round", "floor", "ceil", "Floor"]), "bias": bool(rs.rand() < .5),
                    "di": pick(rs, hubref.KINDS), "dw": pick(rs, hubref.KINDS), "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    rd = c["rounding"].lower()
    conv = c["k"] == "conv"
    if conv:
        k, s, p, d = [(int(rs.randint(lo, hi)), int(rs.randint(lo, hi))) for lo, hi in hubref.GEO[rs.randint(len(hubref.GEO))]]
        cin, cout, b = int(pick(rs, [1, 2, 3, 6])), int(pick(rs, [1, 2, 4, 9])), int(pick(rs, [1, 2, 3, 5]))
        im = hubref.image(rs, k, p, d)
        if c["rep"] % 24 == 7:      # layers of the size networks have
            cin, cout, b, im = hubref.network(rs, k, im)
        xs, ws = (b, cin, *im), (cout, cin) + k
    else:
        b, ni, cout = int(pick(rs, [1, 2, 5, 16])), int(pick(rs, [1, 2, 7, 32, 100, 300])), int(pick(rs, [1, 3, 10]))
        if c["rep"] % 24 == 7:
            b, ni, cout = pick(rs, [(1, 4096, 40), (128, 784, 10), (64, 256, 100), (300, 84, 10), (2, 1200, 500), (700, 40, 30)])
        xs, ws = (b, ni), (cout, ni)
    for _ in range(50):
        x, W = hubref.data(rs, xs, c["di"]), hubref.data(rs, ws, c["dw"])
        ei, ew = hubref.scale_exp(x, c["qi"], rd), hubref.scale_exp(W, c["qw"], rd)
        if ei is not None and ew is not None:
            break
    else:
        return
    B = hubref.data(rs, (cout,), "normal") if c["bias"] else None
    hw = {"widthi": c["wi"], "quantilei": c["qi"], "widthw": c["ww"], "quantilew": c["qw"], "rounding": c["rounding"]}
    mm = lambda X, Y: hubref.fxp_mm(X, Y, c["wi"], c["ww"], ei, ew)
    xt = torch.from_numpy(x.copy())
    xt = anyhow(xt, rs, .4)
    Wt, Bt = anyhow(torch.from_numpy(W.copy()), rs), None if B is None else anyhow(torch.from_numpy(B.copy()), rs)
    ax, aw = np.abs(x.astype(np.float64)), np.abs(W.astype(np.float64))
    li, lw = 2.0 ** (ei - c["wi"] + 1), 2.0 ** (ew - c["ww"] + 1)
    bound = lambda X, Y: (0.5 * li * np.ones_like(X)) @ np.abs(Y).T + np.abs(X) @ (0.5 * lw * np.ones_like(Y)).T + 0.25 * li * lw * X.shape[1]
    if conv:
        a = lambda v: v if v[0] != v[1] or rs.rand() < .5 else v[0]
        m = FXPConv2d(cin, cout, a(k), a(s), a(p), a(d), bias=c["bias"], weight_ext=Wt, bias_ext=Bt, hwcfg=hw)
        ref = lambda X, Y, bb, f: hubref.conv(X, Y, bb, s, p, d, f)
    else:
        m = FXPLinear(ni, cout, bias=c["bias"], weight_ext=Wt, bias_ext=Bt, hwcfg=hw)
        ref = lambda X, Y, bb, f: f(X, Y) + (0 if bb is None else np.asarray(bb, np.float64)[None])
    want, exact = ref(x, W, B, mm), ref(x.astype(np.float64), W.astype(np.float64), B, lambda X, Y: X @ Y.T)
    noise = 2e-6 * max(1, W[0].size ** .5 / 10) * (ref(ax + li, aw + lw, None if B is None else np.abs(B), lambda X, Y: X @ Y.T)) + 1e-30
    if hubref.earlier_use(rs, m, x, W):
        ctx.event()
        ctx.note("layers_used_before")
    for again in range(2):
        y = m(xt)
        ctx.event()
        ctx.close(y, want, noise, "fixed-point product sum", kind=c["k"], widthi=c["wi"], widthw=c["ww"], rounding=rd)
    if ax.max() <= (2 ** c["wi"] - 1) * li and aw.max() <= (2 ** c["ww"] - 1) * lw:
        ctx.close(y, exact, ref(ax, aw, None, bound) + noise, "fixed-point result vs exact product sum (half-LSB bound)")
        ctx.note("compared_with_exact_product")
    else:
        ctx.note("clipped_cases")
    ctx.eq(xt, x, "layer input")
    ctx.eq(Wt, W, "layer weight")
    if np.ptp(want) > 0:
        ctx.mark(c["k"], c["wi"], c["ww"], rd, want)
    ctx.sample = {"out": want.reshape(-1)[:4].tolist(), "exact": exact.reshape(-1)[:4].tolist()}
