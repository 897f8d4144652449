"""HUBLinear / HUBConv2d."""
import numpy as np
import torch
from UnarySim.kernel import HUBLinear, HUBConv2d
from .. import hubref, stim
from ..util import rs_of, pick, anyhow

ID = "C20"
RULE = ("one case = one layer kind, geometry, width, generator pair, quantiles, rounding, cycle budget and data distribution; "
        "non-trivial when the exact result is not all equal to the bias; every output is compared with the counted-ones reference, "
        "and at full cycles with the exact product sum")
ASSUMPTIONS = ["equal input and weight width (unequal widths do not construct: known finding)",
               "data whose scale sits within 0.1% of a power-of-two rounding boundary are regenerated"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = [{"k": "unequal", "wi": a, "ww": b} for a, b in ((8, 6), (6, 8))]
    for rep in range(2400 if tier == "quick" else 9000):
        w = int(pick(rs, [3, 4, 5, 6, 7, 8, 8, 9]))
        ri, rw = pick(rs, [("Sobol", "Sobol"), ("Sobol", "Sobol"), ("rc", "Sobol"), ("race", "Sobol"), ("Sobol", "race"), ("tc10", "rc"), ("Sobol", "tc10"), ("TC", "sobol")])
        out.append({"k": pick(rs, ["lin", "lin", "conv"]), "w": w, "ri": ri, "rw": rw,
                    "qi": float(pick(rs, [1, 1, 0.99, 0.9, 0.7])), "qw": float(pick(rs, [1, 1, 0.99, 0.9])),
                    "rounding": pick(rs, ["round", "floor", "ceil", "Ceil"]),
                    "cycle": pick(rs, [None, 2 ** (w - 1), 2 ** (w - 1), 2 ** w, 2 ** (w - 2), max(1, 2 ** (w - 1) - 1), 2]),
                    "bias": bool(rs.rand() < .5), "di": pick(rs, hubref.KINDS), "dw": pick(rs, hubref.KINDS), "rep": rep, "cost": 2 ** w / 100})
    return out


def unequal(c, ctx):
    """Known finding: different input and weight widths are accepted by the documentation but cannot be constructed."""
    hw = {"widthi": c["wi"], "rngi": "Sobol", "quantilei": 1, "widthw": c["ww"], "rngw": "Sobol", "quantilew": 1, "cycle": 128, "rounding": "round", "signmag": True}
    x, W = torch.rand(3, 6) * 2 - 1, torch.rand(4, 6) * 2 - 1
    ctx.event()
    ctx.values += 1
    try:
        m = HUBLinear(6, 4, bias=False, weight_ext=W, hwcfg=hw)
    except RuntimeError as e:
        ctx.finding("unequal-width-construct", "HUBLinear(widthi=%d, widthw=%d) raises %s" % (c["wi"], c["ww"], str(e)[:80]))
        return
    y = m(x)
    ctx.check(bool(torch.all((y - x @ W.t()).abs() < 0.6)), "unequal widths: result far from the product sum")


def run(c, ctx):
    if c["k"] == "unequal":
        return unequal(c, ctx)
    rs = rs_of(c)
    w = c["w"]
    N = 1 << (w - 1)
    hw = {"widthi": w, "rngi": c["ri"], "quantilei": c["qi"], "widthw": w, "rngw": c["rw"], "quantilew": c["qw"],
          "cycle": c["cycle"], "rounding": c["rounding"], "signmag": True}
    rd = c["rounding"].lower()
    cyc = N if c["cycle"] is None else min(c["cycle"], N)
    conv = c["k"] == "conv"
    if conv:
        k, s, p, d = [(int(rs.randint(lo, hi)), int(rs.randint(lo, hi))) for lo, hi in hubref.GEO[rs.randint(len(hubref.GEO))]]
        cin, cout, b = int(pick(rs, [1, 2, 3, 6])), int(pick(rs, [1, 2, 4, 9])), int(pick(rs, [1, 2, 3, 5]))
        im = hubref.image(rs, k, p, d)
        if c["rep"] % 24 == 7:      # layers of the size networks have
            cin, cout, b, im = hubref.network(rs, k, im)
        xs, ws = (b, cin, *im), (cout, cin) + k
    else:
        b, ni, cout = int(pick(rs, [1, 2, 5, 16])), int(pick(rs, [1, 2, 7, 32, 100, 300])), int(pick(rs, [1, 3, 10]))
        if c["rep"] % 24 == 7:
            b, ni, cout = pick(rs, [(1, 4096, 40), (128, 784, 10), (64, 256, 100), (300, 84, 10), (2, 1200, 500), (700, 40, 30)])
        xs, ws = (b, ni), (cout, ni)
    for _ in range(50):
        x, W = hubref.data(rs, xs, c["di"]), hubref.data(rs, ws, c["dw"])
        ei, ew = hubref.scale_exp(x, c["qi"], rd), hubref.scale_exp(W, c["qw"], rd)
        if ei is not None and ew is not None:
            break
    else:
        return
    B = hubref.data(rs, (cout,), "normal") if c["bias"] else None
    mp = hubref.hub_map(w, c["ri"].lower(), c["rw"].lower())
    mm = lambda X, Y: hubref.hub_mm(X, Y, w, ei, ew, cyc, mp)
    absmm = lambda X, Y: np.abs(X.astype(np.float64)) @ np.abs(Y.astype(np.float64)).T
    xt = torch.from_numpy(x.copy())
    xt = anyhow(xt, rs, .4)
    Wt, Bt = anyhow(torch.from_numpy(W.copy()), rs), None if B is None else anyhow(torch.from_numpy(B.copy()), rs)
    if conv:
        a = lambda v: v if v[0] != v[1] or rs.rand() < .5 else v[0]
        m = HUBConv2d(cin, cout, a(k), a(s), a(p), a(d), bias=c["bias"], weight_ext=Wt, bias_ext=Bt, hwcfg=hw)
        want = hubref.conv(x, W, B, s, p, d, mm)
        exact = hubref.conv(x.astype(np.float64), W.astype(np.float64), B, s, p, d, lambda X, Y: X @ Y.T)
        mag = hubref.conv(x, W, None if B is None else np.abs(B), s, p, d, absmm)
        n_in = cin * k[0] * k[1]
    else:
        m = HUBLinear(ni, cout, bias=c["bias"], weight_ext=Wt, bias_ext=Bt, hwcfg=hw)
        bb = 0 if B is None else B.astype(np.float64)[None]
        want, exact = mm(x, W) + bb, x.astype(np.float64) @ W.astype(np.float64).T + bb
        mag = absmm(x, W) + np.abs(bb)
        n_in = ni
    if hubref.earlier_use(rs, m, x, W):
        ctx.event()
        ctx.note("layers_used_before")
    for again in range(2):
        y = m(xt)
        ctx.event()
        ctx.close(y, want, 2e-6 * (np.abs(want) + (0 if B is None else np.abs(B).max())) + 1e-30, "product sum counted in ones", kind=c["k"], width=w, cycle=cyc, rounding=rd)
    ctx.eq(xt, x, "layer input")
    ctx.eq(Wt, W, "layer weight")
    # independent value-level bound at full cycles, when nothing is clipped
    fi, fw = 2.0 ** ei, 2.0 ** ew
    if cyc == N and np.abs(x).max() <= fi * (N - .5) / N and np.abs(W).max() <= fw * (N - .5) / N:
        per = fi * fw * ((w / 2 + 2) / N + 1.0 / N + 0.25 / N ** 2)
        nz = n_in
        ctx.close(y, exact, per * nz + 1e-5 * max(1, n_in ** .5 / 20) * (mag + 1e-30), "layer result vs exact product sum", width=w)
        ctx.note("compared_with_exact_product")
    if np.ptp(want) > 0:
        ctx.mark(c["k"], w, c["ri"], c["rw"], rd, cyc, want)
    ctx.sample = {"out": want.reshape(-1)[:4].tolist(), "exact": exact.reshape(-1)[:4].tolist()}
