"""Gradients of the binary-interface layers: straight-through."""
import numpy as np
import torch
import torch.nn.functional as F
from UnarySim.kernel import HUBLinear, HUBConv2d, FXPLinear, FXPConv2d, TLUTLinear, TLUTConv2d
from .. import hubref
from ..util import rs_of, pick, noncontig

ID = "C23"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one layer kind, geometry, format, data distribution, set of tensors that require gradients, upstream gradient and "
        "number of backward passes; non-trivial when the gradients are not all zero; every gradient entry is compared")
ASSUMPTIONS = ["float32 accumulation noise: 1e-5 of the sum of magnitudes"]
LAYERS = ["hub", "fxp", "tlut_ii", "tlut_ff", "tlut_if", "tlut_fi"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(3000 if tier == "quick" else 4200):
        out.append({"layer": LAYERS[rep % len(LAYERS)], "conv": bool(rs.rand() < .5), "bias": bool(rs.rand() < .6), "w": int(rs.randint(3, 9)),
                    "req": [bool(rs.rand() < .75) for _ in range(3)], "passes": int(pick(rs, [1, 1, 2, 3])),
                    "sgd": bool(rs.rand() < .5), "up": pick(rs, ["any", "any", "sum", "view"]),
                    "q": float(pick(rs, [1, 1, 0.9])), "rounding": pick(rs, ["round", "floor", "ceil"]), "cycle": pick(rs, [None, None, 3]),
                    "temporal": pick(rs, ["i", "w"]), "di": pick(rs, hubref.KINDS), "dw": pick(rs, hubref.KINDS), "rep": rep})
    return out


def build(c, rs, conv, geo, W, B):
    w = c["w"]
    bias = B is not None
    if c["layer"] == "hub":
        hw = {"widthi": w, "rngi": "Sobol", "quantilei": c["q"], "widthw": w, "rngw": "Sobol", "quantilew": c["q"], "cycle": c["cycle"], "rounding": c["rounding"], "signmag": True}
        cl = (HUBLinear, HUBConv2d)
    elif c["layer"] == "fxp":
        hw = {"widthi": w, "quantilei": c["q"], "widthw": w, "quantilew": c["q"], "rounding": c["rounding"]}
        cl = (FXPLinear, FXPConv2d)
    else:
        fi, fw = [{"i": "fxp", "f": "float32"}[v] for v in c["layer"][-2:]]
        temporal = c["temporal"]
        if fi != fw:
            temporal = "i" if fi == "fxp" else "w"
        hw = {"temporal": temporal, "widtht": 3, "formati": fi, "widthi": w, "quantilei": c["q"], "formatw": fw, "widthw": w, "quantilew": c["q"],
              "cycle": c["cycle"], "rounding": c["rounding"], "signmag": True}
        cl = (TLUTLinear, TLUTConv2d)
    if conv:
        return cl[1](W.shape[1], W.shape[0], tuple(W.shape[2:]), geo[0], geo[1], geo[2], bias=bias, weight_ext=W.clone(), bias_ext=None if B is None else B.clone(), hwcfg=hw)
    return cl[0](W.shape[1], W.shape[0], bias=bias, weight_ext=W.clone(), bias_ext=None if B is None else B.clone(), hwcfg=hw)


def run(c, ctx):
    rs = rs_of(c)
    conv = c["conv"]
    geo = None
    if conv:
        k, s, p, d = [(int(rs.randint(lo, hi)), int(rs.randint(lo, hi))) for lo, hi in hubref.GEO[rs.randint(len(hubref.GEO))]]
        geo = (s, p, d)
        cin, cout, b = int(pick(rs, [1, 2, 3, 6])), int(pick(rs, [1, 2, 4, 9])), int(pick(rs, [1, 2, 3, 5]))
        xs, ws = (b, cin, *hubref.image(rs, k, p, d)), (cout, cin) + k
    else:
        b, ni, cout = int(pick(rs, [1, 2, 5, 16])), int(pick(rs, [1, 2, 7, 32])), int(pick(rs, [1, 3, 10]))
        xs, ws = (b, ni), (cout, ni)
    W = torch.from_numpy(hubref.data(rs, ws, c["dw"]))
    B = torch.from_numpy(hubref.data(rs, (cout,), "normal")) if c["bias"] else None
    m = build(c, rs, conv, geo, W, B)
    req = list(c["req"])
    if B is None:
        req[2] = False
    if not any(req):
        req[0] = True
    m.weight.requires_grad_(req[1])
    if B is not None:
        m.bias.requires_grad_(req[2])
    wantW = wantB = None
    nonzero = False
    mags = [0.0, 0.0]
    for n in range(c["passes"]):
        x = torch.from_numpy(hubref.data(rs, xs, c["di"]))
        xt = (noncontig(x) if rs.rand() < .3 else x.clone()).requires_grad_(req[0])
        y = m(xt)
        ctx.event()
        if not y.requires_grad:
            ctx.fail("the result is cut off from the gradient graph", req=req)
        g = torch.from_numpy(hubref.data(rs, tuple(y.shape), pick(rs, ["normal", "sparse", "uniform", "pow2"])))
        if c["up"] == "sum":
            g = torch.full_like(g, 0.75)
            (y.sum() * 0.75).backward()         # the incoming gradient is one broadcast number
        elif c["up"] == "view":
            y.backward(noncontig(g))
        else:
            y.backward(g)
        # independent reference in double precision
        xr, Wr = x.double().requires_grad_(True), W.double().clone().requires_grad_(True)
        Br = None if B is None else B.double().clone().requires_grad_(True)
        def ref(a, b_, c_):
            return F.conv2d(a, b_, c_, geo[0], geo[1], geo[2]) if conv else F.linear(a, b_, c_)
        yr = ref(xr, Wr, Br)
        if tuple(y.shape) != tuple(yr.shape):
            ctx.fail("result shape", got=str(tuple(y.shape)), want=str(tuple(yr.shape)))
        yr.backward(g.double())
        # magnitudes for the noise bound
        xa, Wa = x.double().abs().requires_grad_(True), W.double().abs().requires_grad_(True)
        ref(xa, Wa, None).backward(g.double().abs())
        if req[0]:
            if xt.grad is None:
                ctx.fail("no gradient for the input", layer=c["layer"])
            ctx.close(xt.grad, xr.grad.numpy(), 1e-5 * xa.grad.numpy() + 1e-30, "input gradient", layer=c["layer"], conv=conv)
            nonzero |= bool(xr.grad.abs().max() > 0)
        wantW = Wr.grad if wantW is None else wantW + Wr.grad
        mags[0] = mags[0] + Wa.grad.numpy()
        if B is not None:
            wantB = Br.grad if wantB is None else wantB + Br.grad
            mags[1] = mags[1] + (g.double().abs().sum((0, 2, 3)) if conv else g.double().abs().sum(0)).numpy()
        if req[1]:
            if m.weight.grad is None:
                ctx.fail("no gradient for the weight", layer=c["layer"])
            ctx.close(m.weight.grad, wantW.numpy(), 1e-5 * mags[0] + 1e-30, "weight gradient", layer=c["layer"], conv=conv)
            nonzero |= bool(wantW.abs().max() > 0)
        else:
            ctx.check(m.weight.grad is None, "a frozen weight received a gradient")
        if B is not None:
            if req[2]:
                if m.bias.grad is None:
                    ctx.fail("no gradient for the bias", layer=c["layer"])
                ctx.close(m.bias.grad, wantB.numpy(), 1e-5 * mags[1] + 1e-30, "bias gradient", layer=c["layer"], conv=conv)
            else:
                ctx.check(m.bias.grad is None, "a frozen bias received a gradient")
        ctx.check(torch.equal(m.weight.detach(), W), "backward changed the weight")
        if B is not None:
            ctx.check(torch.equal(m.bias.detach(), B), "backward changed the bias")
        if c["sgd"] and n + 1 < c["passes"]:
            # an optimiser moves the parameters in place; later gradients are those at the new values
            W = W * 0.5 + torch.from_numpy(hubref.data(rs, ws, "normal"))
            with torch.no_grad():
                m.weight.copy_(W)
                if B is not None:
                    B = B - 0.25
                    m.bias.copy_(B)
            ctx.note("parameters_moved_between_passes")
    if nonzero:
        ctx.mark(c["layer"], conv, req, wantW.numpy())
    ctx.sample = {"layer": c["layer"], "conv": conv, "requires_grad(input,weight,bias)": req}
