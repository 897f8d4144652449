"""HardMGUCell / HardMGUCellFXP."""
import numpy as np
import torch
import torch.nn.functional as F
from UnarySim.kernel.rnn import HardMGUCell, HardMGUCellFXP
from .. import hubref
from ..capture import float_shifts
from ..util import rs_of, pick

ID = "C34"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one cell kind, geometry, bias, activation kind, integer/fraction widths, weights and input sequence run as a recurrence; "
        "non-trivial when the hidden state is not constant; every hidden value of every step, and the gradients of the last, are compared")
ASSUMPTIONS = ["the shift operators of floating-point tensors, which current PyTorch lacks (known finding), are supplied as power-of-two scaling", "float32; the fixed-point cell is compared exactly where its products are exact in float32 (integer+fraction width up to 8 bits)",
               "half-way values of the hard sigmoid may round either way (float32 noise of the scaling), consistently within a run"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = [{"k": "plain"}]
    for rep in range(300 if tier == "quick" else 3000):
        out.append({"fxp": bool(rs.rand() < .6), "hard": bool(rs.rand() < .75), "bias": bool(rs.rand() < .6), "ni": int(pick(rs, [1, 3, 8, 20])), "nh": int(pick(rs, [1, 2, 6])),
                    "b": int(pick(rs, [1, 2, 5])), "iw": int(pick(rs, [1, 2, 3, 3])), "fw": int(pick(rs, [1, 2, 3, 4, 4, 5])), "steps": int(pick(rs, [1, 3, 8])),
                    "hx": pick(rs, ["none", "none", "given"]), "init": bool(rs.rand() < .3), "sc": float(pick(rs, [.2, .7, 1.5])), "rep": rep})
    return out


def sig_torch(x):
    return F.hardsigmoid(x * 3)


def sig_half(x):
    return ((x + 1) / 2).clamp(0, 1)


def cell(x, h, Wf, Bf, Wn, Bn, q, sig, tanh):
    """the documented recurrence; q quantises (identity for the floating-point cell)"""
    f = sig(q(F.hardtanh(F.linear(q(torch.cat((q(h), q(x)), 1)), q(Wf), None if Bf is None else q(Bf)))))
    fh = q(f) * q(h)
    n = tanh(q(F.linear(torch.cat((q(fh), q(x)), 1), q(Wn), None if Bn is None else q(Bn))))
    fn = q(f) * q(n)
    return F.hardtanh(q(n) - q(fn) + q(fh))


def run(c, ctx):
    if c.get("k") == "plain":
        m = HardMGUCellFXP(3, 2, bias=True, hard=True, intwidth=2, fracwidth=3)
        ctx.event()
        ctx.values += 1
        try:
            y = m(torch.zeros(1, 3))
        except NotImplementedError as e:
            if "shift" not in str(e):
                raise
            ctx.finding("float-shift", "HardMGUCellFXP raises on every call: %s" % e)
            return
        ctx.check(tuple(y.shape) == (1, 2), "shape of the hidden state")
        return
    with float_shifts():
        judged(c, ctx)


def judged(c, ctx):
    rs = rs_of(c)
    ni, nh, b = c["ni"], c["nh"], c["b"]
    torch.manual_seed(int(rs.randint(1 << 30)))
    if c["fxp"]:
        m = HardMGUCellFXP(ni, nh, bias=c["bias"], hard=c["hard"], intwidth=c["iw"], fracwidth=c["fw"])
    else:
        m = HardMGUCell(ni, nh, bias=c["bias"], hard=c["hard"])
    names = {n: p for n, p in m.named_parameters()}
    ctx.check(set(names) == {"weight_f", "weight_n"} | ({"bias_f", "bias_n"} if c["bias"] else set()), "trainable parameters of the cell", got=str(sorted(names)))
    std = 1 / np.sqrt(nh)
    for n, p in names.items():
        want = (nh, nh + ni) if n.startswith("w") else (nh,)
        ctx.check(tuple(p.shape) == want and p.requires_grad, "parameter %s" % n, shape=str(tuple(p.shape)))
        ctx.check(bool((p.abs() <= 2 * std * 1.0001).all()), "initial values are within two standard deviations of the 1/sqrt(hidden) law")
        if not c["init"]:
            p.data = torch.from_numpy((rs.randn(*p.shape) * c["sc"]).astype(np.float32))
            if n == "bias_f" and rs.rand() < .3:
                p.data += 2 * c["sc"] * float(rs.choice([-1, 1]))    # gates held open or closed
    Wf, Wn = [names[k].detach().clone().requires_grad_(True) for k in ("weight_f", "weight_n")]
    Bf, Bn = [names[k].detach().clone().requires_grad_(True) if c["bias"] else None for k in ("bias_f", "bias_n")]
    top = 2.0 ** (c["iw"] + c["fw"]) - 1
    if c["fxp"]:
        def q(v):
            return v + ((v.detach() * 2.0 ** c["fw"]).round().clamp(-top, top) / 2.0 ** c["fw"] - v.detach())
    else:
        q = lambda v: v
    tanh = F.hardtanh if c["hard"] else torch.tanh
    sigs = [sig_torch, sig_half] if c["hard"] else [torch.sigmoid]
    h = None if c["hx"] == "none" else torch.from_numpy((rs.rand(b, nh) * 2 - 1).astype(np.float32))
    if h is not None and c["rep"] % 3 == 0:      # states at rest, partly at rest, at the limits
        h = [torch.zeros_like(h), h * (torch.arange(b) % 2).reshape(-1, 1), h.sign(), -torch.ones_like(h), h.round()][int(rs.randint(5))]
    refs = [torch.zeros(b, nh) if h is None else h.clone() for _ in sigs]
    alive = list(range(len(sigs)))
    exact = c["fxp"] and c["hard"]
    lsb = 2.0 ** -c["fw"] if c["fxp"] else 0
    last = None
    for t in range(c["steps"]):
        x = torch.from_numpy((rs.randn(b, ni) if rs.rand() < .5 else rs.rand(b, ni) * 2 - 1).astype(np.float32))
        if rs.rand() < .15:
            x = x * 0 if rs.rand() < .5 else x.sign()
        keep = x.clone()
        xs = [x.clone().requires_grad_(True) for _ in range(len(sigs) + 1)]
        hp = None if h is None else h.clone().requires_grad_(True)
        refs = refs if h is None else [r.clone().requires_grad_(True) for r in refs]
        y = m(xs[-1], hp)
        ctx.event()
        ys = [cell(xs[k], refs[k], Wf, Bf, Wn, Bn, q, sigs[k], tanh) for k in range(len(sigs))]
        got = ctx.num(y)
        ctx.check(torch.equal(xs[-1].detach(), keep) and (h is None or torch.equal(h, hp.detach())), "the cell changed its inputs")
        ctx.check(np.all(np.abs(got) <= 1), "hidden state is inside the legal range [-1, 1]", worst=float(np.abs(got).max()))
        tol = 1e-5 * (1 + c["sc"] * (ni + nh))
        if exact:
            ok = [k for k in alive if np.array_equal(got, ctx.num(ys[k]))]
        elif c["fxp"]:
            # smooth activations between quantisers: noise may move a value by one step
            ok = [k for k in alive if np.max(np.abs(got - ctx.num(ys[k]))) <= 3 * lsb + tol]
        else:
            ok = [k for k in alive if np.max(np.abs(got - ctx.num(ys[k]))) <= tol]
        ctx.values += got.size
        if not ok:
            w = ctx.num(ys[alive[0]])
            ctx.fail("hidden state differs from the recurrence", step=t, got=got, want=w, worst=float(np.abs(got - w).max()), fxp=c["fxp"], hard=c["hard"])
        alive = ok
        if exact:
            g = got.astype(np.float64) * 2.0 ** c["fw"] 
            ctx.check(np.all(g == np.rint(g)), "hidden state of the fixed-point cell is on the grid")
        last = (y, xs[-1], ys[alive[0]], xs[alive[0]], hp, refs[alive[0]])
        h = y.detach().clone()
        # each step is judged from the real hidden state, so that errors do not accumulate
        refs = [h.clone() for _ in sigs]
    y, xr, yr, xx, hr, hh = last
    if not (c["fxp"] and not c["hard"]):
        up = torch.from_numpy(rs.randn(*y.shape).astype(np.float32))
        y.backward(up)
        yr.backward(up)
        pairs = [("input", xr.grad, xx.grad), ("weight_f", m.weight_f.grad, Wf.grad), ("weight_n", m.weight_n.grad, Wn.grad)]
        if hr is not None:
            pairs.append(("hidden state", hr.grad, hh.grad))
        if c["bias"]:
            pairs += [("bias_f", m.bias_f.grad, Bf.grad), ("bias_n", m.bias_n.grad, Bn.grad)]
        for n, g, w in pairs:
            if g is None:
                ctx.fail("no gradient for %s" % n)
            ctx.close(g, w.numpy(), 2e-4 * (1 + np.abs(w.numpy()).max()), "gradient of %s" % n, fxp=c["fxp"], hard=c["hard"])
        ctx.note("gradients_compared")
    v = y.detach().numpy()
    if np.ptp(v) > 0 or v.size == 1:
        ctx.mark(c["fxp"], c["hard"], v)
    ctx.sample = {"hidden": v.reshape(-1)[:4].tolist()}
