"""NN_SC_Weight_Clipper and truncated_normal."""
import numpy as np
import torch
from UnarySim.kernel.utils import NN_SC_Weight_Clipper, truncated_normal
from ..util import rs_of, pick

ID = "C25"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one layer kind, polarity, width and weight distribution clipped several times with training-like updates between "
        "(or one truncated-normal draw); non-trivial when more than two grid values appear; every parameter entry is judged")
ASSUMPTIONS = ["float32 parameters; one step of the grid is allowed at normalisation ties (float32 division noise)"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for rep in range(2000 if tier == "quick" else 8000):
        out.append({"k": "clip", "layer": pick(rs, ["lin", "conv", "relu", "seq", "norm_plain", "norm_affine", "lin1", "conv1d", "mixed", "mixed", "big"]), "ty": pick(rs, ["f32"] * 5 + ["f64", "f64", "f16"]), "bias": bool(rs.rand() < .6), "mode": pick(rs, ["unipolar", "bipolar"]),
                    "bw": int(rs.randint(1, 17)), "freq": int(pick(rs, [1, 1, 2, 5])), "sc": float(pick(rs, [.1, 1, 3])), "off": float(pick(rs, [0, 0, .7, -2])), "rep": rep})
    for rep in range(60 if tier == "quick" else 400):
        out.append({"k": "tn", "mean": float(pick(rs, [0, 0, 1.5, -3])), "std": float(pick(rs, [.01, .5, 1, 4])), "shape": pick(rs, [[1], [50], [17, 30], [4, 5, 6], [2000], [90, 70], [20000]]), "rep": rep})
    for mode in ("unipolar", "bipolar"):
        out.append({"k": "const", "mode": mode, "what": "weight"})
        out.append({"k": "const", "mode": mode, "what": "bias1"})
    return out


def ref(w, mode, method, scale):
    w = w.astype(np.float64)
    if method == "norm":
        w = (w - w.min()) / (w.max() - w.min())
        w = w if mode == "unipolar" else 2 * w - 1
    s, lo = (scale, 0) if mode == "unipolar" else (scale / 2, -scale / 2)
    return np.clip(w * s, lo, s), s, lo


def judge(ctx, before, after, mode, method, scale, what):
    if before.min() == before.max():        # nothing to normalise to
        method = "clip"
    pre, s, lo = ref(before, mode, method, scale)
    got = after.astype(np.float64) * s
    if not np.all(np.isfinite(got)):
        ctx.fail("%s is not finite after clipping" % what, mode=mode, method=method)
    ctx.check(np.all(got == np.rint(got)), "%s lies on the grid of the chosen width" % what, mode=mode, method=method, got=after)
    ctx.check(np.all(got >= lo) and np.all(got <= s), "%s is inside the legal range" % what, mode=mode, method=method, got=after)
    tol = .5 + 4e-7 * scale + (4e-6 * scale if method == "norm" else 0)
    ctx.close(got, pre, tol, "%s is the nearest grid value" % what, mode=mode, method=method)
    return got


def make(c, rs):
    if c["layer"] == "lin":
        return torch.nn.Linear(7, 5, bias=c["bias"])
    if c["layer"] == "conv":
        return torch.nn.Conv2d(2, 4, 3, bias=c["bias"])
    if c["layer"] == "lin1":
        return torch.nn.Linear(1, 2, bias=c["bias"])
    if c["layer"] == "conv1d":
        return torch.nn.Conv1d(3, 2, 5, bias=c["bias"])
    if c["layer"] == "norm_plain":          # has the attributes weight and bias, both empty
        return pick(rs, [torch.nn.BatchNorm2d(3, affine=False), torch.nn.LayerNorm(4, elementwise_affine=False), torch.nn.BatchNorm1d(2, affine=False)])
    if c["layer"] == "norm_affine":
        return torch.nn.BatchNorm2d(5)
    if c["layer"] == "mixed":               # a network as model.apply meets it: parts with and without parameters in any order
        pool = [torch.nn.ReLU(), torch.nn.Linear(3, 4, bias=c["bias"]), torch.nn.Linear(4, 2), torch.nn.Flatten(), torch.nn.BatchNorm1d(2), torch.nn.BatchNorm1d(3, affine=False),
                torch.nn.Dropout(), torch.nn.Conv2d(1, 2, 2, bias=c["bias"]), torch.nn.Sequential(torch.nn.Tanh(), torch.nn.Linear(2, 2))]
        return torch.nn.Sequential(*[pool[i] for i in rs.permutation(len(pool))[:int(rs.randint(2, 7))]])
    if c["layer"] == "big":
        return pick(rs, [torch.nn.Linear(300, 70, bias=c["bias"]), torch.nn.Conv2d(20, 30, 5, bias=c["bias"]), torch.nn.Linear(1, 600), torch.nn.Linear(5000, 1)])
    if c["layer"] == "relu":
        return torch.nn.ReLU()
    return torch.nn.Sequential(torch.nn.Linear(6, 8, bias=c["bias"]), torch.nn.ReLU(), torch.nn.Linear(8, 3, bias=c["bias"]))


def run(c, ctx):
    rs = rs_of(c)
    if c["k"] == "tn":
        t = truncated_normal(torch.empty(*c["shape"]), mean=c["mean"], std=c["std"])
        ctx.event()
        v = ctx.num(t).astype(np.float64)
        z = (v - c["mean"]) / c["std"]
        if tuple(t.shape) != tuple(c["shape"]):
            ctx.fail("shape of the draw")
        ctx.check(np.all(np.abs(z) <= 2 + 1e-5), "every draw is within two standard deviations", worst=float(np.abs(z).max()))
        n = z.size
        if n >= 50:
            # sd of the truncated law is 0.8796; 6.5 sigma of the estimators
            ctx.check(abs(z.mean()) < 6.5 * .88 / np.sqrt(n), "mean of the draws", mean=float(z.mean()), n=n)
            ctx.check(abs(z.std() - .8796) < 6.5 * .6 / np.sqrt(n), "spread of the draws", sd=float(z.std()), n=n)
            ctx.check(len(np.unique(v)) > n * .9, "draws are distinct")
            ctx.mark("tn", c["mean"], c["std"], v)
        ctx.values += n
        ctx.sample = {"mean": float(z.mean()), "sd": float(z.std())}
        return
    if c["k"] == "const":
        m = torch.nn.Linear(4, 1)
        if c["what"] == "weight":
            m.weight.data.fill_(0.3)
        b0 = m.bias.detach().numpy().copy()
        NN_SC_Weight_Clipper(mode=c["mode"], bitwidth=8)(m)
        ctx.event()
        p, v = (m.weight, np.full((1, 4), .3, np.float32)) if c["what"] == "weight" else (m.bias, b0)
        judge(ctx, v, p.detach().numpy(), c["mode"], "clip", 256, "constant " + c["what"])
        ctx.note("constant_parameters")
        return
    m = make(c, rs)
    ty = {"f32": torch.float32, "f64": torch.float64, "f16": torch.float16}[c["ty"]]
    if c["ty"] == "f16":        # too coarse to normalise
        c = dict(c, freq=max(c["freq"], 2), bw=min(c["bw"], 8))
    mods = [q for q in m.modules() if next(iter(q.parameters(False)), None) is not None]
    for q in mods:
        for p in q.parameters():
            v = torch.from_numpy((rs.randn(*p.shape) * c["sc"] + c["off"]).astype(np.float32)).to(ty)
            p.data = v.t().contiguous().t() if v.dim() == 2 and rs.rand() < .3 else v
            if rs.rand() < .2:          # not trained, still clipped
                p.requires_grad_(False)
    scale = 2 ** c["bw"]
    cl = NN_SC_Weight_Clipper(frequency=c["freq"], mode=c["mode"], bitwidth=c["bw"])
    calls = c["freq"]
    seen = set()
    for epoch in range(3):
        targets = [m] if c["layer"] not in ("seq", "mixed") else list(m.children())
        if c["layer"] == "mixed":
            targets = [q for q in m.modules() if rs.rand() < .9]
        for q in targets:
            before = {n: p.detach().numpy().copy() for n, p in q.named_parameters(recurse=False)}
            ids = {n: id(p) for n, p in q.named_parameters(recurse=False)}
            cl(q)
            ctx.event()
            method = "norm" if calls <= 1 else "clip"
            calls += 1
            after = {n: p for n, p in q.named_parameters(recurse=False)}
            ctx.check(all(p.dtype == ty for p in after.values()), "parameters keep their number type", wanted=str(ty))
            ctx.check({n: id(p) for n, p in after.items()} == ids, "parameters stay the same objects")
            ctx.check(("bias" in after) == ("bias" in before), "the absent bias stays absent")
            for n in before:
                g = judge(ctx, before[n], after[n].detach().numpy(), c["mode"], method, scale, n)
                seen.update(g.reshape(-1).tolist())
            if method == "clip":
                again = {n: p.detach().numpy().copy() for n, p in q.named_parameters(recurse=False)}
                cl(q)
                calls += 1
                for n, p in q.named_parameters(recurse=False):
                    ctx.eq(p, again[n], "clipping twice equals clipping once (%s)" % n)
        for p in m.parameters():
            p.data += torch.from_numpy((rs.randn(*p.shape) * .3).astype(np.float32)).to(ty)
    if len(seen) > 2:
        ctx.mark(c["layer"], c["mode"], c["bw"], sorted(seen)[:50])
    ctx.sample = {"grid_values": len(seen)}
