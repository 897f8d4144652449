"""Binary-interface layers are functions of their current weights and input, and nothing else."""
import contextlib
import copy
import io
import pickle
import numpy as np
import torch
from .. import zoo
from ..capture import float_shifts
from ..util import rs_of, pick

ID = "C43"
ANY_MODE = False     # the cases choose the mode themselves
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one binary-interface layer, cell or activation with random configuration and weights: inputs of varying batch size and scale replayed in "
        "random order with repetitions, other instances used in between, training and evaluation mode, with and without gradient recording, copies, "
        "serialisation, weights restored into or updated in place on a layer built with other weights, all compared with a fresh instance; non-trivial when the inputs give different results")
ASSUMPTIONS = ["fresh instances on the same weights are the reference", "PyTorch's optimiser and state dictionary are trusted",
               "the hard cells keep their last gate values with their gradient history, which PyTorch refuses to deep-copy: they are copied by state dictionary and serialisation"]


def cases(tier, seed):
    n = 24 if tier == "quick" else 150
    return [{"unit": u, "rep": r} for u in zoo.BINARY for r in range(n)]


def call(m, ins):
    o = m(*[None if v is None else v.clone() for v in ins])
    return [v.detach().clone() for v in (o if isinstance(o, (tuple, list)) else [o])]


def run(c, ctx):
    rs = rs_of(c)
    with float_shifts() if c["unit"] in ("round", "hardmgufxp") else contextlib.nullcontext():
        body(c, ctx, rs)


def body(c, ctx, rs):
    nm = c["unit"]
    b = zoo.binary(nm, rs)
    other = zoo.binary(nm, rs)
    foreign = zoo.binary(pick(rs, zoo.BINARY[:16]), rs)
    ins = [b.input(rs) for _ in range(4)]
    ins[1] = [None if v is None else v.clone().mul_(0.3) if nm != "hubmgu" else v for v in ins[1]]
    ref = [call(b.new(), i) for i in ins]
    ctx.event(4)

    def agree(got, want, what, **kw):
        ctx.check(len(got) == len(want), "%s: %s gives another number of results" % (nm, what))
        for g, w in zip(got, want):
            if g.dtype != w.dtype:
                ctx.fail("%s: %s gives another number type" % (nm, what), got=str(g.dtype), want=str(w.dtype))
            gn, wn = g.float().numpy(), w.float().numpy()
            ctx.values += wn.size
            if gn.shape != wn.shape or not np.array_equal(gn, wn, equal_nan=True):
                ctx.fail("%s: %s gives another result" % (nm, what), got=gn, want=wn, **kw)
        ctx.event()

    # history, modes, other instances
    m = b.new()
    names = [n for n, p in m.named_parameters() if p.requires_grad]
    if nm in zoo.TRAINED:
        want = sorted(["weight"] + (["bias"] if getattr(m, "bias", None) is not None else []))
        ctx.check(sorted(names) == want, "%s: the trainable parameters are the weight and the bias" % nm, got=str(names))
    o2, f2 = other.new(), foreign.new()
    for step in range(14):
        k = int(rs.randint(4))
        what = pick(rs, ["plain", "train", "eval", "no_grad", "other", "foreign", "backward", "seed"])
        if what in ("train", "eval"):
            getattr(m, what)()
        if what == "other":
            call(o2, other.input(rs))
        if what == "foreign":
            if not foreign.floats or nm in ("round", "hardmgufxp"):
                call(f2, foreign.input(rs))
        if what == "seed":
            torch.manual_seed(int(rs.randint(1 << 30)))
            np.random.seed(int(rs.randint(1 << 30)))
        if what == "backward":
            j = [None if v is None else v.clone().requires_grad_() for v in ins[k]]
            o = m(*j)
            s = sum(v.sum() for v in (o if isinstance(o, (tuple, list)) else [o]))
            if s.requires_grad:
                s.backward()
                m.zero_grad()
        with torch.no_grad() if what == "no_grad" else contextlib.nullcontext():
            agree(call(m, ins[k]), ref[k], "use number %d (%s)" % (step, what), input=k)
    # copies
    def dup(m):
        if not nm.startswith("hardmgu"):
            return copy.deepcopy(m)
        n = b.new()
        n.load_state_dict(m.state_dict())
        return n
    m2, how = (dup(m), "a deep copy") if rs.rand() < .5 else (pickle.loads(pickle.dumps(m)), "a serialised copy")
    for k in rs.permutation(4)[:2]:
        agree(call(m2, ins[k]), ref[k], how)
        agree(call(m, ins[k]), ref[k], "the original after " + how)
    # weights
    if not names:
        return finish(ctx, nm, ref, c)
    buf = io.BytesIO()
    torch.save(m.state_dict(), buf)
    before = {n: p.detach().clone() for n, p in m.named_parameters()}
    grid = nm == "hubmgu"
    with torch.no_grad():
        for n, p in m.named_parameters():
            if n in names:
                p.copy_(p.flip(0).clone() if grid else torch.from_numpy(rs.randn(*p.shape).astype(np.float32) * pick(rs, [.01, .5, 3])).to(p.dtype))
    given = b.new() if not grid and nm not in ("hardmgu", "hardmgufxp") else None       # shares the tensors of m: built on the changed weights
    changed = [call(m, i) for i in ins]
    if given is not None:
        for k in range(4):
            agree(changed[k], call(given, ins[k]), "a layer whose weights changed in place, against a new one on those weights,")
        # through .data, which leaves no version behind, and back again
        f = float(pick(rs, [64, 1 / 32, 5]))
        keep = {n: p.detach().clone() for n, p in m.named_parameters() if n in names}
        for n, p in m.named_parameters():
            if n in names:
                p.data.mul_(f)
        k = int(rs.randint(4))
        agree(call(m, ins[k]), call(b.new(), ins[k]), "a layer whose weights changed through their data, against a new one on those weights,")
        for n, p in m.named_parameters():
            if n in names:
                p.data.copy_(keep[n])
        agree(call(m, ins[k]), changed[k], "a layer whose weights were put back through their data")
    buf.seek(0)
    sd = torch.load(buf)
    tgt = dup(m)
    call(tgt, ins[0])
    tgt.load_state_dict(sd)
    for k in rs.permutation(4)[:3]:
        agree(call(tgt, ins[k]), ref[k], "a layer with other weights that loads the saved state")
    for n, p in tgt.named_parameters():
        ctx.check(torch.equal(p, before[n]), "%s: restored parameter %s" % (nm, n))
    for k in range(2):
        agree(call(m, ins[k]), changed[k], "the layer after another one loaded the saved state")
    # training steps in place
    if nm in zoo.TRAINED + ["hardmgu", "hardmgufxp"]:
        opt = torch.optim.SGD([p for p in m.parameters() if p.requires_grad], lr=.05, momentum=.5)
        for _ in range(3):
            opt.zero_grad()
            o = m(*ins[0])
            sum((v * v).sum() for v in (o if isinstance(o, (tuple, list)) else [o])).backward()
            opt.step()
            if all(torch.isfinite(p).all() for p in m.parameters()):
                fresh = dup(tgt)
                fresh.load_state_dict(m.state_dict())
                agree(call(m, ins[2]), call(fresh, ins[2]), "a layer after a training step, against one that loads its state,")
                if given is not None and m.weight.data_ptr() == given.weight.data_ptr():
                    agree(call(m, ins[3]), call(b.new(), ins[3]), "a layer after a training step, against a new one on its weights,")
    finish(ctx, nm, ref, c)


def finish(ctx, nm, ref, c):
    if any(a[0].shape != ref[0][0].shape or not torch.equal(a[0], ref[0][0]) for a in ref[1:]):
        ctx.mark(nm, c["rep"], ref[0][0].float().numpy().reshape(-1)[:40])
    ctx.sample = {"unit": nm}
