"""Determinism, causality, isolation between instances, and copies taken mid-stream."""
import copy
import io
import pickle
import numpy as np
import torch
from .. import zoo
from ..util import rs_of, pick

ID = "C33"
RULE = ("one case = one streaming unit with random configuration: run twice, run with another future after a random cycle, interleaved with a "
        "second instance fed with other streams, under a different global random seed, and copied (deep copy or pickle) mid-stream; non-trivial "
        "when the two streams give different outputs; every output value of the compared runs must agree")
ASSUMPTIONS = ["deterministic number sequences (the LFSR and system generators draw from the global random state by design)",
               "the unary convolution is copied by pickle only (its weight is a non-leaf tensor, which PyTorch refuses to deep-copy)"]


def cases(tier, seed):
    n = 8 if tier == "quick" else 50
    return [{"unit": u, "rep": r, "cost": 3 if u in zoo.LAYERS else 1} for u in zoo.ALL for r in range(n)]


def cmp(ctx, got, want, what, **kw):
    for j, (g, w) in enumerate(zip(got, want)):
        ctx.eq(g, w, what + ", output %d" % j, **kw)


def run(c, ctx):
    rs = rs_of(c)
    u = zoo.make(c["unit"], rs)
    T = int(pick(rs, [20, 45, 45, 280]))
    a, b = u.stimulus(rs, T), u.stimulus(rs, T)
    nm = u.name
    ya = u.new().run(a, 0, T)
    yb = u.new().run(b, 0, T)
    ctx.event(2 * T)
    torch.manual_seed(int(rs.randint(1 << 30)))
    np.random.seed(int(rs.randint(1 << 30)))
    cmp(ctx, u.new().run(a, 0, T), ya, "%s: a second run differs" % nm)
    if "m" in (r := u.new()).keep:
        # neither the mode nor gradient recording is part of the configuration
        r.keep["m"].eval()
        with torch.no_grad():
            cmp(ctx, r.run(a, 0, T), ya, "%s: a run in evaluation mode without gradients differs" % nm)
        ctx.note("evaluation_mode_runs")
    # causality
    cut = int(rs.randint(1, T))
    mixed = [np.concatenate([p[:cut], q[cut:]]) for p, q in zip(a, b)]
    ym = u.new().run(mixed, 0, T)
    cmp(ctx, [v[:cut] for v in ym], [v[:cut] for v in ya], "%s: an output depends on later inputs" % nm, cut=cut)
    # isolation
    r1, r2 = u.new(), u.new()
    o1, o2 = [], []
    t1 = t2 = 0
    while t1 < T or t2 < T:
        if t2 >= T or (t1 < T and rs.rand() < .5):
            o1.append([v.detach().to(torch.float64).numpy().copy() for v in r1.step(t1, a)])
            t1 += 1
        else:
            o2.append([v.detach().to(torch.float64).numpy().copy() for v in r2.step(t2, b)])
            t2 += 1
    cmp(ctx, [np.stack([v[j] for v in o1]) for j in range(len(ya))], ya, "%s: instances influence each other" % nm)
    cmp(ctx, [np.stack([v[j] for v in o2]) for j in range(len(yb))], yb, "%s: instances influence each other" % nm)
    ctx.event(3 * T)
    # copies
    r = u.new()
    r.run(a, 0, cut)
    m = r.keep["m"]
    if rs.rand() < .6 and not nm.startswith("conv"):
        m2, how = copy.deepcopy(m), "deep copy"
    else:
        m2, how = pickle.loads(pickle.dumps(m)), "pickle"
    order = rs.rand() < .5
    if order:
        ycopy = r.run(mixed, cut, T, mod=m2)
        yorig = r.run(a, cut, T)
    else:
        yorig = r.run(a, cut, T)
        ycopy = r.run(mixed, cut, T, mod=m2)
    cmp(ctx, yorig, [v[cut:] for v in ya], "%s: running a %s changes the original" % (nm, how), cut=cut)
    cmp(ctx, ycopy, [v[cut:] for v in ym], "%s: a %s does not continue like the original" % (nm, how), cut=cut)
    ctx.event(2 * T)
    ctx.note("by_" + how.replace(" ", "_"))
    if any(not np.array_equal(p, q) for p, q in zip(ya, yb)) or not u.tails:
        ctx.mark(nm, cut, ya[-1][:40])
    ctx.sample = {"unit": nm, "T": T, "cut": cut, "copy": how}
