"""Number-type independence and closure over bits."""
import numpy as np
import torch
from .. import zoo
from ..util import rs_of, pick, DT

ID = "C31"
RULE = ("one case = one streaming unit with random configuration and streams, run with every number type for streams and counters; non-trivial "
        "when the output has both levels; every output value of every run is compared with the float32 run, is 0 or 1, and has the stream type")
ASSUMPTIONS = ["a counter type is used where its range holds the depth", "uint8 and bool streams are outside the domain"]
COUNTERS = {"mul_static_unipolar": ["f32"], "mul_static_bipolar": ["f32"]}


def cases(tier, seed):
    n = 6 if tier == "quick" else 40
    return [{"unit": u, "rep": r} for u in zoo.BITS for r in range(n)] + \
        [{"unit": u, "wide": True, "rep": r} for u in zoo.BITS if u.startswith("add") for r in range(2 * n)]


def run(c, ctx):
    rs = rs_of(c)
    small = bool(rs.rand() < .7) and "wide" not in c
    u = zoo.make(c["unit"], rs, small, wide="wide" in c)
    types = list(DT) if small else ["f32", "f64", "i32", "i64"]
    T = int(pick(rs, [30, 70, 200]))
    xs = u.stimulus(rs, T)
    if "wide" in c:     # more ones in one cycle than the narrowest type holds
        xs = [x | (rs.rand(*x.shape) < rs.rand()).astype(x.dtype) for x in xs]
    base = u.new().run(xs)
    nb = len(base) if not c["unit"].startswith("shiftreg") else 1
    for b in base[:nb]:
        ctx.check(np.all((b == 0) | (b == 1)), "%s: every output value is a bit" % u.name)
    combos = [(st, "f32") for st in DT] + [("f32", bt) for bt in types]
    combos += [(pick(rs, list(DT)), pick(rs, types)) for _ in range(6)]
    for st, bt in combos:
        r = u.new(st=st, bt=bt)
        TT = len(xs[0]) if xs else 40
        for t in range(TT):
            ins = r.inputs(t, xs)
            for o in (r.call(t, ins)[:nb],):
                for j, v in enumerate(o):
                    if v.dtype != DT[st]:
                        ctx.fail("%s: output %d has type %s, the streams have %s" % (u.name, j, v.dtype, DT[st]), counters=bt)
                    g = v.detach().to(torch.float64).numpy()
                    ctx.eq(g, base[j][t], "%s output %d with streams %s, counters %s" % (u.name, j, st, bt), cycle=t)
            ctx.event()
    if any(np.ptp(b) > 0 for b in base):
        ctx.mark(u.name, base[-1][:40])
    ctx.sample = {"unit": u.name, "types": len(combos), "T": T}
