"""JKFF."""
import numpy as np
from UnarySim.kernel import JKFF
from .. import stim, spec
from ..drive import lockstep
from ..util import DT, rs_of, pick, both

ID = "C07"
RULE = ("one case = one number type, shape and pair of J/K streams (or all pairs of short sequences); non-trivial when all "
        "four J/K combinations occurred; every output bit is compared, earlier outputs are re-read at the end")
ASSUMPTIONS = []


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = [{"mode": "exh", "st": s, "n": 7 if tier == "quick" else 9, "cost": 4} for s in DT]
    for rep in range(600 if tier == "quick" else 2500):
        out.append({"mode": "mix", "st": pick(rs, list(DT)), "shape": list(pick(rs, stim.SHAPES)), "T": int(pick(rs, [20, 100, 400])), "rep": rep})
    for st in ("f32", "i8", "bf16"):
        out.append({"mode": "long", "st": st, "T": stim.LONG[0], "cost": 30})
    return out


def run(c, ctx):
    rs = rs_of(c)
    if c["mode"] == "exh":
        j, k = stim.exhaustive(c["n"], 2)
    elif c["mode"] == "long":
        j, k = stim.long(rs, c["T"], 2)
    else:
        j, k = stim.mix(rs, c["T"], c["shape"]), stim.mix(rs, c["T"], c["shape"])
    q, = lockstep(ctx, JKFF({"stype": DT[c["st"]]}), spec.JK(), [j, k], c["st"], "JKFF", view=rs.rand() < .2)
    if all(np.any((j == a) & (k == b)) for a in (0, 1) for b in (0, 1)):
        ctx.mark(c["st"], q[:64])
    ctx.note("toggles", int((np.diff(q, axis=0) != 0).sum()))
    ctx.sample = {"lanes": int(j[0].size), "T": int(len(j)), "ones_out": int(q.sum())}
