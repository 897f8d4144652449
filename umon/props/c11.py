"""Division: CORDIV kernel and FSUDiv, bit level."""
import numpy as np
from UnarySim.kernel import CORDIV_kernel, FSUDiv
from .. import stim, spec
from ..drive import lockstep
from ..util import DT, sw, rs_of, pick, both

ID = "C11"
RULE = ("one case = divider kind, mode, depths, history length, generator, number types, shape and stream pair (or all pairs of "
        "short sequences); non-trivial when the quotient has both 0s and 1s and the divisor both too; every bit is compared")
ASSUMPTIONS = ["history lengths are powers of two", "uint8/bool streams are outside the domain"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for kind in ("cordiv", "uni", "bi"):
        for e in (1, 2, 4):
            out.append({"kind": kind, "exh": 7 if tier == "quick" else 9, "entry": e, "sa": 3, "ss": 2, "rng": "Sobol", "dim": 4, "st": "f32", "bt": "f32", "cost": 5})
    for rep in range(700 if tier == "quick" else 3300):
        st = pick(rs, ["f32", "f32", "f64", "f16", "bf16", "i8", "i16", "i32", "i64"])
        bt = pick(rs, ["f32", "f32", "f64", "i8", "i16", "i32", "i64", "f16"])
        out.append({"kind": pick(rs, ["cordiv", "uni", "uni", "bi", "bi"]), "entry": int(pick(rs, [1, 2, 2, 4, 8, 16, 64])),
                    "sa": int(pick(rs, [2, 3, 3, 4, 5, 6])), "ss": int(pick(rs, [1, 2, 2, 3, 4, 5])),
                    "rng": pick(rs, ["Sobol", "Sobol", "rc", "race", "tc10"]), "dim": int(pick(rs, [1, 2, 3, 4, 4, 8])),
                    "st": st, "bt": bt, "shape": list(pick(rs, stim.SHAPES)), "T": int(pick(rs, [30, 150, 500])), "rep": rep,
                    "rel": pick(rs, ["indep", "indep", "sub", "same", "swap"])})
    for rep, kind in enumerate(["cordiv", "uni", "bi"] * 2):
        out.append({"kind": kind, "entry": int(pick(rs, [2, 4, 8])), "sa": int(pick(rs, [3, 8])), "ss": int(pick(rs, [2, 8])), "rng": "Sobol", "dim": 4, "st": "f32", "bt": pick(rs, ["f32", "i16", "f64"]),
                    "T": stim.LONG[1], "long": True, "cost": 100, "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    e = c["entry"]
    lg = e.bit_length() - 1
    seq = stim.rng_seq(c["rng"].lower(), lg, c["dim"])
    if "exh" in c:
        a, b = stim.exhaustive(c["exh"], 2)
        k = int(rs.randint(0, 7))
        pre = rs.randint(0, 2, size=(k, 2))
        a = np.concatenate([np.repeat(pre[:, :1], a.shape[1], 1), a]).astype(np.uint8)
        b = np.concatenate([np.repeat(pre[:, 1:], b.shape[1], 1), b]).astype(np.uint8)
    elif c.get("long"):
        a, b = stim.long(rs, c["T"], 2)
    else:
        a, b = stim.mix(rs, c["T"], c["shape"]), stim.mix(rs, c["T"], c["shape"])
        if c["rel"] == "sub":
            a = a & b
        elif c["rel"] == "same":
            b = a.copy()
        elif c["rel"] == "swap":
            a = a | b
    s = sw(c["st"], c["bt"])
    if c["kind"] == "cordiv":
        m = CORDIV_kernel({"entry": e, "rng": c["rng"], "dimr": c["dim"]}, s)
        ref = spec.Cordiv(e, seq)
    else:
        mode = "bipolar" if c["kind"] == "bi" else "unipolar"
        m = FSUDiv({"depth_sa": c["sa"], "depth_ss": c["ss"], "entry_kn": e, "mode": mode, "rng": c["rng"], "dimr": c["dim"]}, s)
        ref = spec.Div(mode, c["sa"], c["ss"], e, seq)
    y, = lockstep(ctx, m, ref, [a, b], c["st"], "quotient (%s)" % c["kind"], entry=e, rng=c["rng"])
    if c["kind"] == "cordiv":
        ctx.check(np.array_equal(y[b == 1], a[b == 1]), "quotient equals the dividend whenever the divisor is 1")
    if both(y) and both(b):
        ctx.mark(c["kind"], e, c["rng"], y[:64])
    ctx.note("cycles_reading_history", int((b == 0).sum()))
    ctx.sample = {"T": int(len(y)), "ones_dividend": int(a.sum()), "ones_divisor": int(b.sum()), "ones_quotient": int(y.sum())}
