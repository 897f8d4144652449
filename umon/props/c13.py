"""FSUSqrt, bit level."""
import numpy as np
from UnarySim.kernel import FSUSqrt
from .. import stim, spec
from ..drive import lockstep
from ..util import DT, sw, rs_of, pick, both

ID = "C13"
RULE = ("one case = mode, feedback style (emission, JK trace, division trace), register length, number types, shape and stream mix "
        "(or all sequences of a short length); non-trivial when the output has both 0s and 1s; every bit is compared")
ASSUMPTIONS = ["the emission path reads the oldest bit of its shift register (the read index is constant in this code base)",
               "uint8/bool streams are outside the domain"]
STYLES = [(True, True), (False, True), (False, False)]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for mode in ("unipolar", "bipolar"):
        for emit, jk in STYLES:
            for sr in ((1, 2, 4) if emit else (2,)):
                out.append({"exh": 13 if tier == "quick" else 16, "mode": mode, "emit": emit, "jk": jk, "sr": sr, "kn": 1, "rng": "Sobol", "st": "f32", "bt": "f32", "cost": 5})
    for rep in range(700 if tier == "quick" else 3300):
        emit, jk = STYLES[rs.randint(3)]
        out.append({"mode": pick(rs, ["unipolar", "bipolar", "Unipolar"]), "emit": emit, "jk": jk, "sr": int(pick(rs, [1, 2, 4, 8, 32])),
                    "kn": int(pick(rs, [1, 2, 4])), "rng": pick(rs, ["Sobol", "Sobol", "rc", "race", "tc10"]),
                    "st": pick(rs, list(DT)), "bt": pick(rs, ["f32", "f32", "f64", "i8", "i16", "i32", "i64", "f16"]),
                    "shape": list(pick(rs, stim.SHAPES)), "T": int(pick(rs, [30, 150, 700])), "rep": rep})
    for rep in range(6):
        emit, jk = STYLES[rep % 3]
        out.append({"mode": ["unipolar", "bipolar"][rep // 3], "emit": emit, "jk": jk, "sr": int(pick(rs, [2, 8])), "kn": 1, "rng": "Sobol", "st": "f32",
                    "bt": pick(rs, ["f32", "i16", "f64"]), "T": stim.LONG[1], "long": True, "cost": 100, "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    if "exh" in c:
        x = stim.exhaustive(c["exh"])[0]
    elif c.get("long"):
        x, = stim.long(rs, c["T"])
    else:
        x = stim.mix(rs, c["T"], c["shape"])
    m = FSUSqrt({"mode": c["mode"], "jk_trace": c["jk"], "emit": c["emit"], "entry_kn": c["kn"], "entry_sr": c["sr"], "rng": c["rng"], "dimr": 4},
                sw(c["st"], c["bt"]))
    ref = spec.Sqrt(c["mode"].lower(), c["emit"], c["jk"], c["sr"], stim.rng_seq(c["rng"].lower(), 2, 4))
    y, = lockstep(ctx, m, ref, [x], c["st"], "square root", mode=c["mode"], emit=c["emit"], jk=c["jk"])
    if not c["emit"]:
        ctx.check(np.all(y >= x), "inserting square root never drops a 1")
    if both(y):
        ctx.mark(c["mode"].lower(), c["emit"], c["jk"], c["sr"], y[:64])
    ctx.sample = {"T": int(len(y)), "ones_in": int(x.sum()), "ones_out": int(y.sum())}
