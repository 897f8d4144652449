"""Stability."""
import numpy as np
import torch
from UnarySim.metric.metric import Stability
from .. import stim
from ..util import rs_of, pick, tt, DT, anyhow, laid, LAYOUTS

ID = "C28"
RULE = ("one case = one polarity, scale, threshold, shape, source tensor and stream mix, read at random cycles; non-trivial when the "
        "stability differs between elements or over time; every element is compared at every read")
ASSUMPTIONS = ["elements whose error comes within 2e-6 of the threshold are not judged", "float32 noise 3e-7"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    return [{"mode": pick(rs, ["unipolar", "bipolar", "Bipolar"]), "scale": float(pick(rs, [1, 1, 2, 4, .5])), "thr": float(pick(rs, [.05, .05, .02, .1, .3, 1.5])),
             "st": pick(rs, list(DT)), "shape": list(pick(rs, stim.SHAPES)), "T": int(pick(rs, [1, 2, 17, 100, 300])), "kind": pick(rs, ["mix", "own", "own", "dyadic", "dyadic"]), "wide": r % 50 == 7, "rep": r}
            for r in range(600 if tier == "quick" else 6000)] + \
        [{"mode": m, "scale": 1.0, "thr": .0371, "st": "f32", "shape": [6], "T": stim.LONG[k], "kind": "long", "rep": k, "cost": 60} for k, m in enumerate(["unipolar", "bipolar"])]


def run(c, ctx):
    rs = rs_of(c)
    if c.get("wide"):
        c = dict(c, shape=[pick(rs, [5000, 4097, 20000])], T=min(c["T"], 40))
    mode = c["mode"].lower()
    val = rs.rand(*c["shape"]) * 2 - 1 if mode == "bipolar" else rs.rand(*c["shape"])
    dy = c["kind"] == "dyadic"
    if dy:       # errors that meet the threshold exactly: not an excursion
        val = np.rint(val * 8) / 8
        c = dict(c, thr=float(pick(rs, [.125, .25, .25, .375, .5, 1.])), T=int(pick(rs, [1, 2, 4, 8, 16, 33])))
    src = (val * c["scale"]).astype(np.float32)
    T = c["T"]
    if c["kind"] == "long":
        x, = stim.long(rs, T)
    elif c["kind"] != "mix":
        p = (val + 1) / 2 if mode == "bipolar" else val
        x = (rs.rand(T, *c["shape"]) < p).astype(np.uint8)
    else:
        xs = list(c["shape"])
        if rs.rand() < .3:        # one stream against many sources
            xs = [1 if rs.rand() < .5 else v for v in xs][int(rs.randint(len(xs) + 1)):]
        x = stim.mix(rs, T, xs)
    st = anyhow(torch.from_numpy(src.copy()), rs)
    how = pick(rs, [None, None, *LAYOUTS])
    m = Stability(st, {"scale": c["scale"], "mode": c["mode"], "threshold": c["thr"]})
    s = np.clip(src.astype(np.float64) / c["scale"], -1, 1)
    ones, last = 0, np.zeros(c["shape"])
    ok = np.ones(c["shape"], bool)
    seen = []
    for t in range(T):
        m.Monitor(laid(tt(x[t], c["st"]), how, rs))
        ctx.event()
        ones = ones + x[t].astype(np.int64)
        w = ones / (t + 1)
        err = np.abs((2 * w - 1 if mode == "bipolar" else w) - s)
        if not (dy and (t + 1) & t == 0):        # otherwise every number is exact in single precision
            ok &= np.abs(err - c["thr"]) > 2e-6
        elif np.any(err == c["thr"]):
            ctx.note("errors_exactly_at_threshold", int((err == c["thr"]).sum()))
        last = np.where(err > c["thr"], t + 1, last)
        if t == T - 1 or rs.rand() < (.02 if c["kind"] == "long" else .2):
            y = m()
            ctx.event()
            want = 1 - np.clip(last, 1, t + 1) / (t + 1)
            got = ctx.num(y)
            if tuple(got.shape) != tuple(want.shape):
                ctx.fail("shape of the stability", got=str(got.shape))
            ctx.close(got[ok], want[ok], 3e-7, "stability", cycle=t, threshold=c["thr"], mode=mode)
            seen.append(want)
    ctx.eq(st, src, "source given by the caller")
    ctx.note("elements_judged", int(ok.sum()))
    ctx.note("elements_at_threshold", int((~ok).sum()))
    if np.ptp(np.concatenate([v.reshape(-1) for v in seen])) > 0:
        ctx.mark(mode, c["thr"], seen[-1])
    ctx.sample = {"T": T, "stability": seen[-1].reshape(-1)[:4].tolist()}
