"""FSUAdd: scaled and non-scaled unary addition."""
import numpy as np
import torch
from UnarySim.kernel import FSUAdd
from .. import stim, spec
from ..util import DT, sw, rs_of, pick, both, tt

ID = "C08"
RULE = ("one case = one mode, scale, entry source, summed axis, depth, number types, shape and stream mix (or all sequences of "
        "a few short inputs); non-trivial when the carry stream holds both 0s and 1s; every output bit is compared")
ASSUMPTIONS = ["scales are integers or dyadic fractions, so that the float32 accumulator is exact",
               "sums fit the accumulation type"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []
    for mode in ("unipolar", "bipolar"):
        for k, n in ((1, 12), (2, 7), (3, 5)):
            for sc in (None, 1, 2):
                out.append({"kind": "exh", "mode": mode, "k": k, "n": n + (2 if tier != "quick" and k < 3 else 0), "scale": sc, "depth": int(pick(rs, [4, 5, 6, 10])), "cost": 4})
    for rep in range(900 if tier == "quick" else 4000):
        nd = int(pick(rs, [1, 2, 2, 3, 3, 4, 4, 5, 6]))
        shape = [int(rs.randint(1, 6 if nd < 5 else 4)) for _ in range(nd)]
        square = rs.rand() < .2          # equal axes, so that adding the wrong one goes unnoticed by the shape
        ax = int(rs.randint(nd))
        shape[ax] = int(pick(rs, [1, 2, 3, 4, 5, 8, 16, 64, 200]))
        if square:
            shape = [int(rs.randint(2, 5 if nd < 5 else 4))] * nd
        entry = shape[ax]
        mode = pick(rs, ["unipolar", "bipolar", "Bipolar"])
        scale = pick(rs, [None, None, 1, 2, entry, max(1, entry // 2), entry + 1, 1.5, 0.5, 0.25, 3, 2 * entry, 7])
        depth = int(pick(rs, [4, 5, 6, 8, 10, 12, 16, 20]))
        bt = pick(rs, ["f32", "f32", "f64", "i32", "i64", "i16", "i8" if entry < 100 else "i16", "f16", "bf16" if entry <= 200 else "f16"])
        st = pick(rs, list(DT))
        out.append({"kind": "mix", "mode": mode, "scale": scale, "shape": shape, "dima": ax - (nd if rs.rand() < .3 else 0),
                    "depth": depth, "bt": bt, "st": st, "T": int(pick(rs, [20, 80, 300])), "rep": rep,
                    "entry": pick(rs, ["none", "none", "cfg", "call", "over"]), "scale_at": pick(rs, ["cfg", "cfg", "call"]),
                    "later": bool(rs.rand() < .3)})
    for rep in range(150 if tier == "quick" else 400):
        # parallel counts: one entry on the summed axis carries a multi-bit count
        out.append({"kind": "count", "mode": pick(rs, ["unipolar", "bipolar"]), "entry": int(pick(rs, [2, 5, 9, 33, 129, 785])),
                    "scale": pick(rs, [None, 1, 1, 4]), "depth": int(pick(rs, [8, 10, 12, 14])), "T": 200, "rep": rep})
    for rep in range(6):
        out.append({"kind": "mix", "mode": pick(rs, ["unipolar", "bipolar"]), "scale": pick(rs, [None, 1, 3]), "shape": [3, 6], "dima": 0, "depth": int(pick(rs, [5, 8, 20])),
                    "bt": pick(rs, ["f32", "i32", "i16", "f64"]), "st": "f32", "T": stim.LONG[rep % 2], "entry": "none", "scale_at": "cfg", "later": False, "long": True, "cost": 60, "rep": rep})
    return out


def run(c, ctx):
    rs = rs_of(c)
    mode = c["mode"]
    ml = mode.lower()
    bt, st = c.get("bt", "f32"), c.get("st", "f32")
    call_kw = [dict(), dict()]
    if c["kind"] == "exh":
        xs = stim.exhaustive(c["n"], c["k"])
        x = np.stack(xs, 1)                       # [T, k, lanes]
        entry, dima, scale, cfg_entry = c["k"], 0, c["scale"], None
        cfg_scale = scale
    elif c["kind"] == "count":
        e = c["entry"]
        p = rs.rand(1, 1, 6)
        x = rs.binomial(e, np.broadcast_to(p, (c["T"], 1, 6)))
        x[:, :, 0] = 0
        x[:, :, 1] = e
        x[:, :, 2] = (np.arange(c["T"]) // 30 % 2)[:, None] * e
        entry, dima, cfg_entry, cfg_scale = e, 0, e, c["scale"]
        scale = c["scale"]
    else:
        x = np.stack(stim.long(rs, c["T"], 3), 1) if c.get("long") else stim.mix(rs, c["T"], c["shape"])
        dima = c["dima"]
        entry = c["shape"][dima]
        cfg_entry = None
        if c["entry"] == "cfg":
            entry = int(rs.randint(1, 2 * entry + 2))
            cfg_entry = entry
        elif c["entry"] in ("call", "over"):
            e0 = entry
            entry = int(rs.randint(1, 2 * e0 + 2))
            call_kw[0]["entry"] = entry
            cfg_entry = None if c["entry"] == "call" else e0 + 3
        scale = c["scale"]
        cfg_scale = scale
        if c["scale_at"] == "call" and scale is not None:
            call_kw[0]["scale"] = scale
            cfg_scale = pick(rs, [None, 9])
        if c["later"]:
            # configuration given on a later call is documented to have no effect
            call_kw[1] = {"scale": 5, "entry": 17}
    eff = entry if scale is None else scale
    hw = {"mode": mode, "scale": cfg_scale, "dima": dima, "depth": c["depth"], "entry": cfg_entry}
    m = FSUAdd(hw, sw(st, bt))
    ref = spec.Add(ml, eff, entry, c["depth"])
    T = len(x)
    outs, held = [], []
    for t in range(T):
        xt = tt(x[t], bt if c["kind"] == "count" else pick(rs, [st, "f32"]))
        o = m(xt, **(call_kw[0] if t == 0 else call_kw[1]))
        ctx.event()
        w = ref.step(np.atleast_1d(x[t].astype(np.int64).sum(axis=dima)))
        ctx.eq(o, w, "sum stream", dtype=DT[st], cycle=t, mode=ml, scale=eff, entry=entry, depth=c["depth"])
        ctx.eq(xt, x[t], "input after adding")
        outs.append(w)
        if t % 9 == 4:
            held.append((t, o, w))
    for t, o, w in held:
        ctx.eq(o, w, "an earlier output changed later", cycle=t)
    y = np.stack(outs)
    sums = x.astype(np.int64).sum(axis=(dima if dima < 0 else dima + 1)).reshape(y.shape)
    if not ref.saturated and eff >= sums.max() - ref.off and ref.off >= 0:
        tot = np.cumsum(sums, 0) - ref.off * np.arange(1, T + 1).reshape((-1,) + (1,) * (y.ndim - 1))
        want = np.maximum(np.maximum.accumulate(np.floor(tot / eff), 0), 0)
        ctx.check(np.array_equal(np.cumsum(y, 0), want), "ones emitted = floor(sum of inputs / scale) at every prefix")
        ctx.note("exact_scaled_sums")
    ctx.note("saturated_cases", ref.saturated)
    if both(y):
        ctx.mark(c["kind"], ml, eff, entry, c["depth"], y[:64])
    ctx.sample = {"entry": entry, "scale": eff, "cycles": T, "ones_out": int(y.sum()), "of": int(y.size)}
