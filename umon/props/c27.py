"""Progressive error and its printed report."""
import contextlib
import io
import numpy as np
import torch
from UnarySim.metric.metric import ProgError
from UnarySim.kernel.utils import progerror_report, tensor_unary_outlier
from .. import stim
from ..util import rs_of, pick, tt, DT, anyhow, laid, LAYOUTS

ID = "C27"
RULE = ("one case = one polarity, scale, shape, source tensor and stream mix, read at random cycles; non-trivial when the error changes over "
        "time; progressive value and error of every element are compared at every read, the printed report at the end")
ASSUMPTIONS = ["read after at least one cycle", "float32 noise of one division: 3e-7 of full scale",
               "the printed relative error is judged only where the stream value is away from zero"]


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    return [{"mode": pick(rs, ["unipolar", "bipolar", "Bipolar", "UNIPOLAR"]), "scale": float(pick(rs, [1, 1, 2, 4, 10, .5])), "st": pick(rs, list(DT)),
             "shape": list(pick(rs, stim.SHAPES + [()])), "T": int(pick(rs, [1, 2, 17, 100, 300])), "big": bool(rs.rand() < .3), "wide": r % 50 == 7, "rep": r}
            for r in range(500 if tier == "quick" else 5000)] + \
        [{"mode": m, "scale": 1.0, "st": "f32", "shape": [6], "T": stim.LONG[k], "long": True, "big": False, "rep": k, "cost": 60} for k, m in enumerate(["unipolar", "bipolar"])]


def numbers(line):
    return [float(p) for p in line.replace(",", " ").split() if p.replace(".", "").replace("-", "").isdigit()]


def run(c, ctx):
    rs = rs_of(c)
    mode = c["mode"].lower()
    xshape, sshape = c["shape"], c["shape"]
    if c.get("wide"):
        xshape = sshape = [pick(rs, [5000, 4097, 20000])]
        c = dict(c, T=min(c["T"], 40))
    elif xshape and not c.get("long") and rs.rand() < .25:
        # one source for many streams (fewer or size-1 axes), or one stream against many sources
        cut = [1 if rs.rand() < .5 else v for v in xshape][int(rs.randint(len(xshape) + 1)):]
        xshape, sshape = (xshape, cut) if rs.rand() < .7 else (cut, sshape)
    c = dict(c, shape=list(np.broadcast_shapes(tuple(xshape), tuple(sshape))))
    src = (rs.rand(*sshape) * 2 - 1 if mode == "bipolar" else rs.rand(*sshape)) * c["scale"] * (1.7 if c["big"] else 1)
    src = np.asarray(src, np.float32)
    st = anyhow(torch.from_numpy(src.copy()), rs)
    how = pick(rs, [None, None, *LAYOUTS])
    m = ProgError(st, {"scale": c["scale"], "mode": c["mode"]})
    want_src = np.clip(src.astype(np.float64) / c["scale"], -1, 1)
    x = stim.long(rs, c["T"])[0] if c.get("long") else stim.mix(rs, c["T"], xshape)
    ones = 0
    seen = []
    for t in range(c["T"]):
        m.Monitor(laid(tt(x[t], c["st"]), how, rs))
        ctx.event()
        ones = ones + x[t].astype(np.int64)
        if t == c["T"] - 1 or rs.rand() < (.02 if c.get("long") else .3):
            for again in range(2 if rs.rand() < .2 else 1):
                pp, pe = m()
                ctx.event()
                w = ones / (t + 1)
                if mode == "bipolar":
                    w = 2 * w - 1
                shp, own = c["shape"] if c["shape"] else [1], xshape if len(xshape) else [1]
                ctx.close(pp, np.asarray(w).reshape(own), 3e-7, "progressive value", cycle=t)
                ctx.close(pe, (w - want_src).reshape(shp), 6e-7, "progressive error", cycle=t)
            seen.append(np.asarray(w))
    ctx.eq(st, src, "source given by the caller")
    if len(seen) > 1 and any(np.any(s != seen[0]) for s in seen):
        ctx.mark(mode, c["scale"], np.stack(seen))
    n = int(np.prod(c["shape"])) if list(xshape) == list(sshape) else 1
    w = np.asarray(w, np.float64)
    pe = w - want_src
    if n > 1:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            progerror_report(m, "pe", report_value=True, report_relative=True)
        ctx.event()
        lines = out.getvalue().strip().splitlines()
        if len(lines) != 4:
            ctx.fail("report has %d lines, not 4" % len(lines), got=out.getvalue())
        rel = np.divide(pe, w, out=np.zeros_like(pe), where=w != 0)
        rows = [("Binary", want_src, False), ("Unary", w, False), ("Absolute", pe, True), ("Relative", rel, True)]
        for line, (nm, v, rms) in zip(lines, rows):
            if nm == "Relative" and np.any(np.abs(w) < 1e-3):
                continue
            want = [v.min(), v.max(), v.std(ddof=1), v.mean()] + ([np.sqrt((v ** 2).mean())] if rms else [])
            ctx.check(nm in line, "report row %s" % nm, got=line)
            got = numbers(line)
            if len(got) != len(want):
                ctx.fail("report row %s has %d numbers, not %d" % (nm, len(got), len(want)), got=line)
            ctx.close(np.array(got), np.array(want), 2e-6 + 2e-5 * np.abs(want), "numbers of the %s row" % nm, line=line)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            tensor_unary_outlier(st, "t")
        frac = float(np.mean(np.abs(src) > 1)) * 100
        got = numbers(out.getvalue().replace("%", " ").replace(";", " ").replace(":", " "))
        ctx.close(np.array(got), np.array([src.min(), src.max(), frac], np.float64), 2e-5 * (1 + np.abs([src.min(), src.max(), frac])), "outlier report", line=out.getvalue())
    ctx.sample = {"T": c["T"], "last_error": np.asarray(pe).reshape(-1)[:3].tolist()}
