"""Invalid configurations are refused, valid spellings are accepted."""
import copy
import numpy as np
import torch
import UnarySim.kernel as K
import UnarySim.stream as S
import UnarySim.metric.metric as M
from UnarySim.kernel import rnn, utils
from ..util import rs_of, pick, sw

ID = "C35"
RULE = ("one case = one class and one configuration field: valid spellings must construct, near-miss values must raise before any result is "
        "produced; the other fields are valid and vary from case to case; non-trivial when at least one value was refused and one accepted; every attempt is judged")
ASSUMPTIONS = ["any exception counts as a refusal"]
MODES = (["unipolar", "bipolar", "Bipolar", "UNIPOLAR"], ["", "uni", "bi", "bipolar ", "unipolr", "signed", "unipolar,bipolar", "tripolar"])
RNGS = (["Sobol", "sobol", "SOBOL", "race", "RC", "TC", "race10", "Tc10", "lfsr", "SYS"], ["", "sobol2", "race1", "tc100", "lsfr", "random", "system", "halton"])
ROUND = (["round", "floor", "ceil", "Round", "CEIL"], ["", "trunc", "rounding", "nearest", "floor ", "up"])
QUANT = ([1, 0.5, 1e-3, 1.0], [0, -0.1, 1.0001, 2, -1, float("nan"), 0.0])
SIGN = ([True], [False, None])
FMT = (["fxp", "FXP"], ["", "int", "float", "float64", "bf16", "fp32", "fxp "])
TEMP = (["i", "w", "input", "weight", "W", "Input"], ["", "x", "inputs", "iw", "none", "weights"])
f32 = torch.float


FLOATS = ["bfloat16", "Float16", "FLOAT32"]


def bases(rs):
    """constructors of valid configurations around the judged field: fixed when rs is None, otherwise random"""
    p = lambda first, *more: first if rs is None else pick(rs, (first,) + more)

    def hub(**k):
        d = {"widthi": p(4, 3, 5), "rngi": p("Sobol", "lfsr", "Sys"), "quantilei": p(1, .9, .5), "widthw": 0, "rngw": p("Sobol", "race", "TC10", "sys"), "quantilew": p(1, .8),
             "cycle": p(8, None, 3, 100), "rounding": p("round", "ceil", "Floor"), "signmag": True}
        d["widthw"] = d["widthi"]
        d.update(k)
        return d

    def tlut(**k):
        d = {"temporal": p("i", "w", "Input", "weight"), "widtht": p(2, 1, 3, 4), "formati": p("fxp", *FLOATS), "widthi": p(4, 3, 8), "quantilei": p(1, .9), "formatw": p("fxp", *FLOATS), "widthw": p(4, 3, 8),
             "quantilew": p(1, .7), "cycle": p(None, 2, 50), "rounding": p("round", "CEIL", "floor"), "signmag": True}
        d.update(k)
        return d

    def fsu(**k):
        d = {"width": p(3, 4, 5), "mode": p("bipolar", "unipolar", "Bipolar"), "scale": p(1, None, 2), "depth": p(8, 10, 12), "rng": p("Sobol", "lfsr", "RC", "sys"), "dimr": p(1, 2, 3)}
        d.update(k)
        return d
    return hub, tlut, fsu


W, B, CW, CB = torch.zeros(2, 3) + .5, torch.zeros(2), torch.zeros(2, 3, 3, 2) + .5, torch.zeros(2)
lin = lambda cl, h, w=W, b=B, **k: cl(3, 2, bias=True, weight_ext=w, bias_ext=b, hwcfg=h, **k)
conv = lambda cl, h, w=CW, b=CB, **k: cl(3, 2, (3, 2), bias=True, weight_ext=w, bias_ext=b, hwcfg=h, **k)
mgu = lambda h, wf=torch.zeros(2, 5), bf=torch.zeros(2), wn=torch.zeros(2, 5), bn=torch.zeros(2): \
    rnn.FSUMGUCell(3, 2, True, wf, bf, wn, bn, torch.zeros(1, 2), h, sw())
mcfg = lambda **k: dict({"width": 3, "mode": "bipolar", "depth": 8, "depth_ismul": 2, "rng": "Sobol", "dimr": 1}, **k)


def table(rs=None):
    """(label, f(value), accepted values, refused values)"""
    hub, tlut, fsu = bases(rs)
    pk = lambda first, *more: first if rs is None else pick(rs, (first,) + more)
    src = torch.zeros(3)
    t = [
        ("BinGen mode", lambda v: S.BinGen(src, {"width": 4, "mode": v}), *MODES),
        ("RNG kind", lambda v: S.RNG({"width": 4, "dimr": 1, "rng": v}, sw()), *RNGS),
        ("RawScale quantile", lambda v: S.RawScale({"quantile": v}), *QUANT),
        ("BSGen sequence length", lambda v: S.BSGen(src, torch.zeros(v), sw()), [1, 2, 8, 64], [3, 5, 6, 7, 9, 12, 63, 65]),
        ("FSUAdd mode", lambda v: K.FSUAdd({"mode": v, "scale": None, "dima": 0, "depth": 8, "entry": None}, sw()), *MODES),
        ("FSUMul mode", lambda v: K.FSUMul(src, {"width": 3, "mode": v, "static": True, "rng": "Sobol", "dimr": 1}, sw()), *MODES),
        ("FSUMul in-stream mode", lambda v: K.FSUMul(None, {"width": 3, "mode": v, "static": False, "rng": "Sobol", "dimr": 1}, sw()), *MODES),
        ("FSUMul rng", lambda v: K.FSUMul(src, {"width": 3, "mode": "unipolar", "static": True, "rng": v, "dimr": 1}, sw()), *RNGS),
        ("FSUMul missing operand", lambda v: K.FSUMul(v, {"width": 3, "mode": "bipolar", "static": True, "rng": "Sobol", "dimr": 1}, sw()), [src], [None]),
        ("FSUDiv mode", lambda v: K.FSUDiv({"depth_sa": 3, "depth_ss": 2, "entry_kn": 2, "mode": v, "rng": "Sobol", "dimr": 4}, sw()), *MODES),
        ("FSUDiv rng", lambda v: K.FSUDiv({"depth_sa": 3, "depth_ss": 2, "entry_kn": 2, "mode": "bipolar", "rng": v, "dimr": 4}, sw()), RNGS[0][:8], RNGS[1]),
        ("CORDIV rng", lambda v: K.CORDIV_kernel({"entry": 4, "rng": v, "dimr": 4}, sw()), RNGS[0][:8], RNGS[1]),
        ("FSUHardsigmoid mode", lambda v: K.FSUHardsigmoid({"mode": v, "scale": 2, "dima": 0, "depth": 8, "entry": 2}, sw()), *MODES),
        ("ProgError mode", lambda v: M.ProgError(src, {"scale": 1, "mode": v}), *MODES),
        ("Stability mode", lambda v: M.Stability(src, {"scale": 1, "mode": v, "threshold": .05}), *MODES),
        ("FSUMGUCell mode", lambda v: mgu(mcfg(mode=v)), ["bipolar", "Bipolar"], ["unipolar", "Unipolar"] + MODES[1]),
        ("FSUMGUCell weight_f", lambda v: mgu(mcfg(), wf=torch.zeros(*v)), [(2, 5)], [(2, 4), (2, 6), (3, 5), (1, 5), (5, 2)]),
        ("FSUMGUCell weight_n", lambda v: mgu(mcfg(), wn=torch.zeros(*v)), [(2, 5)], [(2, 4), (2, 6), (3, 5), (1, 5), (5, 2)]),
        ("FSUMGUCell bias_f", lambda v: mgu(mcfg(), bf=torch.zeros(v)), [2], [1, 3]),
        ("FSUMGUCell bias_n", lambda v: mgu(mcfg(), bn=torch.zeros(v)), [2], [1, 3]),
        ("FSUMGUCell input shape", lambda v: mgu(mcfg())(torch.zeros(1, v), torch.zeros(1, 2)), [3], [2, 4, 1]),
        ("FSUMGUCell hidden shape", lambda v: mgu(mcfg())(torch.zeros(1, 3), torch.zeros(*v)), [(1, 2)], [(1, 3), (2, 2), (1, 1), (3, 3)]),
        ("ShiftReg mask shape", lambda v: K.ShiftReg({"entry": 3}, sw())(torch.zeros(2, 3), torch.zeros(*v)), [(2, 3)], [(3,), (1, 3), (2, 1), (3, 2), (1,)]),
        ("clipper mode", lambda v: utils.NN_SC_Weight_Clipper(mode=v)(torch.nn.Linear(3, 2)), ["unipolar", "bipolar"], ["", "uni", "signed"]),
    ]
    for emit, jk in ((True, True), (False, True), (False, False)):
        sq = lambda v, e=emit, j=jk, **k: K.FSUSqrt(dict({"mode": "bipolar", "jk_trace": j, "emit": e, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 4}, **k), sw())
        t += [("FSUSqrt mode", lambda v, s=sq: s(0, mode=v), *MODES),
              ("FSUSqrt entry_sr", lambda v, s=sq: s(0, entry_sr=v), [1, 2, 4, 8], [3, 5, 6, 7, 9, 12]),
              ("FSUSqrt entry_kn", lambda v, s=sq: s(0, entry_kn=v), [1, 2, 4, 8], [3, 5, 6, 7, 9, 12])]
    swbad = ["i8", "i32", "f64", "f16", "bf16"]
    for nm, mk, shp, bshape in (("linear", lin, (2, 3), None), ("conv", conv, (2, 3, 3, 2), None)):
        cls = {"linear": (K.FSULinear, K.HUBLinear, K.FXPLinear, K.TLUTLinear, K.FSULinearPC), "conv": (K.FSUConv2d, K.HUBConv2d, K.FXPConv2d, K.TLUTConv2d, K.FSUConv2dPC)}[nm]
        F_, H_, X_, T_, P_ = cls
        for cl, h in ((F_, fsu()), (H_, hub()), (X_, {"widthi": pk(4, 3, 9), "quantilei": pk(1, .9), "widthw": pk(4, 3, 9), "quantilew": pk(1, .6), "rounding": pk("round", "Ceil", "floor")}), (T_, tlut()), (P_, fsu())):
            bad = [tuple(s + d * (i == j) for j, s in enumerate(shp)) for i in range(len(shp)) for d in (1, -1)]
            t += [("%s weight shape" % cl.__name__, lambda v, cl=cl, h=h, mk=mk: mk(cl, h, w=torch.zeros(*v) + .5), [shp], bad),
                  ("%s bias shape" % cl.__name__, lambda v, cl=cl, h=h, mk=mk: mk(cl, h, b=torch.zeros(v)), [2], [1, 3])]
            if nm == "conv":
                t += [("%s padding mode" % cl.__name__, lambda v, cl=cl, h=h: conv(cl, h, padding_mode=v), ["zeros"], ["reflect", "replicate", "circular"]),
                      ("%s groups" % cl.__name__, lambda v, cl=cl, h=h: cl(4, 2, 2, groups=v, hwcfg=h, bias=True, weight_ext=torch.zeros(2, 4 // v, 2, 2), bias_ext=CB), [1], [2]),
                      ("%s one group per channel" % cl.__name__, lambda v, cl=cl, h=h: cl(2, 2, 2, groups=v, hwcfg=h, bias=True, weight_ext=torch.zeros(2, 2 // v if cl not in (F_, P_) or rs is None or rs.rand() < .5 else 2, 2, 2), bias_ext=CB), [1], [2])]
        for cl in (F_, P_):
            t += [("%s mode" % cl.__name__, lambda v, cl=cl, mk=mk: mk(cl, fsu(mode=v)), *MODES),
                  ("%s rng" % cl.__name__, lambda v, cl=cl, mk=mk: mk(cl, fsu(mode="unipolar", rng=v)), *RNGS)]
        n_in = 3 if nm == "linear" else 18
        t += [("%s temporal weights with non-scaled bipolar addition" % F_.__name__, lambda v, mk=mk, F_=F_: mk(F_, fsu(rng=v[0], scale=v[1], mode=v[2])),
               [("tc", None, "bipolar"), ("race", n_in + 1, "bipolar"), ("tc", 1, "unipolar"), ("Sobol", 1, "bipolar"), ("TC10", 2, "Unipolar")],
               [("tc", 1, "bipolar"), ("race", 2, "Bipolar"), ("RACE10", n_in, "bipolar"), ("Tc10", 1, "BIPOLAR")])]
        for ty in ("stype", "btype", "rtype"):
            t += [("%s %s" % (F_.__name__, ty), lambda v, mk=mk, F_=F_, ty=ty: mk(F_, fsu(), swcfg=sw(**{ty: v})), ["f32"], swbad)]
        t += [("%s %s" % (cl.__name__, f), lambda v, mk=mk, cl=cl, f=f, base=base: mk(cl, base(**{f: v})), *vals)
              for cl, base in ((H_, hub), (T_, tlut)) for f, vals in (("rounding", ROUND), ("quantilei", QUANT), ("quantilew", QUANT), ("signmag", SIGN))]
        t += [("%s %s" % (T_.__name__, f), lambda v, mk=mk, T_=T_, f=f: mk(T_, tlut(**{f: v})), *vals) for f, vals in (("formati", FMT), ("formatw", FMT), ("temporal", TEMP))]
        t += [("%s generators" % H_.__name__, lambda v, mk=mk, H_=H_: mk(H_, hub(rngi=v[0], rngw=v[1])),
               [("Sobol", "race"), ("TC", "sobol"), ("Sobol", "Sobol"), ("race10", "lfsr"), ("sys", "TC10")],
               [(a, b) for a in ("race", "TC", "Race10", "tc10") for b in ("RACE", "tc", "race10", "TC10")] + [("x", "sobol"), ("sobol", "halton")])]
    return t


def cases(tier, seed):
    n = 4 if tier == "quick" else 30
    return [{"n": i, "label": t[0], "rep": r} for i, t in enumerate(table()) for r in range(n)]


def run(c, ctx):
    label, f, good, bad = table(rs_of(c) if c["rep"] else None)[c["n"]]
    taken = 0
    for v in good:
        ctx.event()
        try:
            f(v)
        except Exception as e:
            ctx.fail("%s: a valid value is refused" % label, value=str(v), error="%s: %s" % (type(e).__name__, str(e)[:300]))
        ctx.values += 1
        taken += 1
    refused = 0
    for v in bad:
        ctx.event()
        try:
            f(v)
        except Exception:
            refused += 1
            ctx.values += 1
            continue
        ctx.fail("%s: an invalid value is accepted" % label, value=str(v))
    if taken and refused:
        ctx.mark(label, taken, refused)
    ctx.note("refused", refused)
    ctx.note("accepted", taken)
    ctx.sample = {"check": label, "accepted": taken, "refused": refused}
