"""Left-out arguments take their documented values; arguments keep their names and order."""
import io
import contextlib
import numpy as np
import torch
import UnarySim.kernel as K
import UnarySim.stream as S
import UnarySim.metric.metric as M
from UnarySim.kernel import rnn, utils
from .. import stim, hubref
from ..capture import float_shifts
from ..util import rs_of, pick, grid_values

ID = "C41"
RULE = ("one case = one class or helper with random operands, built with arguments left out, with the documented values written out, and with the "
        "documented positional order; all results must be equal and of the documented number type; the same run with each single documented value changed "
        "tells whether the workload would notice; non-trivial when it would notice at least one")
ASSUMPTIONS = ["the documented defaults are those in the signatures of the pinned version", "the generators drawing from the global random state are seeded alike"]

F32 = torch.float32
SW = {"btype": F32, "rtype": F32, "stype": F32}
MUL = {"width": 8, "mode": "bipolar", "static": False, "rng": "Sobol", "dimr": 1}
LAYER = {"width": 8, "mode": "bipolar", "scale": None, "depth": 12, "rng": "Sobol", "dimr": 1}
PC = {"width": 8, "mode": "bipolar", "rng": "Sobol", "dimr": 1}
HUB = {"widthi": 8, "rngi": "Sobol", "quantilei": 1, "widthw": 8, "rngw": "Sobol", "quantilew": 1, "cycle": 128, "rounding": "round", "signmag": True}
FXP = {"widthi": 8, "quantilei": 1, "widthw": 8, "quantilew": 1, "rounding": "round"}
TLUT = {"temporal": "i", "widtht": 4, "formati": "fxp", "widthi": 8, "quantilei": 1, "formatw": "fxp", "widthw": 8, "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True}
MGU = {"width": 8, "mode": "bipolar", "depth": 10, "depth_ismul": 6, "rng": "Sobol", "dimr": 1}
OTHER = {"width": [7], "mode": ["unipolar"], "static": [], "rng": ["rc", "tc"], "dimr": [2, 3], "scale": [1, 2], "depth": [None], "widthi": [9, 7], "widthw": [9, 7], "rngi": ["race"], "rngw": ["race"],
         "quantilei": [.7], "quantilew": [.7], "cycle": [100, 64], "rounding": ["ceil", "floor"], "temporal": ["w"], "widtht": [3, 5], "formati": ["float16"], "formatw": ["float16"],
         "depth_ismul": [5], "entry": [None], "depth_sa": [2], "depth_ss": [1], "entry_kn": [4], "jk_trace": [False], "emit": [False], "entry_sr": [4], "quantile": [.6], "threshold": [.1], "dima": [1]}


def seq_run(T, mk):
    """mk(cfg) -> step(t) -> outputs"""
    def go(cfg):
        step = mk(cfg)
        out = []
        for t in range(T):
            o = step(t)
            out.append([v.detach().clone() for v in (o if isinstance(o, (tuple, list)) else (o,))])
        return [torch.stack(q) for q in zip(*out)]
    return go


BUILT = []


def build(cl, h, *pos, swk=None, **kw):
    """h None: left out; a dict: written out by name; a tuple (dict,): by position"""
    if h is None:
        BUILT.append(cl(*pos, **kw))
        return BUILT[-1]
    if isinstance(h, tuple):
        return cl(*pos, h[0], *([swk] if swk else []), **kw)
    return cl(*pos, hwcfg=h, **kw, **({"swcfg": swk} if swk else {}))


def subjects(rs):
    x = stim.mix(rs, 1100, (4, 5))
    x[:, :, 0] = (np.arange(1100) < 500)[:, None]  # drives the accumulator into its limit and out again
    x[:, :, 1] = (np.arange(1100) < 80)[:, None]
    y = stim.mix(rs, 1100, (4, 5))
    X, Y = torch.from_numpy(x.astype(np.float32)), torch.from_numpy(y.astype(np.float32))
    src = torch.from_numpy(grid_values(rs, (4, 5), 8, "bipolar"))
    raw = torch.from_numpy(hubref.data(rs, (6, 40), pick(rs, ["normal", "uniform", "outlier"])))
    big = torch.from_numpy(hubref.data(rs, (5, 40), "normal"))
    ni = 40
    L = torch.from_numpy(stim.mix(rs, 320, (2, ni)).astype(np.float32))
    L[:, 0] = (torch.arange(320) < 125).float().unsqueeze(1)
    W, B = torch.from_numpy(grid_values(rs, (3, ni), 8, "bipolar")), torch.from_numpy(grid_values(rs, (3,), 8, "bipolar"))
    W[0] = 1
    Wn, Bn = torch.from_numpy(hubref.data(rs, (3, ni), "normal")), torch.from_numpy(hubref.data(rs, (3,), "normal"))
    img = torch.from_numpy(stim.mix(rs, 320, (1, 4, 5, 5)).astype(np.float32))
    img[:, :, :, :3, :3] = (torch.arange(320) < 140).float().reshape(-1, 1, 1, 1, 1)
    Wc, Wcn = torch.from_numpy(grid_values(rs, (3, 4, 3, 3), 8, "bipolar")), torch.from_numpy(hubref.data(rs, (3, 4, 3, 3), "normal"))
    Wc[0] = 1
    raw4 = torch.from_numpy(hubref.data(rs, (2, 4, 6, 6), "normal"))
    n_ = 6
    m4 = [torch.from_numpy(v) for v in (grid_values(rs, (2, n_ + 2), 8, "bipolar"), grid_values(rs, (2,), 8, "bipolar"), grid_values(rs, (2, n_ + 2), 8, "bipolar"), grid_values(rs, (2,), 8, "bipolar"))]
    hx = torch.from_numpy(grid_values(rs, (3, 2), 8, "bipolar"))
    mx = torch.from_numpy(stim.mix(rs, 400, (3, n_)).astype(np.float32))
    mh = torch.from_numpy(stim.mix(rs, 400, (3, 2)).astype(np.float32))
    ident = lambda o: [v.detach() for v in (o if isinstance(o, (tuple, list)) else (o,))]
    s_ = lambda *k: {q: F32 for q in k}
    two = lambda T, cl, h, sk, call, *pos: (h, seq_run(T, lambda cfg: (lambda m: lambda t: call(m, t))(build(cl, cfg, *pos, swk=s_(*sk)))))
    bins = lambda cl, h, inp, *pos, **kw: (h, lambda cfg: ident(build(cl, cfg, *pos, **kw)(inp)))
    conf = {
        "RNG": ({"width": 8, "dimr": 1, "rng": "Sobol"}, lambda cfg: [build(S.RNG, cfg, swk=s_("rtype"))()]),
        "RawScale": ({"quantile": 1}, lambda cfg: [build(S.RawScale, cfg)(raw)]),
        "BinGen": ({"width": 8, "mode": "bipolar"}, lambda cfg: [build(S.BinGen, cfg, src, swk=s_("rtype"))()]),
        "SkewedSync": two(200, S.SkewedSync, {"depth": 2}, ("btype", "stype"), lambda m, t: m(X[t], Y[t])),
        "Bi2Uni": two(200, S.Bi2Uni, {"depth": 3}, ("stype", "btype"), lambda m, t: m(X[t])),
        "Uni2Bi": two(200, S.Uni2Bi, {"depth": 4}, ("stype", "btype"), lambda m, t: m(X[t])),
        "ShiftReg": two(60, K.ShiftReg, {"entry": 8}, ("stype",), lambda m, t: m(X[t])),
        "FSUAdd": two(1100, K.FSUAdd, {"mode": "bipolar", "scale": None, "dima": 0, "depth": 10, "entry": None}, ("btype", "stype"), lambda m, t: m(X[t], 1)),
        "FSUAdd scaled": two(100, K.FSUAdd, {"mode": "bipolar", "scale": None, "dima": 0, "depth": 10, "entry": None}, ("btype", "stype"), lambda m, t: m(X[t])),
        "FSUMul": two(300, K.FSUMul, MUL, ("rtype", "stype"), lambda m, t: m(X[t], Y[t]), None),
        "CORDIV_kernel": two(100, K.CORDIV_kernel, {"entry": 4, "rng": "Sobol", "dimr": 4}, ("stype",), lambda m, t: m(X[t], Y[t])),
        "FSUDiv": two(200, K.FSUDiv, {"depth_sa": 3, "depth_ss": 2, "entry_kn": 2, "mode": "bipolar", "rng": "Sobol", "dimr": 4}, ("stype", "btype"), lambda m, t: m(X[t], Y[t])),
        "FSUSqrt": two(150, K.FSUSqrt, {"mode": "bipolar", "jk_trace": True, "emit": True, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 4}, ("stype", "btype"), lambda m, t: m(X[t])),
        "FSUReLU": two(200, K.FSUReLU, {"depth": 6}, ("btype", "stype"), lambda m, t: m(X[t])),
        "FSUSignAbs": two(200, K.FSUSignAbs, {"depth": 3}, ("btype", "stype"), lambda m, t: m(X[t])),
        "FSUHardsigmoid": two(200, K.FSUHardsigmoid, {"mode": "bipolar", "scale": 2, "dima": 0, "depth": 8, "entry": 2}, ("btype", "stype"), lambda m, t: m(X[t])),
        "FSULinear": two(320, K.FSULinear, LAYER, ("btype", "rtype", "stype"), lambda m, t: m(L[t], 1), ni, 3, True, W, B),
        "FSULinear scaled": two(160, K.FSULinear, LAYER, ("btype", "rtype", "stype"), lambda m, t: m(L[t]), ni, 3, True, W, B),
        "FSULinearPC": two(100, K.FSULinearPC, PC, ("btype", "rtype", "stype"), lambda m, t: m(L[t]), ni, 3, True, W, B),
        "FSUConv2d": two(320, K.FSUConv2d, LAYER, ("btype", "rtype", "stype"), lambda m, t: m(img[t], 1), 4, 3, 3, 1, 0, 1, 1, True, "zeros", Wc, B),
        "FSUConv2dPC": two(60, K.FSUConv2dPC, PC, ("btype", "rtype", "stype"), lambda m, t: m(img[t]), 4, 3, 3, 1, 0, 1, 1, True, "zeros", Wc, B),
        "HUBLinear": bins(K.HUBLinear, HUB, big, ni, 3, True, Wn, Bn), "FXPLinear": bins(K.FXPLinear, FXP, big, ni, 3, True, Wn, Bn), "TLUTLinear": bins(K.TLUTLinear, TLUT, big, ni, 3, True, Wn, Bn),
        "HUBConv2d": bins(K.HUBConv2d, HUB, raw4, 4, 3, 3, 1, 0, 1, 1, True, "zeros", Wcn, Bn), "FXPConv2d": bins(K.FXPConv2d, FXP, raw4, 4, 3, 3, 1, 0, 1, 1, True, "zeros", Wcn, Bn),
        "TLUTConv2d": bins(K.TLUTConv2d, TLUT, raw4, 4, 3, 3, 1, 0, 1, 1, True, "zeros", Wcn, Bn),
        "FSUMGUCell": two(400, rnn.FSUMGUCell, MGU, ("btype", "rtype", "stype"), lambda m, t: m(mx[t], mh[t]), n_, 2, True, *m4, hx),
        "HUBMGUCell": (MGU, lambda cfg: ident(build(rnn.HUBMGUCell, cfg, n_, 2, True, *m4)(src[:3, :1].expand(3, n_) * .9, hx))),
    }

    def metric(cl):
        def mk(cfg):
            m = build(cl, cfg, src)
            def step(t):
                m.Monitor(X[t])
                o = m()
                return [v.clone() for v in o] if isinstance(o, tuple) else o.clone()
            return step
        return seq_run(60, mk)
    conf["ProgError"] = ({"scale": 1, "mode": "bipolar"}, metric(M.ProgError))
    conf["Stability"] = ({"scale": 1, "mode": "bipolar", "threshold": .05}, metric(M.Stability))
    return conf


def text(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return out.getvalue()


def calls(rs):
    """name -> list of calls that must give the same result (left out, written out by name, by position)"""
    g = lambda *s: torch.from_numpy(hubref.data(rs, s, "normal"))
    x, W, B = g(4, 6), g(3, 6), g(3)
    im, Wc = g(2, 3, 6, 6), g(4, 3, 2, 2)
    Wi, Bi = torch.from_numpy(grid_values(rs, (3, 6), 8, "bipolar")), torch.from_numpy(grid_values(rs, (3,), 8, "bipolar"))
    bits = torch.from_numpy((rs.rand(300, 2, 6) < .5).astype(np.float32))
    src = torch.from_numpy(grid_values(rs, (4, 6), 8, "bipolar"))
    seed = int(rs.randint(1 << 30))

    def seeded(f):
        def go():
            torch.manual_seed(seed)
            np.random.seed(seed % (1 << 32))
            return f()
        return go

    def clip(*a, n=1, **k):
        l = torch.nn.Linear(3, 4)
        l.weight.data.copy_(cw)
        l.bias.data.copy_(cb)
        c = utils.NN_SC_Weight_Clipper(*a, **k)
        for _ in range(n):
            c(l)
        return torch.cat([l.weight.data.reshape(-1), l.bias.data])
    cw, cb = g(4, 3), g(4)

    def prog(m, named=False):
        for t in range(20):
            m.Monitor(in_1=bits[t, :1].expand(src.shape)) if named else m.Monitor(bits[t, :1].expand(src.shape))
        return m()

    def scc(f):
        m = M.Correlation()
        for t in range(40):
            f(m, bits[t, 0], bits[t + 1, 0] if t % 3 else bits[t, 0])
        return m()
    pe = M.ProgError(src)
    pe.Monitor(torch.ones(4, 6))

    def run(m):
        return torch.stack([m(bits[t]) for t in range(300)])

    def run2(m):
        return torch.stack([m(bits[t], bits[t, :, :2]) if t % 2 else m(input=bits[t], hx=bits[t, :, :2]) for t in range(100)])

    def run3(m):
        return torch.stack([m(ibits[t]) for t in range(60)])
    ibits = torch.from_numpy((rs.rand(60, 2, 3, 6, 6) < .5).astype(np.float32))

    def steps(mk, *forms, T=60):
        """the same run with each form of the call"""
        def go(f):
            m = mk()
            o = [f(m, t) for t in range(T)]
            return torch.stack([torch.cat([v.reshape(-1) for v in (q if isinstance(q, tuple) else (q,))]) for q in o])
        return [lambda f=f: go(f) for f in forms]
    A, Bb = bits[:, 0], bits[:, 1]
    sc, en = int(rs.randint(1, 4)), int(rs.randint(7, 10))
    Wci, Bci = torch.from_numpy(grid_values(rs, (4, 3, 2, 2), 8, "bipolar")), torch.from_numpy(grid_values(rs, (4,), 8, "bipolar"))
    
    mw = [torch.from_numpy(v) for v in (grid_values(rs, (2, 8), 8, "bipolar"), grid_values(rs, (2,), 8, "bipolar"), grid_values(rs, (2, 8), 8, "bipolar"), grid_values(rs, (2,), 8, "bipolar"))]
    mh = torch.from_numpy(grid_values(rs, (2, 2), 8, "bipolar"))
    h, w = int(rs.randint(5, 12)), int(rs.randint(5, 12))
    k2, s2, p2, d2 = (2, 3), (2, 1), (1, 0), (1, 2)
    mg = lambda *a, **k: rnn.HardMGUCell(*a, **k)(x, None)
    mf = lambda *a, **k: rnn.HardMGUCellFXP(*a, **k)(x, None)
    bs = S.BinGen(src)(), S.RNG()()
    return {
        "get_lfsr_seq": [seeded(lambda: S.gen.get_lfsr_seq()), seeded(lambda: S.gen.get_lfsr_seq(width=8)), seeded(lambda: S.gen.get_lfsr_seq(8))],
        "get_sysrand_seq": [seeded(lambda: S.gen.get_sysrand_seq()), seeded(lambda: S.gen.get_sysrand_seq(width=8)), seeded(lambda: S.gen.get_sysrand_seq(8))],
        "BSGen": [lambda: S.BSGen(*bs)(torch.tensor([9])), lambda: S.BSGen(binary=bs[0], rng=bs[1], swcfg={"stype": F32})(torch.tensor([9])), lambda: S.BSGen(bs[0], bs[1], {"stype": F32})(cycle=torch.tensor([9]))],
        "JKFF": [lambda: K.JKFF()(bits[0], bits[1]), lambda: K.JKFF(swcfg={"stype": F32})(J=bits[0], K=bits[1]), lambda: K.JKFF({"stype": F32})(bits[0], K=bits[1])],
        **{n + " call": steps(mk, lambda m, t, q=q: m(q[t], sc, en), lambda m, t, q=q: m(q[t], scale=sc, entry=en), lambda m, t, q=q: m(q[t], sc, entry=en), lambda m, t, q=q: m(input=q[t], entry=en, scale=sc))
           for n, mk, q in (("FSUAdd", lambda: K.FSUAdd(), bits), ("FSULinear", lambda: K.FSULinear(6, 3, True, Wi, Bi), bits),
                            ("FSUConv2d", lambda: K.FSUConv2d(3, 4, 2, weight_ext=Wci, bias_ext=Bci), ibits))},
        **{n + " call 1": steps(mk, lambda m, t, q=q: m(q[t], sc), lambda m, t, q=q: m(q[t], scale=sc), lambda m, t, q=q: m(q[t], sc, None), lambda m, t, q=q: m(q[t], scale=sc, entry=None))
           for n, mk, q in (("FSUAdd", lambda: K.FSUAdd(), bits), ("FSULinear", lambda: K.FSULinear(6, 3, True, Wi, Bi), bits), ("FSUConv2d", lambda: K.FSUConv2d(3, 4, 2, weight_ext=Wci, bias_ext=Bci), ibits))},
        "ShiftReg call": steps(lambda: K.ShiftReg(), lambda m, t: m(A[t], Bb[t], 3), lambda m, t: m(A[t], mask=Bb[t], index=3), lambda m, t: m(A[t], index=3, mask=Bb[t])),
        "ShiftReg call 1": steps(lambda: K.ShiftReg(), lambda m, t: m(A[t]), lambda m, t: m(A[t], None, 0), lambda m, t: m(A[t], mask=None, index=0)),
        "FSUMul call": steps(lambda: K.FSUMul(None), lambda m, t: m(A[t], Bb[t]), lambda m, t: m(in_0=A[t], in_1=Bb[t])),
        "FSUMul call 1": steps(lambda: K.FSUMul(src[:1], dict(MUL, static=True), {"rtype": F32, "stype": F32}), lambda m, t: m(A[t]), lambda m, t: m(A[t], None), lambda m, t: m(in_0=A[t])),
        "FSUDiv call": steps(lambda: K.FSUDiv(), lambda m, t: m(A[t], Bb[t]), lambda m, t: m(dividend=A[t], divisor=Bb[t])),
        "CORDIV_kernel call": steps(lambda: K.CORDIV_kernel(), lambda m, t: m(A[t], Bb[t]), lambda m, t: m(dividend=A[t], divisor=Bb[t])),
        "SkewedSync call": steps(lambda: S.SkewedSync(), lambda m, t: m(A[t], Bb[t]), lambda m, t: m(in_1=A[t], in_2=Bb[t])),
        "HUBReLU": [lambda: K.HUBReLU()(x), lambda: K.HUBReLU(scale=1., inplace=False)(x), lambda: K.HUBReLU(1., False)(x)],
        "HUBHardsigmoid": [lambda: K.HUBHardsigmoid()(x), lambda: K.HUBHardsigmoid(scale=3)(x), lambda: K.HUBHardsigmoid(3)(x)],
        "NN_SC_Weight_Clipper": [lambda: clip(), lambda: clip(frequency=1, mode="bipolar", method="clip", bitwidth=8), lambda: clip(1, "bipolar", "clip", 8)],
        "NN_SC_Weight_Clipper uni": [lambda: clip(2, mode="unipolar"), lambda: clip(2, "unipolar"), lambda: clip(2, "unipolar", "clip", 8)],
        "conv2d_output_shape": [lambda: utils.conv2d_output_shape((h, w)), lambda: utils.conv2d_output_shape(h_w=(h, w), kernel_size=1, stride=1, pad=0, dilation=1), lambda: utils.conv2d_output_shape((h, w), 1, 1, 0, 1)],
        "conv2d_output_shape 2": [lambda: utils.conv2d_output_shape((h, w), k2, s2, p2, d2), lambda: utils.conv2d_output_shape(h_w=(h, w), dilation=d2, pad=p2, stride=s2, kernel_size=k2)],
        "convtransp2d_output_shape": [lambda: utils.convtransp2d_output_shape((h, w)), lambda: utils.convtransp2d_output_shape(h_w=(h, w), kernel_size=1, stride=1, pad=0, dilation=1, out_pad=0), lambda: utils.convtransp2d_output_shape((h, w), 1, 1, 0, 1, 0)],
        "convtransp2d_output_shape 2": [lambda: utils.convtransp2d_output_shape((h, w), k2, s2, p2, d2, (0, 1)), lambda: utils.convtransp2d_output_shape(h_w=(h, w), out_pad=(0, 1), dilation=d2, pad=p2, stride=s2, kernel_size=k2)],
        "conv2d_get_padding": [lambda: utils.conv2d_get_padding((h, w), (h, w), 3), lambda: utils.conv2d_get_padding(h_w_in=(h, w), h_w_out=(h, w), kernel_size=3, stride=1, dilation=1), lambda: utils.conv2d_get_padding((h, w), (h, w), 3, 1, 1)],
        "convtransp2d_get_padding": [lambda: utils.convtransp2d_get_padding((h, w), (h, w), 3), lambda: utils.convtransp2d_get_padding(h_w_in=(h, w), h_w_out=(h, w), kernel_size=3, stride=1, dilation=1, out_pad=0), lambda: utils.convtransp2d_get_padding((h, w), (h, w), 3, 1, 1, 0)],
        "truncated_normal": [seeded(lambda: utils.truncated_normal(torch.empty(50))), seeded(lambda: utils.truncated_normal(t=torch.empty(50), mean=0.0, std=0.01)), seeded(lambda: utils.truncated_normal(torch.empty(50), 0., .01))],
        "rshift_offset": [lambda: torch.stack([torch.as_tensor(v, dtype=F32) for v in utils.rshift_offset(x, W, 7, 5)]),
                          lambda: torch.stack([torch.as_tensor(v, dtype=F32) for v in utils.rshift_offset(input=x, weight=W, widthi=7, widthw=5, rounding="round", quantilei=1, quantilew=1)]),
                          lambda: torch.stack([torch.as_tensor(v, dtype=F32) for v in utils.rshift_offset(x, W, 7, 5, "round", 1, 1)])],
        "Round": [lambda: utils.Round()(x), lambda: utils.Round(intwidth=3, fracwidth=4)(x), lambda: utils.Round(3, 4)(x)],
        "progerror_report": [lambda: text(lambda: utils.progerror_report(pe)), lambda: text(lambda: utils.progerror_report(progerror=pe, name="progerror", report_value=False, report_relative=False)), lambda: text(lambda: utils.progerror_report(pe, "progerror", False, False))],
        "progerror_report values": [lambda: text(lambda: utils.progerror_report(pe, "n", True, False)), lambda: text(lambda: utils.progerror_report(pe, name="n", report_value=True)), lambda: text(lambda: utils.progerror_report(pe, "n", True))],
        "progerror_report relative": [lambda: text(lambda: utils.progerror_report(pe, "n", False, True)), lambda: text(lambda: utils.progerror_report(pe, name="n", report_relative=True))],
        "truncated_normal 2": [seeded(lambda: utils.truncated_normal(torch.empty(50), .3, .2)), seeded(lambda: utils.truncated_normal(torch.empty(50), std=.2, mean=.3))],
        "rshift_offset 2": [lambda: torch.stack([torch.as_tensor(v, dtype=F32) for v in utils.rshift_offset(x, W, 7, 5, "floor", .6, .9)]),
                            lambda: torch.stack([torch.as_tensor(v, dtype=F32) for v in utils.rshift_offset(x, W, widthw=5, widthi=7, quantilew=.9, quantilei=.6, rounding="floor")])],
        "Round 2": [lambda: utils.Round(2, 5)(x), lambda: utils.Round(fracwidth=5, intwidth=2)(x)],
        "HUBReLU 2": [lambda: K.HUBReLU(.5, False)(x), lambda: K.HUBReLU(inplace=False, scale=.5)(x), lambda: K.HUBReLU(.5)(x)],
        "HUBReLU in place": [lambda: (lambda v: torch.stack([K.HUBReLU(.5, True)(v), v]))(x.clone()), lambda: (lambda v: torch.stack([K.HUBReLU(scale=.5, inplace=True)(v), v]))(x.clone())],
        "HUBHardsigmoid 2": [lambda: K.HUBHardsigmoid(2)(x), lambda: K.HUBHardsigmoid(scale=2)(x)],
        "NN_SC_Weight_Clipper 2": [lambda: clip(2, "unipolar", "norm", 5, n=4), lambda: clip(frequency=2, bitwidth=5, method="norm", mode="unipolar", n=4)],
        "conv2d_get_padding 2": [lambda: utils.conv2d_get_padding((h, w), (h, w + 1), k2, s2, d2), lambda: utils.conv2d_get_padding(h_w_out=(h, w + 1), h_w_in=(h, w), dilation=d2, stride=s2, kernel_size=k2)],
        "convtransp2d_get_padding 2": [lambda: utils.convtransp2d_get_padding((h, w), (2 * h, w + 1), k2, s2, d2, (1, 0)),
                                       lambda: utils.convtransp2d_get_padding(h_w_out=(2 * h, w + 1), h_w_in=(h, w), out_pad=(1, 0), dilation=d2, stride=s2, kernel_size=k2)],
        "HardMGUCell 2": [seeded(lambda: mg(6, 2, False, False)), seeded(lambda: mg(6, 2, hard=False, bias=False))],
        "HardMGUCell 3": [seeded(lambda: mg(6, 2, False, True)), seeded(lambda: mg(6, 2, bias=False))],
        "HardMGUCellFXP 2": [seeded(lambda: mf(6, 2, False, False, 2, 6)), seeded(lambda: mf(6, 2, fracwidth=6, intwidth=2, hard=False, bias=False))],
        "ProgError names": [lambda: torch.stack(prog(M.ProgError(src, {"scale": 2, "mode": "unipolar"}))), lambda: torch.stack(prog(M.ProgError(hwcfg={"scale": 2, "mode": "unipolar"}, source=src), True))],
        "Stability names": [lambda: prog(M.Stability(src, {"scale": 1, "mode": "bipolar", "threshold": .3})), lambda: prog(M.Stability(hwcfg={"scale": 1, "mode": "bipolar", "threshold": .3}, source=src), True)],
        "Correlation names": [lambda: scc(lambda m, a, b: m.Monitor(a, b)), lambda: scc(lambda m, a, b: m.Monitor(in_2=b, in_1=a))],
        "Correlation names 2": [lambda: scc(lambda m, a, b: m.Monitor(a)), lambda: scc(lambda m, a, b: m.Monitor(in_1=a)), lambda: scc(lambda m, a, b: m.Monitor(a, None))],
        "tensor_unary_outlier": [lambda: text(lambda: utils.tensor_unary_outlier(src)), lambda: text(lambda: utils.tensor_unary_outlier(tensor=src, name="tensor")), lambda: text(lambda: utils.tensor_unary_outlier(src, "tensor"))],
        "HardMGUCell": [seeded(lambda: mg(6, 2)), seeded(lambda: mg(input_size=6, hidden_size=2, bias=True, hard=True)), seeded(lambda: mg(6, 2, True, True))],
        "HardMGUCellFXP": [seeded(lambda: mf(6, 2)), seeded(lambda: mf(input_size=6, hidden_size=2, bias=True, hard=True, intwidth=3, fracwidth=4)), seeded(lambda: mf(6, 2, True, True, 3, 4))],
        "FSULinear names": [lambda: run(K.FSULinear(6, 3, True, Wi, Bi)), lambda: run(K.FSULinear(in_features=6, out_features=3, bias=True, weight_ext=Wi, bias_ext=Bi)), lambda: run(K.FSULinear(6, 3, weight_ext=Wi, bias_ext=Bi))],
        **{n + " names": [lambda cl=cl: run3(cl(3, 4, 2, 2, 1, 3, 1, True, "zeros", Wci, Bci)), lambda cl=cl: run3(cl(in_channels=3, out_channels=4, kernel_size=2, stride=2, padding=1, dilation=3, groups=1, bias=True, padding_mode="zeros", weight_ext=Wci, bias_ext=Bci))]
           for n, cl in (("FSUConv2d", K.FSUConv2d), ("FSUConv2dPC", K.FSUConv2dPC))},
        "FSULinearPC names": [lambda: run(K.FSULinearPC(6, 3, True, Wi, Bi)), lambda: run(K.FSULinearPC(in_features=6, out_features=3, bias=True, weight_ext=Wi, bias_ext=Bi))],
        "FSUMGUCell names": [lambda: run2(rnn.FSUMGUCell(6, 2, True, *mw, mh)), lambda: run2(rnn.FSUMGUCell(input_size=6, hidden_size=2, bias=True, weight_ext_f=mw[0], bias_ext_f=mw[1], weight_ext_n=mw[2], bias_ext_n=mw[3], hx_buffer=mh))],
        "HUBMGUCell names": [lambda: rnn.HUBMGUCell(6, 2, True, *mw)(src[:2] * .9, mh), lambda: rnn.HUBMGUCell(input_size=6, hidden_size=2, bias=True, weight_ext_f=mw[0], bias_ext_f=mw[1], weight_ext_n=mw[2], bias_ext_n=mw[3])(input=src[:2] * .9, hx=mh)],
        "HUBLinear names": [lambda: K.HUBLinear(6, 3, True, W, B)(x), lambda: K.HUBLinear(in_features=6, out_features=3, weight_ext=W, bias_ext=B)(input=x)],
        "FXPLinear names": [lambda: K.FXPLinear(6, 3, True, W, B)(x), lambda: K.FXPLinear(in_features=6, out_features=3, weight_ext=W, bias_ext=B)(input=x)],
        "TLUTLinear names": [lambda: K.TLUTLinear(6, 3, True, W, B)(x), lambda: K.TLUTLinear(in_features=6, out_features=3, weight_ext=W, bias_ext=B)(input=x)],
        **{n + " names": [lambda cl=cl: cl(3, 4, 2, 2, 1, 3, 1, False, "zeros", Wc)(im), lambda cl=cl: cl(in_channels=3, out_channels=4, kernel_size=2, stride=2, padding=1, dilation=3, groups=1, bias=False, padding_mode="zeros", weight_ext=Wc)(input=im)]
           for n, cl in (("HUBConv2d", K.HUBConv2d), ("FXPConv2d", K.FXPConv2d), ("TLUTConv2d", K.TLUTConv2d))},
        **{n + " geometry": [lambda cl=cl: cl(3, 4, 2, bias=False, weight_ext=Wc)(im), lambda cl=cl: cl(3, 4, 2, stride=1, padding=0, dilation=1, groups=1, bias=False, padding_mode="zeros", weight_ext=Wc)(im)]
           for n, cl in (("HUBConv2d", K.HUBConv2d), ("FXPConv2d", K.FXPConv2d), ("TLUTConv2d", K.TLUTConv2d))},
    }


NAMES = ["RNG", "RawScale", "BinGen", "SkewedSync", "Bi2Uni", "Uni2Bi", "ShiftReg", "FSUAdd", "FSUAdd scaled", "FSUMul", "CORDIV_kernel", "FSUDiv", "FSUSqrt", "FSUReLU", "FSUSignAbs",
         "FSUHardsigmoid", "FSULinear", "FSULinear scaled", "FSULinearPC", "FSUConv2d", "FSUConv2dPC", "HUBLinear", "FXPLinear", "TLUTLinear", "HUBConv2d", "FXPConv2d", "TLUTConv2d",
         "FSUMGUCell", "HUBMGUCell", "ProgError", "Stability"]


def cases(tier, seed):
    n = 4 if tier == "quick" else 40
    return [{"unit": u, "rep": r, "cost": 4 if u in ("FSUAdd", "FSULinear", "FSUConv2d", "FSUMGUCell", "HUBMGUCell") else 1} for u in NAMES + ["calls"] for r in range(n)]


def same(a, b):
    if isinstance(a, str) or isinstance(a, tuple) or not hasattr(a, "__len__"):
        return a == b
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    return np.array_equal(np.asarray(a), np.asarray(b))


def run(c, ctx):
    rs = rs_of(c)
    if c["unit"] == "calls":
        with float_shifts():
            for nm, ways in calls(rs).items():
                ref = ways[0]()
                for k, f in enumerate(ways[1:]):
                    r = f()
                    ctx.event()
                    ctx.check(same(ref, r), "%s: left-out arguments or their order (way %d) give another result" % (nm, k), got=str(r)[:300], want=str(ref)[:300])
                ctx.mark(nm, str(ref)[:200])
        return
    h, go = subjects(rs)[c["unit"]]
    BUILT.clear()
    ref = go(None)
    # whatever the owner of one object does to the configuration it carries, the next one is built on the documented defaults
    for m in list(BUILT):
        for d in [v for q in m.modules() for v in vars(q).values() if type(v) is dict and v and all(isinstance(k, str) for k in v)]:
            if set(d) <= set(h) | {"btype", "rtype", "stype"}:
                for k in d:
                    d[k] = 3 if isinstance(d[k], (int, float)) else None
                ctx.note("configurations_overwritten")
    for j, (a, b) in enumerate(zip(go(None), ref)):
        ctx.eq(a, b.numpy(), "%s built on its defaults after the configuration of an earlier one was overwritten" % c["unit"])
    BUILT.clear()
    ctx.event(len(ref[0]) if ref[0].dim() else 1)
    for v in ref:
        if v.dtype != F32:
            ctx.fail("%s on its defaults gives %s, not float32" % (c["unit"], v.dtype))
    for how in (dict(h), (dict(h),)):
        got = go(how)
        for j, (a, b) in enumerate(zip(got, ref)):
            ctx.eq(b, a.numpy(), "%s: left out against written-out configuration" % c["unit"], configuration=str(h), by="position" if isinstance(how, tuple) else "name")
    for k in h:
        for v in OTHER.get(k, []):
            if v is None and isinstance(h[k], int):
                v = h[k] - 1
            if v is None or v == h[k]:
                continue
            try:
                alt = go(dict(h, **{k: v}))
                differs = any(a.shape != b.shape or not torch.equal(a, b) for a, b in zip(alt, ref))
            except Exception:
                differs = True
            ctx.note("changed_values_noticed" if differs else "changed_values_not_noticed:%s.%s=%s" % (c["unit"], k, v))
            if differs:
                ctx.mark(c["unit"], k, ref[0].numpy()[:20])
    ctx.sample = {"unit": c["unit"], "configuration": str(h)}
