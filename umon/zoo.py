"""Every streaming unit behind one interface, for the cross-cutting properties.

make(name, rs) -> Unit.  A Unit describes L independent lanes; new(idx, shape, st, bt) builds a fresh module that
computes the lanes idx laid out as shape, and returns step(t, bits) -> list of output tensors (shape + tail).
"""
import numpy as np
import torch
import UnarySim.kernel as K
import UnarySim.stream as S
from UnarySim.kernel import rnn, utils
from UnarySim.metric.metric import Correlation, ProgError, Stability
from .util import DT, pick, grid_values, tt
from . import stim, hubref, util

F = torch.from_numpy
GIVEN = []          # number-type configurations handed to constructors (aliasing checks look at them)


def sw(*a, **k):
    d = util.sw(*a, **k)
    GIVEN.append(d)
    del GIVEN[:-64]
    return d


class Unit:
    def __init__(self, name, L, tails, build, flat=False, f32=False, metric=False, cfgs=()):
        self.name, self.L, self.tails, self._build = name, L, tails, build
        self.flat = flat            # lanes are a batch axis: only selection, no reshaping
        self.f32 = f32              # float32 streams only
        self.metric = metric        # outputs are numbers, not bits
        self.cfgs = cfgs            # configuration dicts and tensors given by the caller

    def new(self, idx=None, shape=None, st="f32", bt="f32", keep=None):
        idx = np.arange(self.L) if idx is None else np.asarray(idx)
        shape = (len(idx),) if shape is None else tuple(shape)
        if keep is None:
            keep = {}
        fn = self._build(idx, shape, st, bt, keep)
        self.module = keep.get("m")
        return Runner(self, fn, idx, shape, st, keep)

    def stimulus(self, rs, T):
        return [stim.mix(rs, T, tail + (self.L,)).transpose((0, len(tail) + 1) + tuple(range(1, len(tail) + 1))).copy() for tail in self.tails]


class Runner:
    def __init__(self, unit, fn, idx, shape, st, keep):
        self.unit, self.fn, self.idx, self.shape, self.st, self.keep = unit, fn, idx, shape, st, keep

    def inputs(self, t, xs):
        return [tt(x[t][self.idx].reshape(self.shape + tail), self.st) for x, tail in zip(xs, self.unit.tails)]

    def step(self, t, xs, mod=None):
        return self.call(t, self.inputs(t, xs), mod)

    def call(self, t, ins, mod=None):
        o = self.fn(mod if mod is not None else self.keep["m"], t, ins)
        return list(o) if isinstance(o, (tuple, list)) else [o]

    def run(self, xs, lo=0, hi=None, mod=None):
        """outputs as numpy [T, lanes, ...] per output"""
        hi = (len(xs[0]) if xs else 40) if hi is None else hi
        acc = None
        for t in range(lo, hi):
            o = self.step(t, xs, mod)
            o = [v.detach().to(torch.float64).numpy().copy() for v in o]
            acc = [[] for _ in o] if acc is None else acc
            for a, v in zip(acc, o):
                n = len(self.shape)
                a.append(v.reshape((len(self.idx),) + v.shape[n:]) if v.shape[:n] == self.shape else v)
        return [np.stack(a) for a in acc]


def simple(name, L, nin, ctor, cfgs=()):
    def build(idx, shape, st, bt, keep):
        keep["m"] = ctor(st, bt)
        return lambda m, t, ins: m(*ins)
    return Unit(name, L, [()] * nin, build, cfgs=cfgs)


def make(name, rs, small=False, wide=False):
    """small: every counter fits the smallest counter type"""
    L = int(pick(rs, [6, 12, 24, 7, 1, 40]))
    deep = lambda few, many: int(pick(rs, few if small or rs.rand() < .4 else many))
    if name == "bi2uni":
        h = {"depth": deep([3, 4, 5], [2, 6, 8, 10])}
        return simple(name, L, 1, lambda st, bt: S.Bi2Uni(h, sw(st, bt)), [h])
    if name == "uni2bi":
        h = {"depth": deep([4, 5], [3, 6, 9])}
        return simple(name, L, 1, lambda st, bt: S.Uni2Bi(h, sw(st, bt)), [h])
    if name == "sync":
        h = {"depth": deep([1, 2, 3], [4, 5, 8])}
        return simple(name, L, 2, lambda st, bt: S.SkewedSync(h, sw(st, bt)), [h])
    if name == "shiftreg":
        h = {"entry": int(pick(rs, [1, 2, 5, 8, 256]))}
        return simple(name, L, 1, lambda st, bt: K.ShiftReg(h, {"stype": DT[st]}), [h])
    if name == "shiftreg_en":
        h = {"entry": int(pick(rs, [2, 4, 8]))}
        return simple(name, L, 2, lambda st, bt: K.ShiftReg(h, {"stype": DT[st]}), [h])
    if name == "jk":
        return simple(name, L, 2, lambda st, bt: K.JKFF({"stype": DT[st]}))
    if name in ("add_uni", "add_bi"):
        n = int(pick(rs, [1, 2, 3, 5, 9, 17]))
        wide = wide or not small and rs.rand() < .3
        if wide:        # more entries than the narrowest stream type can count
            n, L = int(pick(rs, [130, 200, 300])), int(pick(rs, [1, 3, 6]))
        front, ways = bool(rs.rand() < .4), rs.rand()
        h = {"mode": "unipolar" if name == "add_uni" else "bipolar", "scale": pick(rs, [None, 1, 2, n, n if small else 1.5]), "dima": 0 if front else -1,
             "depth": 6 if n < 9 else 7 if small else 9, "entry": n if ways < .3 else None}
        if not small and rs.rand() < .5:
            h["depth"] = int(pick(rs, [5, 8, 10, 12]))
        if wide:
            h["depth"] = int(pick(rs, [10, 12, 14]))
        kw = {"scale": pick(rs, [1, 2, n])} if ways > .75 else {"entry": n} if ways > .6 else {}
        again = bool(rs.rand() < .5)        # runtime values are taken by the first call; later calls may repeat them

        def build(idx, shape, st, bt, keep):
            keep["m"] = K.FSUAdd(h, sw(st, bt))
            if front:
                return lambda m, t, ins: m(ins[0].movedim(-1, 0).contiguous(), **(kw if t == 0 or again else {}))
            return lambda m, t, ins: m(*ins, **(kw if t == 0 or again else {}))
        return Unit(name, L, [(n,)], build, cfgs=[h])
    if name.startswith("mul_static"):
        ml = name.rsplit("_", 1)[1]
        w = int(pick(rs, [3, 4, 5, 2, 6, 8]))
        p = grid_values(rs, (L,), w, ml)
        pt = F(p.copy())
        h = {"width": w, "mode": ml, "static": True, "rng": pick(rs, ["Sobol", "rc", "tc", "RACE", "race10"] if ml == "unipolar" else ["Sobol", "rc", "sobol"]), "dimr": int(pick(rs, [1, 2, 3, 7, 12]))}

        def build(idx, shape, st, bt, keep):
            whole = np.array_equal(idx, np.arange(L)) and shape == (L,)
            keep["m"] = K.FSUMul(in_1_prob=pt if whole else F(p[idx].reshape(shape).copy()), hwcfg=h, swcfg=sw(st, bt))
            return lambda m, t, ins: m(*ins)
        return Unit(name, L, [()], build, cfgs=[h, pt])
    if name.startswith("mul_stream"):
        ml = name.rsplit("_", 1)[1]
        h = {"width": int(pick(rs, [2, 3, 5, 7, 8])), "mode": ml, "static": False, "rng": "Sobol", "dimr": int(pick(rs, [1, 2, 4]))}
        return simple(name, L, 2, lambda st, bt: K.FSUMul(None, h, sw(st, bt)), [h])
    if name == "cordiv":
        h = {"entry": int(pick(rs, [2, 4, 8, 16])), "rng": pick(rs, ["Sobol", "race", "tc10"]), "dimr": int(pick(rs, [1, 2, 4]))}
        return simple(name, L, 2, lambda st, bt: K.CORDIV_kernel(h, sw(st, bt)), [h])
    if name in ("div_uni", "div_bi"):
        h = {"depth_sa": deep([3], [2, 4, 5, 7]), "depth_ss": deep([2], [1, 3, 4]), "entry_kn": int(pick(rs, [2, 4, 8])), "mode": "unipolar" if name == "div_uni" else "bipolar", "rng": "Sobol", "dimr": 4}
        return simple(name, L, 2, lambda st, bt: K.FSUDiv(h, sw(st, bt)), [h])
    if name.startswith("sqrt"):
        _, mode, var = name.split("_")
        h = {"mode": "unipolar" if mode == "uni" else "bipolar", "jk_trace": var == "jk", "emit": var == "emit", "entry_kn": int(pick(rs, [1, 1, 2])), "entry_sr": int(pick(rs, [2, 4, 8])), "rng": pick(rs, ["Sobol", "Sobol", "race"]), "dimr": int(pick(rs, [4, 1, 2]))}
        return simple(name, L, 1, lambda st, bt: K.FSUSqrt(h, sw(st, bt)), [h])
    if name == "relu":
        h = {"depth": deep([2, 4, 6], [1, 3, 8, 10])}
        return simple(name, L, 1, lambda st, bt: K.FSUReLU(h, sw(st, bt)), [h])
    if name == "signabs":
        h = {"depth": deep([2, 3, 5], [1, 4, 6, 9])}
        return simple(name, L, 1, lambda st, bt: K.FSUSignAbs(h, sw(st, bt)), [h])
    if name == "hardsigmoid":
        h = {"mode": pick(rs, ["unipolar", "bipolar"]), "scale": 2, "dima": 0, "depth": 6, "entry": 2}
        return simple(name, L, 1, lambda st, bt: K.FSUHardsigmoid(h, sw(st, bt)), [h])
    if name == "hardtanh":
        return simple(name, L, 1, lambda st, bt: K.FSUHardtanh())
    if name == "bsgen":
        ml, w = pick(rs, ["unipolar", "bipolar"]), int(pick(rs, [3, 5, 2, 7]))
        v = grid_values(rs, (L,), w, ml)
        vt = F(v.copy())
        h, hr = {"width": w, "mode": ml}, {"width": w, "dimr": int(pick(rs, [1, 2, 5])), "rng": pick(rs, ["Sobol", "race", "tc10"])}

        def build(idx, shape, st, bt, keep):
            whole = np.array_equal(idx, np.arange(L)) and shape == (L,)
            b = S.BinGen(vt if whole else F(v[idx].reshape(shape).copy()), h, sw(st, bt))()
            keep["m"] = S.BSGen(b, S.RNG(hr, sw(st, bt))(), sw(st, bt))
            return lambda m, t, ins: m(torch.tensor([t]))
        return Unit(name, L, [], build, cfgs=[h, hr, vt])
    if name == "correlation":
        def build(idx, shape, st, bt, keep):
            keep["m"] = Correlation()

            def f(m, t, ins):
                m.Monitor(*ins)
                return m().clone()
            return f
        return Unit(name, L, [(), ()], build, metric=True)
    if name in ("progerror", "stability"):
        ml = pick(rs, ["unipolar", "bipolar"])
        v = grid_values(rs, (L,), 6, ml)
        vt = F(v.copy())
        h = {"scale": pick(rs, [1, 2, .5, 3]), "mode": ml, "threshold": float(pick(rs, [.07, .02, .3]))}

        def build(idx, shape, st, bt, keep):
            whole = np.array_equal(idx, np.arange(L)) and shape == (L,)
            src = vt if whole else F(v[idx].reshape(shape).copy())
            keep["m"] = (ProgError if name == "progerror" else Stability)(src, h)

            def f(m, t, ins):
                m.Monitor(*ins)
                o = m()
                return [q.detach().clone() for q in o] if isinstance(o, tuple) else o.detach().clone()
            return f
        return Unit(name, L, [()], build, metric=True, cfgs=[h, vt])
    L = int(pick(rs, [2, 4, 6, 1, 9]))
    if name.startswith("linear"):
        ml = "bipolar" if name == "linear_bi" else "unipolar"
        w, ni, no, bias = int(pick(rs, [3, 4, 2, 6, 8])), int(pick(rs, [1, 3, 6, 20])), int(pick(rs, [1, 2, 5, 12])), bool(rs.rand() < .5)
        W, B = F(grid_values(rs, (no, ni), w, ml)), F(grid_values(rs, (no,), w, ml)) if bias else None
        h = {"width": w, "mode": ml, "scale": pick(rs, [None, 1, 2, ni]), "depth": int(pick(rs, [8, 8, 6, 12])), "rng": "tc" if name == "linear_tc" else "Sobol", "dimr": int(pick(rs, [1, 2, 5]))}
        kw = {"scale": int(pick(rs, [1, 2, ni + bias]))} if rs.rand() < .25 and name != "linear_tc" else {}

        def build(idx, shape, st, bt, keep):
            keep["m"] = K.FSULinear(ni, no, bias=bias, weight_ext=W, bias_ext=B, hwcfg=h, swcfg=sw())
            return lambda m, t, ins: m(*ins, **(kw if t == 0 else {}))
        return Unit(name, L, [(ni,)], build, flat=True, f32=True, cfgs=[h, W] + ([B] if bias else []))
    if name.startswith("conv"):
        ml = "bipolar" if name == "conv_bi" else "unipolar"
        w, ci, co, bias = int(pick(rs, [3, 4, 2, 6])), int(pick(rs, [1, 2, 3])), int(pick(rs, [1, 3, 4])), bool(rs.rand() < .5)
        k = (int(rs.randint(1, 4)), int(rs.randint(1, 4)))
        W, B = F(grid_values(rs, (co, ci) + k, w, ml)), F(grid_values(rs, (co,), w, ml)) if bias else None
        h = {"width": w, "mode": ml, "scale": pick(rs, [None, 1, 3]), "depth": int(pick(rs, [8, 8, 6, 12])), "rng": "Sobol", "dimr": int(pick(rs, [1, 1, 3]))}
        d = int(pick(rs, [1, 1, 2])) if k[1] < 3 else 1
        kw = {"scale": int(pick(rs, [1, 2, ci]))} if rs.rand() < .25 else {}
        s, p = int(pick(rs, [1, 2])), (int(rs.randint(0, 2)), int(rs.randint(0, 2)))

        def build(idx, shape, st, bt, keep):
            keep["m"] = K.FSUConv2d(ci, co, k, stride=s, padding=p, dilation=(d if k[0] < 3 else 1, d), bias=bias, weight_ext=W, bias_ext=B, hwcfg=h, swcfg=sw())
            return lambda m, t, ins: m(*ins, **(kw if t == 0 else {}))
        return Unit(name, L, [(ci, 5, 4)], build, flat=True, f32=True, cfgs=[h, W] + ([B] if bias else []))
    if name == "mgu":
        w, ni, nh, bias = int(pick(rs, [3, 4, 2, 6])), int(pick(rs, [1, 3, 6])), int(pick(rs, [1, 2, 4])), bool(rs.rand() < .5)
        g = lambda *s: F(grid_values(rs, s, w, "bipolar"))
        Wf, Wn = g(nh, nh + ni), g(nh, nh + ni)
        Bf, Bn = (g(nh), g(nh)) if bias else (None, None)
        hx = grid_values(rs, (L, nh), w, "bipolar")
        hxt = F(hx.copy())
        h = {"width": w, "mode": "bipolar", "depth": int(pick(rs, [8, 8, 6, 10])), "depth_ismul": min(w, int(pick(rs, [3, 3, 2, 4]))), "rng": "Sobol", "dimr": int(pick(rs, [1, 1, 2]))}

        def build(idx, shape, st, bt, keep):
            whole = np.array_equal(idx, np.arange(L)) and shape == (L,)
            keep["m"] = K.FSUMGUCell(ni, nh, bias=bias, weight_ext_f=Wf, bias_ext_f=Bf, weight_ext_n=Wn, bias_ext_n=Bn,
                                     hx_buffer=hxt if whole else F(hx[idx].copy()), hwcfg=h, swcfg=sw())
            return lambda m, t, ins: m(*ins)
        return Unit(name, L, [(ni,), (nh,)], build, flat=True, f32=True, cfgs=[h, Wf, Wn, hxt] + ([Bf, Bn] if bias else []))
    raise ValueError(name)


BITS = ["bi2uni", "uni2bi", "sync", "shiftreg", "shiftreg_en", "jk", "add_uni", "add_bi", "mul_static_unipolar", "mul_static_bipolar",
        "mul_stream_unipolar", "mul_stream_bipolar", "cordiv", "div_uni", "div_bi", "sqrt_uni_emit", "sqrt_uni_jk", "sqrt_uni_cd",
        "sqrt_bi_emit", "sqrt_bi_jk", "sqrt_bi_cd", "relu", "signabs", "hardsigmoid", "hardtanh", "bsgen"]
METRICS = ["correlation", "progerror", "stability"]
LAYERS = ["linear_uni", "linear_bi", "linear_tc", "conv_uni", "conv_bi", "mgu"]
ALL = BITS + METRICS + LAYERS
BITLIKE = [n for n in BITS if n not in ("shiftreg", "shiftreg_en")] + LAYERS    # every output is a bit stream


class Bin:
    """A unit on binary values: new() builds a fresh module, input(rs) a fresh argument list, given = what the caller hands over."""
    def __init__(self, name, new, given, input, floats=False):
        self.name, self.new, self.given, self.input, self.floats = name, new, given, input, floats


BINARY = ["hub_lin", "hub_conv", "fxp_lin", "fxp_conv", "tlut_lin", "tlut_conv", "tlut_lin_mix", "tlut_conv_mix", "tlut_lin_fp", "tlut_conv_fp",
          "hubmgu", "hardmgu", "hardmgufxp", "raw", "hubrelu", "hubsigmoid", "hubtanh", "round"]
TRAINED = BINARY[:10]


def binary(name, rs):
    kinds = [k for k in hubref.KINDS if k not in ("zeros",)]
    g = lambda *s: F(hubref.data(rs, s, pick(rs, kinds)))
    w = int(rs.randint(3, 9))
    conv = "conv" in name
    bias = bool(rs.rand() < .7)
    if conv:
        ci, co, k = int(pick(rs, [1, 2, 3])), int(pick(rs, [1, 3, 4])), (int(rs.randint(1, 4)), int(rs.randint(1, 4)))
        W, args = g(co, ci, *k), (ci, co, k)
        geo = dict(stride=int(pick(rs, [1, 2])), padding=(int(rs.randint(0, 2)), int(rs.randint(0, 2))), dilation=int(pick(rs, [1, 1, 2])))
        hw_ = (int(rs.randint(5, 9)), int(rs.randint(5, 9)))
        inp = lambda r, n=None: [F(hubref.data(r, (n or int(r.randint(1, 4)), ci) + hw_, pick(r, hubref.KINDS)))]
    else:
        ni, no = int(pick(rs, [1, 5, 9])), int(pick(rs, [1, 3, 7]))
        W, args, geo, co = g(no, ni), (ni, no), {}, no
        inp = lambda r, n=None: [F(hubref.data(r, (n or int(r.randint(1, 7)), ni), pick(r, hubref.KINDS)))]
    B = g(co) if bias else None
    kw = dict(bias=bias, weight_ext=W, bias_ext=B, **geo)
    wb = [W] + ([B] if bias else [])

    def layer(cl, h):
        return Bin(name, lambda: cl(*args, hwcfg=h, **kw), [h] + wb, inp)
    q = lambda: float(pick(rs, [1, 1, .9, .5]))
    rnd = pick(rs, ["round", "floor", "ceil", "Ceil", "ROUND"])
    if name.startswith("hub_"):
        ri, rw = pick(rs, [("Sobol", "Sobol"), ("race", "sobol"), ("Sobol", "tc"), ("RC", "Race")])
        h = {"widthi": w, "rngi": ri, "quantilei": q(), "widthw": w, "rngw": rw, "quantilew": q(), "cycle": pick(rs, [None, 10, 500, 1]), "rounding": rnd, "signmag": True}
        return layer(K.HUBConv2d if conv else K.HUBLinear, h)
    if name.startswith("fxp_"):
        h = {"widthi": w, "quantilei": q(), "widthw": int(rs.randint(3, 9)), "quantilew": q(), "rounding": rnd}
        return layer(K.FXPConv2d if conv else K.FXPLinear, h)
    if name.startswith("tlut_"):
        fp = ["bfloat16", "float16", "float32", "Float32"]
        fi, fw = ("FXP", "fxp") if name in ("tlut_lin", "tlut_conv") else (pick(rs, fp), pick(rs, fp)) if name.endswith("fp") else pick(rs, [("fxp", pick(rs, fp)), (pick(rs, fp), "fxp")])
        h = {"temporal": pick(rs, ["I", "w", "weight", "input"]), "widtht": int(rs.randint(1, 6)), "formati": fi, "widthi": w, "quantilei": q(), "formatw": fw,
             "widthw": int(rs.randint(3, 9)), "quantilew": q(), "cycle": pick(rs, [None, 3, 100]), "rounding": rnd, "signmag": True}
        return layer(K.TLUTConv2d if conv else K.TLUTLinear, h)
    if name == "hubmgu":
        mw, ni, nh = int(pick(rs, [2, 3, 4])), int(pick(rs, [1, 3])), int(pick(rs, [1, 2]))
        h = {"width": mw, "mode": pick(rs, ["BiPolar", "bipolar"]), "depth": 8, "depth_ismul": 3, "rng": "Sobol", "dimr": 1}
        gq = lambda *s: F(grid_values(rs, s, mw, "bipolar"))
        a = [gq(nh, nh + ni), gq(nh) if bias else None, gq(nh, nh + ni), gq(nh) if bias else None]

        def inp2(r, n=None):
            n = n or int(r.randint(1, 4))
            return [F(grid_values(r, (n, ni), mw, "bipolar")), F(grid_values(r, (n, nh), mw, "bipolar")) if r.rand() < .8 else None]
        return Bin(name, lambda: rnn.HUBMGUCell(ni, nh, bias, *a, hwcfg=h), [h] + [v for v in a if v is not None], inp2)
    if name in ("hardmgu", "hardmgufxp"):
        ni, nh, hard, seed = int(pick(rs, [1, 3])), int(pick(rs, [1, 4])), bool(rs.rand() < .5), int(rs.randint(1 << 30))

        def new():
            keep = torch.get_rng_state()
            torch.manual_seed(seed)
            try:
                if name == "hardmgu":
                    return rnn.HardMGUCell(ni, nh, bias=bias, hard=hard)
                return rnn.HardMGUCellFXP(ni, nh, bias=bias, hard=hard, intwidth=2, fracwidth=5)
            finally:
                torch.set_rng_state(keep)

        def inp3(r, n=None):
            n = n or int(r.randint(1, 5))
            return [F(r.randn(n, ni).astype(np.float32)), F(r.uniform(-1, 1, (n, nh)).astype(np.float32)) if r.rand() < .8 else None]
        return Bin(name, new, [], inp3, floats=name == "hardmgufxp")
    if name == "raw":
        h = {"quantile": q()}
        return Bin(name, lambda: S.RawScale(h), [h], inp)
    if name == "round":
        iw, fw = int(rs.randint(0, 5)), int(rs.randint(0, 6))
        return Bin(name, lambda: utils.Round(iw, fw), [], inp, floats=True)
    return Bin(name, {"hubrelu": K.HUBReLU, "hubsigmoid": K.HUBHardsigmoid, "hubtanh": K.HUBHardtanh}[name], [], inp)


def snapshot(cfgs):
    return [c.clone() if isinstance(c, torch.Tensor) else dict(c) for c in cfgs]


def same(a, b):
    return torch.equal(a, b) if isinstance(a, torch.Tensor) else (list(a.items()) == list(b.items()))
