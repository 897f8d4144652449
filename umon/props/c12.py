"""End-to-end accuracy: decoded result of a full-length computation against the exact operation."""
import numpy as np
import torch
import torch.nn.functional as F
from UnarySim.stream import RNG, BinGen, BSGen
from UnarySim.kernel import FSUMul, FSUAdd, FSUDiv, FSUSqrt, FSUReLU, FSULinear, FSUConv2d, FSUHardsigmoid, FSUSignAbs
from UnarySim.metric.metric import ProgError
from .. import spec, stim
from ..util import rs_of, pick, sw, grid_values, both

ID = "C12"
RULE = ("one case = one operation, polarity and width over a whole grid of operand values, run for a full period with rate-coded (Sobol) or "
        "temporal operands, decoded by counting and by the library's own progressive-error metric; non-trivial always (hundreds of operand "
        "pairs); the root-mean-square and the largest error of the grid are judged against fixed limits; in the cases called 'law' one operation of "
        "random configuration runs one to three periods on generated operands, and the decoded value of every lane is compared with the one the operation's "
        "law yields, at the end of every period")
ASSUMPTIONS = ["operands are generated as the documentation recommends (independent generator dimensions, the divisor not below one half, roots of "
               "0.05 or more)", "limits are about 1.5 times the error of the unmodified library (measured over 40 seeds)"]
# operation/mode: {width: (rms limit, max limit)}
LIMITS = {'mul_static/unipolar': {5: (0.0279, 0.0853), 6: (0.0151, 0.043), 7: (0.0084, 0.026), 8: (0.0044, 0.0147), 9: (0.0021, 0.0062)},
          'mul_static/bipolar': {5: (0.092, 0.2728), 6: (0.0496, 0.1467), 7: (0.0282, 0.0856), 8: (0.0156, 0.0492), 9: (0.0076, 0.0248)},
          'mul_stream/unipolar': {5: (0.0645, 0.2258), 6: (0.0361, 0.1443), 7: (0.0275, 0.1001), 8: (0.0209, 0.0656), 9: (0.0174, 0.0577)},
          'mul_stream/bipolar': {5: (0.1604, 0.5427), 6: (0.0893, 0.3266), 7: (0.0648, 0.2307), 8: (0.0449, 0.136), 9: (0.0352, 0.1185)},
          'add/unipolar': {5: (0.0278, 0.0574), 6: (0.014, 0.0293), 7: (0.0069, 0.0147), 8: (0.0032, 0.0078), 9: (0.0016, 0.0035)},
          'add/bipolar': {5: (0.0556, 0.1148), 6: (0.0281, 0.0586), 7: (0.0137, 0.0294), 8: (0.0064, 0.0155), 9: (0.0032, 0.007)},
          'add_nonscaled/unipolar': {5: (0.2027, 0.3991), 6: (0.135, 0.2293), 7: (0.0754, 0.1149), 8: (0.0396, 0.0584), 9: (0.0207, 0.0288)},
          'add_nonscaled/bipolar': {5: (0.2487, 0.7), 6: (0.1482, 0.4086), 7: (0.0855, 0.2408), 8: (0.0456, 0.125), 9: (0.024, 0.0625)},
          'div/unipolar': {5: (0.0563, 0.1932), 6: (0.0484, 0.1556), 7: (0.0446, 0.1445), 8: (0.0441, 0.1368), 9: (0.0426, 0.1305)},
          'div/bipolar': {5: (0.2899, 1.4462), 6: (0.2443, 1.5239), 7: (0.2164, 1.5629), 8: (0.2161, 1.5368), 9: (0.2057, 1.3069)},
          'sqrt_insert/unipolar': {5: (0.1004, 0.3466), 6: (0.0789, 0.2741), 7: (0.0693, 0.2372), 8: (0.0644, 0.2186), 9: (0.0613, 0.2047)},
          'sqrt_insert/bipolar': {5: (0.1228, 0.3324), 6: (0.1044, 0.3), 7: (0.0955, 0.3003), 8: (0.0884, 0.3746), 9: (0.0781, 0.4117)},
          'sqrt_jk/unipolar': {5: (0.2057, 0.3744), 6: (0.2188, 0.3873), 7: (0.225, 0.3936), 8: (0.2282, 0.3967), 9: (0.23, 0.3984)},
          'sqrt_jk/bipolar': {5: (0.16, 0.4422), 6: (0.1573, 0.4922), 7: (0.1545, 0.4922), 8: (0.1539, 0.4797), 9: (0.154, 0.4779)},
          'sqrt_cd/unipolar': {5: (0.0805, 0.2289), 6: (0.0994, 0.2439), 7: (0.1097, 0.2563), 8: (0.1152, 0.2617), 9: (0.1177, 0.264)},
          'sqrt_cd/bipolar': {5: (0.16, 0.4422), 6: (0.1573, 0.4922), 7: (0.1545, 0.4922), 8: (0.1539, 0.4797), 9: (0.154, 0.4779)},
          'relu/bipolar': {5: (0.0195, 0.05), 6: (0.0101, 0.025), 7: (0.0052, 0.0125), 8: (0.0026, 0.0062), 9: (0.0013, 0.0031)},
          'abs/bipolar': {5: (0.1659, 0.7998), 6: (0.132, 0.7998), 7: (0.101, 0.7998), 8: (0.0791, 0.7998), 9: (0.0695, 0.7992)},
          'hardsigmoid/unipolar': {5: (0.018, 0.0375), 6: (0.009, 0.0187), 7: (0.0046, 0.0094), 8: (0.0025, 0.0047), 9: (0.0012, 0.0023)},
          'hardsigmoid/bipolar': {5: (0.036, 0.075), 6: (0.0181, 0.0375), 7: (0.0091, 0.0187), 8: (0.0049, 0.0094), 9: (0.0024, 0.0047)},
          'linear_scaled/unipolar': {5: (0.0249, 0.0595), 6: (0.0124, 0.0291), 7: (0.0062, 0.0158), 8: (0.0036, 0.0082), 9: (0.0015, 0.0037)},
          'linear_scaled/bipolar': {5: (0.0659, 0.14), 6: (0.0308, 0.0778), 7: (0.0161, 0.0412), 8: (0.0088, 0.0204), 9: (0.0042, 0.0111)},
          'linear_nonscaled/unipolar': {5: (0.1909, 0.4539), 6: (0.0875, 0.2205), 7: (0.0457, 0.1191), 8: (0.0245, 0.0647), 9: (0.0106, 0.0321)},
          'linear_nonscaled/bipolar': {5: (0.3157, 0.9739), 6: (0.1538, 0.5105), 7: (0.0954, 0.2706), 8: (0.054, 0.1702), 9: (0.0285, 0.088)},
          'conv_scaled/unipolar': {5: (0.0253, 0.0589), 6: (0.0144, 0.0332), 7: (0.0068, 0.0151), 8: (0.0034, 0.0075), 9: (0.0017, 0.0039)},
          'conv_scaled/bipolar': {5: (0.0663, 0.1542), 6: (0.0327, 0.0829), 7: (0.016, 0.0413), 8: (0.0079, 0.0227), 9: (0.0041, 0.0105)}}


def cases(tier, seed):
    reps = 2 if tier == "quick" else 12
    out = []
    for op in OPS:
        for mode in OPS[op][1]:
            for w in ([6, 8] if tier == "quick" else [5, 6, 7, 8, 9]):
                for r in range(reps):
                    out.append({"op": op, "mode": mode, "w": w, "rep": r, "cost": 2 ** w / 64})
    rs = np.random.RandomState(seed + 12)
    for rep in range(60 if tier == "quick" else 500):
        for op in LAWS:
            w = int(pick(rs, [2, 3, 4, 5, 6, 6, 7, 8, 8, 9, 10]))
            periods = int(pick(rs, [1, 1, 2, 3]))
            if op in ("linear", "conv"):
                w, periods = min(w, 8), min(periods, 1 if w > 7 else 2)
            out.append({"k": "law", "op": op, "mode": pick(rs, ["unipolar", "bipolar"]), "w": w, "periods": periods, "rep": rep, "cost": 2 ** w * periods / 64})
    return out


KINDS = ["sobol", "Sobol", "rc", "RC", "race", "tc", "race10", "TC10"]


def law_types(rs, *kind):
    """number types of the streams and counters"""
    return pick(rs, [("f32", "f32"), ("f32", "f32"), ("f64", "f64"), ("i16", "i32"), ("f32", "f64"), ("i32", "i32")])


def law_mul_static(rs, mode, w, kind):
    from ..util import DT
    shape = pick(rs, [(1,), (37,), (4, 9), (2, 3, 5)])
    v = grid_values(rs, shape, w, mode)
    wk = pick(rs, KINDS)
    dim = int(pick(rs, [1, 2, 3, 6]))
    st, bt = law_types(rs)
    m = FSUMul(torch.from_numpy(v.copy()), {"width": w, "mode": mode, "static": True, "rng": wk, "dimr": dim}, sw(st, bt))
    return m, spec.MulStatic(spec.to_int(v, w, mode), stim.rng_seq(wk.lower(), w, dim), mode), [shape], st


def law_mul_stream(rs, mode, w, kind):
    shape = pick(rs, [(1,), (37,), (4, 9)])
    h = int(rs.randint(1, 8))
    wk, dim = pick(rs, KINDS), int(pick(rs, [1, 2, 5]))
    st, bt = law_types(rs)
    m = FSUMul(None, {"width": h, "mode": mode, "static": False, "rng": wk, "dimr": dim}, sw(st, bt))
    return m, spec.MulStream(stim.rng_seq(wk.lower(), h, dim), mode), [shape, shape], st


def law_add(rs, mode, w, kind):
    shape = list(pick(rs, [(8,), (3, 5), (2, 3, 4), (30, 2)]))
    dim = int(rs.randint(len(shape)))
    shape[dim] = n = int(pick(rs, [1, 2, 3, 4, 8, 17, 40, 130]))
    scale = pick(rs, [None, n, 1, 2, 1.5, .5, n / 2 + .25])
    depth = int(pick(rs, [8, 10, 12, 14]))
    st, bt = law_types(rs)
    if n > 60:
        depth = 14
    m = FSUAdd({"mode": mode, "scale": scale, "dima": pick(rs, [dim, dim - len(shape)]), "depth": depth, "entry": pick(rs, [None, n])}, sw(st, bt if bt[0] == "f" else "f32"))
    a = spec.Add(mode, n if scale is None else scale, n, depth)

    class Ref:
        def step(self, x):
            return np.atleast_1d(a.step(x.astype(np.int64).sum(dim)))
    return m, Ref(), [tuple(shape)], st


def law_div(rs, mode, w, kind):
    shape = pick(rs, [(1,), (29,), (5, 6)])
    e, sa, ss = int(pick(rs, [1, 2, 4, 8])), int(rs.randint(2, 7)), int(rs.randint(1, 6))
    wk, dim = pick(rs, ["Sobol", "sobol", "rc", "race"]), int(pick(rs, [1, 2, 4]))
    st, bt = law_types(rs)
    m = FSUDiv({"depth_sa": sa, "depth_ss": ss, "entry_kn": e, "mode": mode, "rng": wk, "dimr": dim}, sw(st, bt))
    return m, spec.Div(mode, sa, ss, e, stim.rng_seq(wk.lower(), int(np.log2(e)), dim)), [shape, shape], st


def law_sqrt(rs, mode, w, kind):
    shape = pick(rs, [(1,), (29,), (5, 6)])
    emit, jk, sr = bool(rs.rand() < .4), bool(rs.rand() < .5), int(pick(rs, [1, 2, 4, 8]))
    st, bt = law_types(rs)
    wk = pick(rs, ["Sobol", "rc", "race"])
    m = FSUSqrt({"mode": mode, "jk_trace": jk, "emit": emit, "entry_kn": 1, "entry_sr": sr, "rng": wk, "dimr": int(pick(rs, [1, 4]))}, sw(st, bt))
    return m, spec.Sqrt(mode, emit, jk, sr, stim.rng_seq(wk.lower(), 2, 4)), [shape], st


def law_relu(rs, mode, w, kind):
    d = int(rs.randint(2, 11))
    st, bt = law_types(rs)
    return FSUReLU({"depth": d}, sw(st, bt)), spec.ReLU(d), [pick(rs, [(1,), (40,), (3, 4, 5)])], st


def law_abs(rs, mode, w, kind):
    d = int(rs.randint(2, 11))
    st, bt = law_types(rs)
    a = spec.SignAbs(d)

    class Ref:
        def step(self, x):
            return a.step(x)[1]
    m = FSUSignAbs({"depth": d}, sw(st, bt))
    return lambda x: m(x)[1], Ref(), [pick(rs, [(1,), (40,), (3, 4, 5)])], st


def law_hardsigmoid(rs, mode, w, kind):
    d = int(pick(rs, [6, 8, 10]))
    st, bt = law_types(rs)
    a = spec.Add(mode, 2, 2, d)

    class Ref:
        def step(self, x):
            return a.step(x.astype(np.int64) + 1)
    return FSUHardsigmoid({"mode": mode, "scale": 2, "dima": 0, "depth": d, "entry": 2}, sw(st, bt)), Ref(), [pick(rs, [(1,), (40,), (3, 4, 5)])], st


def law_weights(rs, mode, n_in, bias):
    wk = pick(rs, KINDS)
    temporal = wk.lower() in ("race", "tc", "race10", "tc10")
    scale = pick(rs, [None, None, 1, 2, n_in + bias, 1.5])
    if temporal and mode == "bipolar":
        scale = None
    return wk, temporal, scale, int(pick(rs, [1, 1, 2, 5])), int(pick(rs, [10, 12, 14]))


def law_linear(rs, mode, w, kind):
    n, o, b, bias = int(pick(rs, [1, 2, 7, 16, 40])), int(pick(rs, [1, 3, 9])), int(pick(rs, [1, 2, 6])), bool(rs.rand() < .5)
    wk, temporal, scale, dim, depth = law_weights(rs, mode, n, bias)
    W, B = grid_values(rs, (o, n), w, mode), grid_values(rs, (o,), w, mode) if bias else None
    m = FSULinear(n, o, bias=bias, weight_ext=torch.from_numpy(W.copy()), bias_ext=None if B is None else torch.from_numpy(B.copy()),
                  hwcfg={"width": w, "mode": mode, "scale": scale, "depth": depth, "rng": wk, "dimr": dim}, swcfg=sw())
    pc = spec.LinearPC(spec.to_int(W, w, mode), None if B is None else spec.to_int(B, w, mode), stim.rng_seq(wk.lower(), w, dim), mode, temporal)
    a = spec.Add(mode, n + bias if scale is None else scale, n + bias, depth)

    class Ref:
        def step(self, x):
            return a.step(pc.step(x))
    return m, Ref(), [(b, n)], "f32"


def law_conv(rs, mode, w, kind):
    k, s, p, d = (int(pick(rs, [1, 2, 3])), int(pick(rs, [1, 2, 3]))), (int(pick(rs, [1, 1, 2])), int(pick(rs, [1, 2]))), (int(pick(rs, [0, 1])), int(pick(rs, [0, 1, 2]))), (int(pick(rs, [1, 1, 2])),) * 2
    ci, co, b, bias = int(pick(rs, [1, 2])), int(pick(rs, [1, 3])), int(pick(rs, [1, 2])), bool(rs.rand() < .5)
    n = k[0] * k[1] * ci
    wk, temporal, scale, dim, depth = law_weights(rs, mode, n, bias)
    W, B = grid_values(rs, (co, ci) + k, w, mode), grid_values(rs, (co,), w, mode) if bias else None
    m = FSUConv2d(ci, co, k, stride=s, padding=p, dilation=d, bias=bias, weight_ext=torch.from_numpy(W.copy()), bias_ext=None if B is None else torch.from_numpy(B.copy()),
                  hwcfg={"width": w, "mode": mode, "scale": scale, "depth": depth, "rng": wk, "dimr": dim}, swcfg=sw())
    pc = spec.LinearPC(spec.to_int(W, w, mode).reshape(co, -1), None if B is None else spec.to_int(B, w, mode), stim.rng_seq(wk.lower(), w, dim), mode, temporal)
    a = spec.Add(mode, n + bias if scale is None else scale, n + bias, depth)

    class Ref:
        t = 0

        def step(self, x):
            cols, (oh, ow) = spec.unfold(x.astype(np.int64), k, s, p, d, self.t % 2 if mode == "bipolar" else 0)
            self.t += 1
            return a.step(pc.step(cols).reshape(x.shape[0], oh, ow, co).transpose(0, 3, 1, 2))
    return m, Ref(), [(b, ci, int(rs.randint(5, 8)), int(rs.randint(5, 8)))], "f32"


LAWS = {"mul_static": law_mul_static, "mul_stream": law_mul_stream, "add": law_add, "div": law_div, "sqrt": law_sqrt, "relu": law_relu, "abs": law_abs,
        "hardsigmoid": law_hardsigmoid, "linear": law_linear, "conv": law_conv}


def law(c, ctx):
    """one operation of random configuration on generated operands: the decoded value after every period is the law's"""
    rs = rs_of(c)
    mode, w, N = c["mode"], c["w"], 1 << c["w"]
    m, ref, shapes, st = LAWS[c["op"]](rs, mode, w, None)
    gens, seqs = [], []
    src = pick(rs, ["independent", "independent", "same", "temporal"])
    for i, shape in enumerate(shapes):
        v = grid_values(rs, shape, w, mode)
        if rs.rand() < .2:
            v = np.where(rs.rand(*shape) < .5, v, pick(rs, [0, 1] if mode == "unipolar" else [-1, 0, 1])).astype(np.float32)
        kind = pick(rs, ["race", "tc", "race10", "tc10"]) if src == "temporal" and i == len(shapes) - 1 else pick(rs, ["Sobol", "rc"])
        dim = 1 if src == "same" else int(rs.randint(1, 6))
        h = {"width": w, "mode": mode, "dimr": dim, "rng": kind}
        gens.append(BSGen(BinGen(torch.from_numpy(v.copy()), h, sw())(), RNG(h, sw())(), sw(st)))
        seqs.append((spec.to_int(v, w, mode), stim.rng_seq(kind.lower(), w, dim)))
    pe, ones, want = None, 0, 0
    for t in range(N * c["periods"]):
        o = m(*[g(torch.tensor([t])) for g in gens])
        y = np.asarray(ref.step(*[(b > q[t % N]).astype(np.int64) for b, q in seqs]))
        ctx.event()
        if pe is None:
            scale = pick(rs, [1, 1, 2, .5])
            source = torch.from_numpy(np.asarray(rs.rand(*y.shape) * 2 - 1, np.float32))
            pe = ProgError(source, {"scale": scale, "mode": mode})
        pe.Monitor(o)
        ones, want = ones + ctx.num(o).astype(np.float64), want + y
        if (t + 1) % N == 0 or t == N // 2:
            ctx.eq(ones, want, "ones counted in the result of %s" % c["op"], cycles=t + 1, mode=mode, width=w, operands=src)
            v = ones / (t + 1)
            v = 2 * v - 1 if mode == "bipolar" else v
            pp, err = pe()
            ctx.close(pp, v, 1e-6, "the metric's value is the count")
            ctx.close(err, v - np.clip(source.numpy().astype(np.float64) / scale, -1, 1), 2e-6, "the metric's error is the decoded value minus its source")
    if both(want > 0) or np.unique(want).size > 2 or 0 < int(want.reshape(-1)[0]) < N * c["periods"]:
        ctx.mark("law", c["op"], mode, w, want.reshape(-1)[:32])
    ctx.note("law " + c["op"])
    ctx.sample = {"op": c["op"], "periods": c["periods"], "decoded": v.reshape(-1)[:4].tolist()}


def stream(v, w, mode, dim, rng="Sobol"):
    s = sw()
    h = {"width": w, "mode": mode, "dimr": dim, "rng": rng}
    return BSGen(BinGen(torch.from_numpy(np.ascontiguousarray(v, np.float32)), h, s)(), RNG(h, s)(), s)


def decode(ctx, T, step, mode, exact, scale=1):
    """run T cycles; the value by counting, checked against the library's own metric"""
    pe = ProgError(torch.from_numpy(np.asarray(exact, np.float32)), {"scale": scale, "mode": mode})
    ones = 0
    for t in range(T):
        o = step(torch.tensor([t]))
        pe.Monitor(o)
        ones = ones + ctx.num(o).astype(np.float64)
    ctx.event(T)
    v = ones / T
    if mode == "bipolar":
        v = 2 * v - 1
    pp, err = pe()
    ctx.close(pp, v, 1e-6, "the metric's value is the count")
    return v


def grid(rs, n, mode, lo=None):
    v = (np.arange(n) + rs.rand(n)) / n
    if mode == "bipolar":
        v = 2 * v - 1
    if lo is not None:
        v = lo + (1 - lo) * (np.arange(n) + rs.rand(n)) / n
    return v


def pairs(rs, mode, n=16):
    a, b = np.meshgrid(grid(rs, n, mode), grid(rs, n, mode))
    return a.reshape(-1), b.reshape(-1)


def op_mul_static(ctx, rs, mode, w):
    a, b = pairs(rs, mode)
    m = FSUMul(torch.from_numpy(b.astype(np.float32)), {"width": w, "mode": mode, "static": True, "rng": "Sobol", "dimr": 1}, sw())
    s = stream(a, w, mode, int(pick(rs, [1, 2, 3])))
    return decode(ctx, 2 ** w, lambda t: m(s(t)), mode, a * b), a * b


def op_mul_stream(ctx, rs, mode, w):
    a, b = pairs(rs, mode)
    m = FSUMul(None, {"width": max(3, w - 3), "mode": mode, "static": False, "rng": "Sobol", "dimr": 1}, sw())
    s, u = stream(a, w, mode, 1), stream(b, w, mode, 2)
    return decode(ctx, 2 ** w, lambda t: m(s(t), u(t)), mode, a * b), a * b


def op_add(ctx, rs, mode, w):
    n = int(pick(rs, [2, 4, 8]))
    v = np.stack([rs.permutation(grid(rs, 100, mode)) for _ in range(n)])
    m = FSUAdd({"mode": mode, "scale": None, "dima": 0, "depth": 12, "entry": None}, sw())
    s = stream(v, w, mode, 1)
    return decode(ctx, 2 ** w, lambda t: m(s(t)), mode, v.mean(0)), v.mean(0)


def op_add_nonscaled(ctx, rs, mode, w):
    n = int(pick(rs, [2, 4, 8]))
    v = np.stack([rs.permutation(grid(rs, 100, mode)) for _ in range(n)]) / (n if mode == "unipolar" else n / 2)
    lo = 0 if mode == "unipolar" else -1
    m = FSUAdd({"mode": mode, "scale": 1, "dima": 0, "depth": 12, "entry": None}, sw())
    s = stream(v, w, mode, 1)
    ex = np.clip(v.sum(0), lo, 1)
    return decode(ctx, 2 ** w, lambda t: m(s(t)), mode, ex), ex


def op_div(ctx, rs, mode, w):
    b = grid(rs, 16, mode, .5)
    a, b = np.meshgrid((np.arange(16) + rs.rand(16)) / 16, b)
    a, b = (a * b).reshape(-1), b.reshape(-1)
    if mode == "bipolar":
        a, b = a * rs.choice([-1, 1], a.shape), b * rs.choice([-1, 1], b.shape)
    m = FSUDiv({"depth_sa": 4, "depth_ss": 4, "entry_kn": 4, "mode": mode, "rng": "Sobol", "dimr": 4}, sw())
    s, u = stream(a, w, mode, 1), stream(b, w, mode, 1)
    return decode(ctx, 2 ** w, lambda t: m(s(t), u(t)), mode, a / b), a / b


def sqrt(emit, jk):
    def f(ctx, rs, mode, w):
        v = grid(rs, 200, mode, .05)
        m = FSUSqrt({"mode": mode, "jk_trace": jk, "emit": emit, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 4}, sw())
        s = stream(v, w, mode, 1)
        return decode(ctx, 2 ** w, lambda t: m(s(t)), mode, np.sqrt(v)), np.sqrt(v)
    return f


def op_relu(ctx, rs, mode, w):
    v = grid(rs, 256, mode)
    m = FSUReLU({"depth": 6}, sw())
    s = stream(v, w, mode, int(pick(rs, [1, 2, 3])))
    return decode(ctx, 2 ** w, lambda t: m(s(t)), mode, np.maximum(v, 0)), np.maximum(v, 0)


def op_abs(ctx, rs, mode, w):
    v = grid(rs, 256, mode)
    m = FSUSignAbs({"depth": 5}, sw())
    s = stream(v, w, mode, int(pick(rs, [1, 2, 3])))
    return decode(ctx, 2 ** w, lambda t: m(s(t))[1], mode, np.abs(v)), np.abs(v)


def op_hardsigmoid(ctx, rs, mode, w):
    v = grid(rs, 256, mode)
    m = FSUHardsigmoid({"mode": mode, "scale": 2, "dima": 0, "depth": 8, "entry": 2}, sw())
    s = stream(v, w, mode, int(pick(rs, [1, 2, 3])))
    return decode(ctx, 2 ** w, lambda t: m(s(t)), mode, (v + 1) / 2), (v + 1) / 2


def dense(scaled):
    def f(ctx, rs, mode, w):
        n, o, b, bias = 16, 12, 10, bool(rs.rand() < .5)
        g = lambda *s: (rs.rand(*s) * 2 - 1 if mode == "bipolar" else rs.rand(*s)).astype(np.float32)
        k = 1 if scaled else (.1 if mode == "unipolar" else .4)
        W, B, X = g(o, n) * np.float32(k), (g(o) * np.float32(k) if bias else None), g(b, n)
        m = FSULinear(n, o, bias=bias, weight_ext=torch.from_numpy(W.copy()), bias_ext=None if B is None else torch.from_numpy(B.copy()),
                      hwcfg={"width": w, "mode": mode, "scale": None if scaled else 1, "depth": 14, "rng": "Sobol", "dimr": 1}, swcfg=sw())
        s = stream(X, w, mode, 2)
        ex = X @ W.T + (0 if B is None else B)
        ex = ex / (n + bias) if scaled else np.clip(ex, -1 if mode == "bipolar" else 0, 1)
        return decode(ctx, 2 ** w, lambda t: m(s(t)), mode, ex), ex
    return f


def op_conv(ctx, rs, mode, w):
    g = lambda *s: (rs.rand(*s) * 2 - 1 if mode == "bipolar" else rs.rand(*s)).astype(np.float32)
    W, X = g(3, 2, 3, 3), g(2, 2, 6, 6)
    pad = int(pick(rs, [0, 1]))
    m = FSUConv2d(2, 3, 3, stride=1, padding=pad, bias=False, weight_ext=torch.from_numpy(W.copy()),
                  hwcfg={"width": w, "mode": mode, "scale": None, "depth": 14, "rng": "Sobol", "dimr": 1}, swcfg=sw())
    s = stream(X, w, mode, 2)
    ex = F.conv2d(torch.from_numpy(X), torch.from_numpy(W), padding=pad).numpy() / 18
    return decode(ctx, 2 ** w, lambda t: m(s(t)), mode, ex), ex


UB, U, Bp = ["unipolar", "bipolar"], ["unipolar"], ["bipolar"]
OPS = {"mul_static": (op_mul_static, UB), "mul_stream": (op_mul_stream, UB), "add": (op_add, UB), "add_nonscaled": (op_add_nonscaled, UB), "div": (op_div, UB),
       "sqrt_insert": (sqrt(True, False), UB), "sqrt_jk": (sqrt(False, True), UB), "sqrt_cd": (sqrt(False, False), UB),
       "relu": (op_relu, Bp), "abs": (op_abs, Bp), "hardsigmoid": (op_hardsigmoid, UB), "linear_scaled": (dense(True), UB), "linear_nonscaled": (dense(False), UB),
       "conv_scaled": (op_conv, UB)}


def measure(ctx, c):
    rs = rs_of(c)
    got, want = OPS[c["op"]][0](ctx, rs, c["mode"], c["w"])
    e = got - want
    return float(np.sqrt((e ** 2).mean())), float(np.abs(e).max()), got, want


def run(c, ctx):
    if c.get("k") == "law":
        return law(c, ctx)
    rms, mx, got, want = measure(ctx, c)
    lim = LIMITS["%s/%s" % (c["op"], c["mode"])][c["w"]]
    ctx.values += got.size
    ctx.check(rms <= lim[0], "root-mean-square error of %s" % c["op"], rms=rms, limit=lim[0], mode=c["mode"], width=c["w"])
    ctx.check(mx <= lim[1], "largest error of %s" % c["op"], max=mx, limit=lim[1], mode=c["mode"], width=c["w"])
    ctx.mark(c["op"], c["mode"], c["w"], got)
    ctx.sample = {"op": c["op"], "operands": int(got.size), "rms": rms, "max": mx}
