"""Nothing the caller owns is modified."""
import contextlib
import copy
import inspect
import numpy as np
import torch
import UnarySim.kernel as K
import UnarySim.stream as S
import UnarySim.metric.metric as M
from UnarySim.kernel import rnn, utils
from .. import zoo, hubref
from ..capture import float_shifts
from ..util import rs_of, pick, grid_values, DT

ID = "C32"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one unit or layer built and run with watched arguments: configuration dictionaries, external weights and sources, every "
        "input tensor of every cycle, and the default configurations of all classes; non-trivial when the run took at least one cycle; every "
        "watched object is compared with its copy")
ASSUMPTIONS = ["the in-place option of the binary activations is off"]
BIN = zoo.BINARY + ["metric_report", "generators", "helpers", "defaults"]


def cases(tier, seed):
    n = 9 if tier == "quick" else 45
    return [{"unit": u, "rep": r} for u in zoo.ALL + BIN for r in range(n)]


def defaults():
    """(where, default object) of every constructor argument that is a dict"""
    out = []
    for mod in (K, S, M, rnn):
        for n, cl in vars(mod).items():
            if inspect.isclass(cl) and cl.__module__.startswith("UnarySim"):
                try:
                    sig = inspect.signature(cl.__init__)
                except (TypeError, ValueError):
                    continue
                out += [("%s(%s)" % (n, p.name), p.default) for p in sig.parameters.values() if isinstance(p.default, dict)]
    return out


def run(c, ctx):
    # Round lacks float shift operators on current PyTorch (known finding of C24)
    with float_shifts() if c["unit"] in ("round", "hardmgufxp") else contextlib.nullcontext():
        judged(c, ctx)


def watch(ctx, what, objs, snap):
    for a, b in zip(objs, snap):
        ctx.check(zoo.same(a, b), "%s changed an argument of the caller" % what, now=str(a)[:300], was=str(b)[:300])


def with_defaults(rs):
    """every class built on its default configuration: (name, call)"""
    x = torch.from_numpy((rs.rand(4, 6) < .5).astype(np.float32))
    y = torch.from_numpy((rs.rand(4, 6) < .5).astype(np.float32))
    src = torch.from_numpy(grid_values(rs, (4, 6), 8, "bipolar"))
    W, B = torch.from_numpy(grid_values(rs, (3, 6), 8, "bipolar")), torch.from_numpy(grid_values(rs, (3,), 8, "bipolar"))
    Wc = torch.from_numpy(grid_values(rs, (3, 1, 2, 2), 8, "bipolar"))
    img = x.reshape(1, 1, 4, 6)
    WM = torch.from_numpy(grid_values(rs, (2, 8), 8, "bipolar"))
    h0 = torch.from_numpy(grid_values(rs, (4, 2), 8, "bipolar"))

    def metric(m):
        m.Monitor(x)
        return m()
    full = {"width": 8, "dimr": 1, "rng": "sobol"}
    return [
        ("RNG", lambda: S.RNG()()), ("RawScale", lambda: S.RawScale()(src)), ("BinGen", lambda: S.BinGen(src)()),
        ("BSGen", lambda: S.BSGen(S.BinGen(src)(), S.RNG()())(torch.tensor([3]))),
        ("SkewedSync", lambda: S.SkewedSync()(x, y)), ("Bi2Uni", lambda: S.Bi2Uni()(x)), ("Uni2Bi", lambda: S.Uni2Bi()(x)),
        ("FSUAdd", lambda: K.FSUAdd()(x)), ("FSUMul", lambda: K.FSUMul()(x, y)), ("FSUMul static", lambda: K.FSUMul(src, dict(full, mode="bipolar", static=True))(x)),
        ("ShiftReg", lambda: K.ShiftReg()(x)), ("JKFF", lambda: K.JKFF()(x, y)), ("CORDIV_kernel", lambda: K.CORDIV_kernel()(x, y)),
        ("FSUDiv", lambda: K.FSUDiv()(x, y)), ("FSUSqrt", lambda: K.FSUSqrt()(x)), ("FSUReLU", lambda: K.FSUReLU()(x)),
        ("FSUSignAbs", lambda: K.FSUSignAbs()(x)), ("FSUHardsigmoid", lambda: K.FSUHardsigmoid()(x)), ("FSUHardtanh", lambda: K.FSUHardtanh()(x)),
        ("FSULinear", lambda: K.FSULinear(6, 3, weight_ext=W, bias_ext=B)(x)), ("FSUConv2d", lambda: K.FSUConv2d(1, 3, 2, weight_ext=Wc, bias_ext=B)(img)),
        ("HUBLinear", lambda: K.HUBLinear(6, 3, weight_ext=W, bias_ext=B)(src)), ("HUBConv2d", lambda: K.HUBConv2d(1, 3, 2, weight_ext=Wc, bias_ext=B)(img)),
        ("FXPLinear", lambda: K.FXPLinear(6, 3, weight_ext=W, bias_ext=B)(src)), ("FXPConv2d", lambda: K.FXPConv2d(1, 3, 2, weight_ext=Wc, bias_ext=B)(img)),
        ("TLUTLinear", lambda: K.TLUTLinear(6, 3, weight_ext=W, bias_ext=B)(src)), ("TLUTConv2d", lambda: K.TLUTConv2d(1, 3, 2, weight_ext=Wc, bias_ext=B)(img)),
        ("FSUMGUCell", lambda: rnn.FSUMGUCell(6, 2, bias=False, weight_ext_f=WM, weight_ext_n=WM, hx_buffer=h0)(x, x[:, :2])),
        ("ProgError", lambda: metric(M.ProgError(src))), ("Stability", lambda: metric(M.Stability(src))), ("Correlation", lambda: metric(M.Correlation())),
    ], [x, y, src, W, B, Wc, img, WM, h0]


def judged(c, ctx):
    rs = rs_of(c)
    dfl = defaults()
    before_d = copy.deepcopy([d for _, d in dfl])
    unit = c["unit"]
    if unit == "defaults":
        calls, given = with_defaults(rs)
        snap = zoo.snapshot(given)
        outs = {}
        for k in [int(v) for v in rs.permutation(len(calls))] + [int(v) for v in rs.permutation(len(calls))]:
            nm, f = calls[k]
            torch.manual_seed(5)
            o = f()
            ctx.event()
            o = [v.detach().to(torch.float64).numpy().copy() for v in (o if isinstance(o, (tuple, list)) else [o])]
            if nm in outs:
                for a, b in zip(o, outs[nm]):
                    ctx.eq(a, b, "%s built twice on its default configuration differs" % nm)
            outs[nm] = o
            watch(ctx, nm, given, snap)
            for (where, d), b in zip(dfl, before_d):
                ctx.check(list(d.items()) == list(b.items()), "%s: a default configuration changed: %s" % (nm, where), now=str(d), was=str(b))
        ctx.mark(*[outs[n][0] for n in sorted(outs)])
    elif unit == "metric_report":
        src = torch.from_numpy(grid_values(rs, (5,), 5, "bipolar"))
        b = src.clone()
        h = {"scale": int(pick(rs, [1, 2])), "mode": pick(rs, ["bipolar", "unipolar"]), "threshold": .1}
        hb = dict(h)
        x = [torch.from_numpy((rs.rand(5) < .5).astype(np.float32)) for _ in range(6)]
        xb = [v.clone() for v in x]
        m, st, co = M.ProgError(src, h), M.Stability(src, h), M.Correlation()
        one = M.ProgError(src, h)
        import io
        for v in x:
            one.Monitor(v)
            m.Monitor(v)
            st.Monitor(v)
            co.Monitor(v, x[0])
            with contextlib.redirect_stdout(io.StringIO()):
                utils.progerror_report(m, report_value=bool(rs.rand() < .5), report_relative=bool(rs.rand() < .5))
                utils.tensor_unary_outlier(src)
            st()
            co()
        ctx.event(6)
        ctx.check(torch.equal(src, b) and h == hb, "metrics or reports changed the source or the configuration")
        ctx.check(all(torch.equal(p, q) for p, q in zip(x, xb)), "metrics changed a monitored stream")
        for p, q in zip(m(), one()):
            ctx.eq(p, ctx.num(q), "reporting changed the metric")
        ctx.mark("report", src.numpy(), torch.stack(x).numpy())
    elif unit == "generators":
        w = int(rs.randint(2, 7))
        mode = pick(rs, ["unipolar", "Bipolar"])
        src = torch.from_numpy(grid_values(rs, (3, 4), w, mode.lower()))
        h, sc = {"width": w, "mode": mode, "rng": pick(rs, ["Sobol", "RACE", "tc10", "LFSR", "sys"]), "dimr": int(rs.randint(1, 5))}, zoo.sw()
        rng = torch.from_numpy(rs.permutation(1 << w).astype(np.float32))
        code = torch.from_numpy(rs.randint(0, (1 << w) + 1, (3, 4)).astype(np.float32))
        idx = torch.from_numpy(rs.randint(0, 1 << 12, (3, 4)))
        given = [src, h, sc, rng, code, idx]
        snap = zoo.snapshot(given)
        seq = S.RNG(h, sc)()
        b = S.BinGen(src, h, sc)
        g1, g2 = S.BSGen(b(), seq, sc), S.BSGen(code, rng, sc)
        for _ in range(3):
            y = g1(idx), g2(idx), g2(torch.tensor([5]))
            b()
            ctx.event()
            watch(ctx, "the generators", given, snap)
        raw = src * 3
        rawb = raw.clone()
        S.RawScale({"quantile": .7})(raw)
        ctx.check(torch.equal(raw, rawb), "scaling changed the raw data")
        ctx.mark("gen", y[1].numpy())
    elif unit == "helpers":
        x, W = torch.from_numpy(hubref.data(rs, (4, 5), "normal")), torch.from_numpy(hubref.data(rs, (3, 5), "normal"))
        snap = zoo.snapshot([x, W])
        r = utils.rshift_offset(x, W, 7, 5, pick(rs, ["round", "ceil", "floor"]), float(pick(rs, [1, .8])), float(pick(rs, [1, .8])))
        K.conv2d_output_shape((5, 6), (2, 3), 1, ((1, 0), (0, 1)), 1)
        ctx.event()
        watch(ctx, "the helpers", [x, W], snap)
        ctx.mark("helpers", x.numpy(), str(r))
    elif unit in zoo.ALL:
        u = zoo.make(unit, rs)
        snap = zoo.snapshot(u.cfgs)
        # a conversion to the type a tensor already has returns the tensor itself: every type in turn
        order = ["i8", "f32", "i16", "i32", "bf16", "f64", "i64", "f16", "u8"]
        st = "f32" if (u.f32 or u.metric) else [d for d in order if d in DT][c["rep"] % len([d for d in order if d in DT])]
        r = u.new(st=st, bt="f32")
        T = int(pick(rs, [25, 60, 120]))
        xs = u.stimulus(rs, T)
        y = None
        for t in range(T):
            ins = r.inputs(t, xs)
            cp = [v.clone() for v in ins]
            y = r.call(t, ins)
            ctx.event()
            for j, (a, b) in enumerate(zip(ins, cp)):
                ctx.check(torch.equal(a, b), "%s changed its input %d" % (u.name, j), cycle=t)
        watch(ctx, u.name, u.cfgs, snap)
        ctx.mark(u.name, y[-1].detach().to(torch.float64).numpy())
    else:
        u = zoo.binary(unit, rs)
        snap = [v.clone() if isinstance(v, torch.Tensor) else dict(v) for v in u.given]
        m = u.new()
        watch(ctx, unit, u.given, snap)
        for again in range(3):
            xs = u.input(rs)
            grad = rs.rand() < .5
            if grad and unit != "hubmgu":
                xs = [v.requires_grad_(True) if v is not None else None for v in xs]
            cp = [None if v is None else v.detach().clone() for v in xs]
            y = m(*xs)
            ctx.event()
            if y.requires_grad:
                g = torch.from_numpy(rs.randn(*y.shape).astype(np.float32)).to(y.dtype)
                gc = g.clone()
                y.backward(g)
                ctx.check(torch.equal(g, gc), "%s changed the gradient tensor of the caller" % unit)
            for a, b in zip(xs, cp):
                ctx.check(a is None or torch.equal(a.detach(), b), "%s changed its input" % unit)
            watch(ctx, unit, [v.detach() if isinstance(v, torch.Tensor) else v for v in u.given], snap)
        ctx.mark(unit, y.detach().numpy())
    for (where, d), b in zip(dfl, before_d):
        ctx.check(list(d.items()) == list(b.items()), "a default configuration changed: %s" % where, now=str(d), was=str(b))
    ctx.sample = {"unit": unit, "default_configurations_watched": len(dfl)}
