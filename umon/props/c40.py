"""Networks of units compute the composition of the units' laws."""
import numpy as np
import torch
import UnarySim.kernel as K
import UnarySim.stream as S
from UnarySim.kernel import rnn
from UnarySim.metric.metric import Correlation, ProgError
from .. import stim, spec
from ..util import DT, sw, rs_of, pick, grid_values, both
from .c19 import Cell

ID = "C40"
RULE = ("one case = one random network (sources, arithmetic units, activations, dense and convolutional layers, fan-out, inverters, feedback over a "
        "cycle, metrics) run for up to two periods; every wire is compared with the composed laws at every cycle; non-trivial when at least half "
        "of the wires hold both levels; distinct networks are counted")
ASSUMPTIONS = ["deterministic number sequences", "layers take float32 streams (the constructors enforce it)"]


def cases(tier, seed):
    return [{"rep": r, "kind": pick(np.random.RandomState(seed * 1000 + r), ["any", "any", "mlp", "cnn", "rnn", "pool"]), "cost": 2} for r in range(600 if tier == "quick" else 4000)]


class Net:
    def __init__(self, rs, st):
        self.rs, self.st = rs, st
        self.nodes = []        # (name, real, law, input wires)
        self.shape = []        # of every wire
        self.loops = {}        # wire -> wire whose previous value it carries
        self.bt = pick(rs, ["f32", "f32", "f32", "f64", "i16", "i32"]) if st != "f32" or rs.rand() < .3 else "f32"

    def sw(self):
        return sw(self.st, self.bt, "f32")

    def add(self, name, real, law, ins, shapes):
        first = len(self.shape)
        self.nodes.append((name, real, law, list(ins), first, len(shapes)))
        self.shape += [tuple(s) for s in shapes]
        return list(range(first, first + len(shapes)))

    # -- building blocks
    def source(self, shape, mode=None, rng=None, dim=None, w=None):
        rs = self.rs
        mode = mode or pick(rs, ["unipolar", "bipolar"])
        w = w or int(pick(rs, [3, 4, 5, 6, 8]))
        rng = rng or pick(rs, ["Sobol", "Sobol", "rc", "tc", "race10"])
        dim = dim or int(rs.randint(1, 6))
        v = grid_values(rs, shape, w, mode)
        h = {"width": w, "mode": mode, "rng": rng, "dimr": dim}
        b = S.BSGen(S.BinGen(torch.from_numpy(v.copy()), h, self.sw())(), S.RNG(h, self.sw())(), self.sw())
        seq, code = stim.rng_seq(rng.lower(), w, dim), spec.to_int(v, w, mode)
        return self.add("source %s" % rng, lambda t, x: b(torch.tensor([t])), lambda t, x: (code > seq[t % len(seq)]).astype(np.int64), [], [shape])[0]

    def unary(self, name, m, law, ins, shapes=None):
        return self.add(name, lambda t, x: m(*x), lambda t, x: law.step(*x), ins, shapes or [self.shape[ins[0]]])

    def linear(self, i, n_out, mode, scale=None, w=None, bias=None):
        rs = self.rs
        b, n = self.shape[i]
        w = w or int(pick(rs, [3, 4, 5]))
        bias = bool(rs.rand() < .5) if bias is None else bias
        W, B = grid_values(rs, (n_out, n), w, mode), grid_values(rs, (n_out,), w, mode) if bias else None
        h = {"width": w, "mode": mode, "scale": scale, "depth": 10, "rng": "Sobol", "dimr": int(rs.randint(1, 5))}
        m = K.FSULinear(n, n_out, bias=bias, weight_ext=torch.from_numpy(W.copy()), bias_ext=None if B is None else torch.from_numpy(B.copy()), hwcfg=h, swcfg=sw())
        pc = spec.LinearPC(spec.to_int(W, w, mode), None if B is None else spec.to_int(B, w, mode), stim.rng_seq("sobol", w, h["dimr"]), mode, False)
        ac = spec.Add(mode, n + bias if scale is None else scale, n + bias, 10)
        return self.add("dense", lambda t, x: m(x[0]), lambda t, x: ac.step(pc.step(x[0])), [i], [(b, n_out)])[0]

    def conv(self, i, chan, hw_, mode):
        """wire [b, chan*H*W] -> [b, co*oh*ow]"""
        rs = self.rs
        b = self.shape[i][0]
        w, co = int(pick(rs, [3, 4])), int(pick(rs, [1, 2, 3]))
        k, s, p, d = (int(rs.randint(1, 4)), int(rs.randint(1, 4))), (int(rs.randint(1, 3)), 1), (int(rs.randint(0, 2)), int(rs.randint(0, 3))), (1, 1)
        bias = bool(rs.rand() < .5)
        W, B = grid_values(rs, (co, chan) + k, w, mode), grid_values(rs, (co,), w, mode) if bias else None
        n = chan * k[0] * k[1]
        scale = pick(rs, [None, 1])
        h = {"width": w, "mode": mode, "scale": scale, "depth": 10, "rng": "Sobol", "dimr": int(rs.randint(1, 4))}
        m = K.FSUConv2d(chan, co, k, stride=s, padding=p, dilation=d, bias=bias, weight_ext=torch.from_numpy(W.copy()), bias_ext=None if B is None else torch.from_numpy(B.copy()), hwcfg=h, swcfg=sw())
        pc = spec.LinearPC(spec.to_int(W, w, mode).reshape(co, -1), None if B is None else spec.to_int(B, w, mode), stim.rng_seq("sobol", w, h["dimr"]), mode, False)
        ac = spec.Add(mode, n + bias if scale is None else scale, n + bias, 10)
        oh, ow = [(a + 2 * p_ - d_ * (k_ - 1) - 1) // s_ + 1 for a, p_, d_, k_, s_ in zip(hw_, p, d, k, s)]

        def law(t, x):
            cols, _ = spec.unfold(x[0].reshape((b, chan) + hw_), k, s, p, d, t % 2 if mode == "bipolar" else 0)
            return ac.step(pc.step(cols).reshape(b, oh, ow, co).transpose(0, 3, 1, 2)).reshape(b, -1)
        o = self.add("convolution", lambda t, x: m(x[0].reshape((b, chan) + hw_)).reshape(b, -1), law, [i], [(b, co * oh * ow)])[0]
        return o, co, (oh, ow)

    def random_unit(self, wires=None):
        rs = self.rs
        wires = wires or list(range(len(self.shape)))
        i = int(pick(rs, wires))
        sh = self.shape[i]
        peers = [j for j in wires if self.shape[j] == sh]
        j, k = int(pick(rs, peers)), int(pick(rs, peers))
        g = lambda: self.sw()
        op = pick(rs, ["mul_static", "mul_stream", "add", "add", "relu", "abs", "sync", "b2u", "u2b", "div", "sqrt", "hsig", "htanh", "jk", "shift", "inv", "cordiv", "dense", "and"])
        if op == "mul_static":
            mode, w, d = pick(rs, ["unipolar", "bipolar"]), int(pick(rs, [3, 4, 5])), int(rs.randint(1, 5))
            v = grid_values(rs, sh, w, mode)
            return self.unary(op, K.FSUMul(torch.from_numpy(v.copy()), {"width": w, "mode": mode, "static": True, "rng": "Sobol", "dimr": d}, g()),
                              spec.MulStatic(spec.to_int(v, w, mode), stim.rng_seq("sobol", w, d), mode), [i])
        if op == "mul_stream":
            mode, w, d = pick(rs, ["unipolar", "bipolar"]), int(pick(rs, [2, 3, 5])), int(rs.randint(1, 5))
            return self.unary(op, K.FSUMul(None, {"width": w, "mode": mode, "static": False, "rng": "Sobol", "dimr": d}, g()), spec.MulStream(stim.rng_seq("sobol", w, d), mode), [i, j])
        if op == "add":
            mode, ins = pick(rs, ["unipolar", "bipolar"]), [i, j] + ([k] if rs.rand() < .5 else [])
            scale = pick(rs, [None, 1, 2])
            m = K.FSUAdd({"mode": mode, "scale": scale, "dima": 0, "depth": 8, "entry": None}, sw(self.st, "f32", "f32"))
            law = spec.Add(mode, len(ins) if scale is None else scale, len(ins), 8)
            return self.add(op, lambda t, x: m(torch.stack(x, 0)), lambda t, x: law.step(sum(x)), ins, [sh])
        if op == "relu":
            d = int(rs.randint(2, 7))
            return self.unary(op, K.FSUReLU({"depth": d}, g()), spec.ReLU(d), [i])
        if op == "abs":
            d = int(rs.randint(2, 7))
            return self.unary(op, K.FSUSignAbs({"depth": d}, g()), spec.SignAbs(d), [i], [sh, sh])
        if op == "sync":
            d = int(rs.randint(1, 5))
            return self.unary(op, S.SkewedSync({"depth": d}, g()), spec.SkewedSync(d), [i, j], [sh, sh])
        if op == "b2u":
            d = int(rs.randint(3, 6))
            return self.unary(op, S.Bi2Uni({"depth": d}, g()), spec.BipolarToUnipolar(d), [i])
        if op == "u2b":
            d = int(rs.randint(4, 7))
            return self.unary(op, S.Uni2Bi({"depth": d}, g()), spec.UnipolarToBipolar(d), [i])
        if op == "div":
            mode, e = pick(rs, ["unipolar", "bipolar"]), int(pick(rs, [2, 4]))
            return self.unary(op, K.FSUDiv({"depth_sa": 3, "depth_ss": 2, "entry_kn": e, "mode": mode, "rng": "Sobol", "dimr": 4}, g()),
                              spec.Div(mode, 3, 2, e, stim.rng_seq("sobol", int(np.log2(e)), 4)), [i, j])
        if op == "cordiv":
            e = int(pick(rs, [2, 4, 8]))
            return self.unary(op, K.CORDIV_kernel({"entry": e, "rng": "Sobol", "dimr": 1}, g()), spec.Cordiv(e, stim.rng_seq("sobol", int(np.log2(e)), 1)), [i, j])
        if op == "sqrt":
            mode, var, e = pick(rs, ["unipolar", "bipolar"]), pick(rs, ["emit", "jk", "cd"]), int(pick(rs, [2, 4]))
            h = {"mode": mode, "jk_trace": var == "jk", "emit": var == "emit", "entry_kn": 1, "entry_sr": e, "rng": "Sobol", "dimr": 4}
            return self.unary(op, K.FSUSqrt(h, g()), spec.Sqrt(mode, var == "emit", var == "jk", e, stim.rng_seq("sobol", 2, 4)), [i])
        if op == "hsig":
            mode = pick(rs, ["unipolar", "bipolar"])
            m, law = K.FSUHardsigmoid({"mode": mode, "scale": 2, "dima": 0, "depth": 6, "entry": 2}, sw(self.st, "f32", "f32")), spec.Add(mode, 2, 2, 6)
            return self.add(op, lambda t, x: m(x[0]), lambda t, x: law.step(x[0] + 1), [i], [sh])
        if op == "htanh":
            m = K.FSUHardtanh()
            return self.add(op, lambda t, x: m(x[0]), lambda t, x: x[0], [i], [sh])
        if op == "jk":
            return self.unary(op, K.JKFF({"stype": DT[self.st]}), spec.JK(), [i, j])
        if op == "shift":
            e = int(pick(rs, [2, 3, 5]))
            m, law, q = K.ShiftReg({"entry": e}, {"stype": DT[self.st]}), spec.Shift(e), int(rs.randint(e))
            masked = rs.rand() < .5
            return self.add(op, lambda t, x: m(x[0], mask=x[1] if masked else None, index=q)[0], lambda t, x: law.step(x[0], x[1] if masked else None, q)[0], [i, j], [sh])
        if op == "inv":
            return self.add(op, lambda t, x: 1 - x[0], lambda t, x: 1 - x[0], [i], [sh])
        if op == "and":
            return self.add(op, lambda t, x: x[0] * x[1], lambda t, x: x[0] * x[1], [i, j], [sh])
        if op == "dense" and self.st == "f32" and len(sh) == 2:
            return [self.linear(i, int(pick(rs, [1, 2, sh[1]])), pick(rs, ["unipolar", "bipolar"]), pick(rs, [None, 1]))]
        return []

    def loop(self, wire_shape):
        i = self.add("feedback", None, None, [], [wire_shape])[0]
        return i


def run(c, ctx):
    rs = rs_of(c)
    st = "f32" if c["kind"] != "any" or rs.rand() < .6 else pick(rs, ["i8", "i32", "f64", "bf16"])
    net = Net(rs, st)
    b, n = int(pick(rs, [1, 2, 3])), int(pick(rs, [1, 2, 4, 6]))
    if c["kind"] == "any":
        sh = (b, n) if rs.rand() < .8 else (b, 2, n)
        for _ in range(int(rs.randint(2, 5))):
            net.source(sh)
        loops = [net.loop(sh) for _ in range(int(rs.randint(0, 3)))]
        for _ in range(int(rs.randint(4, 12))):
            net.random_unit()
        for q in loops:
            net.loops[q] = int(pick(rs, [j for j in range(len(net.shape)) if net.shape[j] == sh and j != q]))
    elif c["kind"] == "mlp":
        mode = pick(rs, ["unipolar", "bipolar"])
        i = net.source((b, n), mode, "Sobol", 1)
        for _ in range(int(rs.randint(2, 5))):
            i = net.linear(i, int(rs.randint(1, 6)), mode, pick(rs, [None, 1, 1]))
            if rs.rand() < .6:
                i = net.unary("relu", K.FSUReLU({"depth": 5}, net.sw()), spec.ReLU(5), [i])[0]
    elif c["kind"] == "cnn":
        mode = pick(rs, ["unipolar", "bipolar"])
        ch, hw_ = int(pick(rs, [1, 2])), (int(rs.randint(5, 8)), int(rs.randint(5, 8)))
        i = net.source((b, ch * hw_[0] * hw_[1]), mode, "Sobol", 1)
        for _ in range(int(rs.randint(1, 3))):
            if min(hw_) >= 3:
                i, ch, hw_ = net.conv(i, ch, hw_, mode)
                if rs.rand() < .6:
                    i = net.unary("relu", K.FSUReLU({"depth": 5}, net.sw()), spec.ReLU(5), [i])[0]
        net.linear(i, 3, mode, pick(rs, [None, 1]))
    elif c["kind"] == "pool":
        # scaled addition over a feature axis of a wider tensor
        sh = (b, 3, n)
        i, j = net.source(sh), net.source(sh)
        mode, dima = pick(rs, ["unipolar", "bipolar"]), int(pick(rs, [0, 1, 2, -1, -2]))
        m = K.FSUAdd({"mode": mode, "scale": None, "dima": dima, "depth": 9, "entry": None}, sw(st, "f32", "f32"))
        law = spec.Add(mode, sh[dima], sh[dima], 9)
        osh = tuple(np.zeros(sh).sum(dima).shape)
        k = net.add("pool", lambda t, x: m(x[0]), lambda t, x: law.step(x[0].sum(dima)), [i], [osh])[0]
        for _ in range(3):
            net.random_unit([i, j] if rs.rand() < .5 else [k])
    else:
        # a recurrent cell whose hidden stream is its own output one cycle earlier
        w, ni, nh, bias = int(pick(rs, [3, 4])), n, int(pick(rs, [1, 2, 3])), bool(rs.rand() < .5)
        i = net.source((b, ni), "bipolar", "Sobol", 1, w)
        q = net.loop((b, nh))
        g = lambda *s: grid_values(rs, s, w, "bipolar")
        T_ = lambda v: None if v is None else torch.from_numpy(v.copy())
        Wf, Wn, Bf, Bn, hx = g(nh, nh + ni), g(nh, nh + ni), g(nh) if bias else None, g(nh) if bias else None, g(b, nh)
        m = rnn.FSUMGUCell(ni, nh, bias=bias, weight_ext_f=T_(Wf), bias_ext_f=T_(Bf), weight_ext_n=T_(Wn), bias_ext_n=T_(Bn), hx_buffer=T_(hx),
                           hwcfg={"width": w, "mode": "bipolar", "depth": 8, "depth_ismul": 3, "rng": "Sobol", "dimr": 1}, swcfg=sw())
        law = Cell(Wf, Bf, Wn, Bn, hx, w, 8, 3, "sobol", 1)
        o = net.add("cell", lambda t, x: m(x[0], x[1]), lambda t, x: law.step(x[0], x[1]), [i, q], [(b, nh)])[0]
        net.loops[q] = o
        net.linear(o, 2, "bipolar", 1)
    T = int(pick(rs, [40, 80, 140])) if c["rep"] % 13 else 700
    last = len(net.shape) - 1
    mode = pick(rs, ["unipolar", "bipolar"])
    probe, corr = ProgError(torch.zeros(net.shape[last]), {"scale": 1, "mode": mode}), Correlation()
    prev_r, prev_l = {}, {}
    ones = np.zeros(len(net.shape), np.int64)
    total = 0
    hist = []
    for t in range(T):
        real, lawv = [None] * len(net.shape), [None] * len(net.shape)
        for name, rf, lf, ins, first, cnt in net.nodes:
            if rf is None:
                src = net.loops.get(first)
                shp = net.shape[first]
                if src is None or t == 0:
                    real[first], lawv[first] = torch.zeros(shp, dtype=DT[st]), np.zeros(shp, np.int64)
                else:
                    real[first], lawv[first] = prev_r[src], prev_l[src]
                continue
            o = rf(t, [real[i] for i in ins])
            w_ = lf(t, [lawv[i] for i in ins])
            o, w_ = (list(o), list(w_)) if cnt > 1 else ([o], [w_])
            if len(o) != cnt:
                ctx.fail("number of outputs of %s" % name)
            for k in range(cnt):
                w = np.broadcast_to(np.asarray(w_[k]), net.shape[first + k])
                ctx.eq(o[k], w, "wire %d (%s)" % (first + k, name), dtype=DT[st], cycle=t, network=str([q[0] for q in net.nodes]))
                real[first + k], lawv[first + k] = o[k], w.astype(np.int64)
            ctx.event()
        for q in range(len(net.shape)):
            ctx.eq(real[q], lawv[q], "wire %d after the cycle (overwritten by a later unit)" % q, cycle=t)
        prev_r, prev_l = dict(enumerate(real)), dict(enumerate(lawv))
        probe.Monitor(real[last])
        corr.Monitor(real[last], real[last])
        total = total + lawv[last]
        hist.append([int(v.sum()) for v in lawv])
    val = total / T
    ctx.close(probe()[0], 2 * val - 1 if mode == "bipolar" else val, 3e-7, "decoded value of the last wire")
    ctx.close(corr(), ((total > 0) & (total < T)).astype(np.float64), 1e-6, "correlation of the last wire with itself")
    live = sum(len({h[q] for h in hist}) > 1 for q in range(len(net.shape)))
    if live * 2 >= len(net.shape):
        ctx.mark(str([q[0] for q in net.nodes]), str(hist[:30]))
    ctx.note("wires", len(net.shape))
    ctx.note("feedback_loops", len(net.loops))
    ctx.sample = {"network": [q[0] for q in net.nodes], "wires": len(net.shape), "T": T}
