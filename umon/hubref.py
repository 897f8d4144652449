"""Reference arithmetic of the binary-interface layers (HUB, FXP, TLUT)."""
import numpy as np
from . import spec, stim


def scale_exp(x, q, rounding):
    """log2 of the quantile magnitude, rounded as configured; None when it sits on a rounding boundary, or when single
    precision noise in the position of the quantile decides."""
    x = np.asarray(x, dtype=np.float64)
    if q == 1:
        return exp_of(max(abs(x.min()), abs(x.max())), q, rounding)
    e = {exp_of(np.abs(np.quantile(x, [max(0, .5 - (q + d) / 2), min(1, .5 + (q + d) / 2)])).max(), q, rounding) for d in (-1e-6, 0, 1e-6)}
    return e.pop() if len(e) == 1 else None


def exp_of(s, q, rounding):
    if s == 0:
        return 0
    l = np.log2(s)
    f = l - np.floor(l)
    eps = 1e-3
    if rounding == "round":
        if abs(f - 0.5) < eps:
            return None
        return int(np.rint(l))
    if f == 0 and q == 1:
        return int(l)
    if f < eps or f > 1 - eps:
        return None
    return int(np.floor(l) if rounding == "floor" else np.ceil(l))


def hub_map(width, rngi, rngw):
    """number of 1s the weight stream shows during the cycles in which the input stream is 1: [i, w]"""
    n = 1 << (width - 1)
    tc = ("race", "tc", "race10", "tc10")
    i_seq, w_seq = stim.rng_seq(rngi, width - 1, 1), stim.rng_seq(rngw, width - 1, 1)
    ctl, other = (w_seq, i_seq) if (rngw in tc and rngi not in tc) else (i_seq, w_seq)
    v = np.arange(n)
    first = (v[:, None] > ctl[None]).sum(1)
    hits = (v[:, None] > other[None]).astype(np.int64)         # [w, cycle]
    cum = np.concatenate([np.zeros((n, 1), np.int64), np.cumsum(hits, 1)], 1)   # ones of w in the first k cycles
    return cum[:, first].T.copy()                              # [i, w]


def hub_mm(x, W, width, ei, ew, cycle, mp, chunk=64):
    i = np.clip(np.abs(np.rint(x.astype(np.float64) / 2.0 ** (ei - (width - 1)))), 0, cycle - 1).astype(np.int64)
    w = np.clip(np.abs(np.rint(W.astype(np.float64) / 2.0 ** (ew - (width - 1)))), 0, cycle - 1).astype(np.int64)
    out = np.zeros((x.shape[0], W.shape[0]))
    for r in range(x.shape[0]):
        out[r] = (mp[i[r][None], w] * np.sign(W) * np.sign(x[r])[None]).sum(1)
    return out / 2.0 ** (width - 1 - ei - ew)


def fxp_mm(x, W, wi, ww, ei, ew):
    li, lw = 2.0 ** (ei - (wi - 1)), 2.0 ** (ew - (ww - 1))
    i = np.clip(np.rint(x.astype(np.float64) / li), 1 - 2 ** wi, 2 ** wi - 1)
    w = np.clip(np.rint(W.astype(np.float64) / lw), 1 - 2 ** ww, 2 ** ww - 1)
    return (i @ w.T) * li * lw


def digits(m, widtht, degree, cycle):
    """signed integer magnitudes -> value whose base-2^widtht digits are limited to cycle-1"""
    a, s = np.abs(m).astype(np.int64), np.sign(m)
    out = np.zeros_like(a)
    for j in range(degree):
        d = (a >> (widtht * j)) & ((1 << widtht) - 1)
        out += np.minimum(d, cycle - 1) << (widtht * j)
    return s * out


def tlut_operands(x, W, hw):
    """the values the T-LUT actually multiplies; hw as given to the layer; None if on a rounding boundary"""
    temporal = hw["temporal"].lower()[0]
    cyc = 2 ** hw["widtht"] if hw["cycle"] is None else min(hw["cycle"], 2 ** hw["widtht"])
    fx = {"i": hw["formati"].lower() == "fxp", "w": hw["formatw"].lower() == "fxp"}
    wid = {"i": hw["widthi"] - 1, "w": hw["widthw"] - 1}
    val = {"i": np.asarray(x, np.float64), "w": np.asarray(W, np.float64)}
    if fx["i"] and fx["w"]:
        for k, q in (("i", hw["quantilei"]), ("w", hw["quantilew"])):
            e = scale_exp(val[k], q, hw["rounding"].lower())
            if e is None:
                return None
            lsb = 2.0 ** (e - wid[k])
            m = np.trunc(np.clip(val[k] / lsb, -2 ** wid[k] + 1, 2 ** wid[k] - 1))
            if k == temporal:
                m = digits(m, hw["widtht"], -(-wid[k] // hw["widtht"]), cyc)
            val[k] = m * lsb
        return val["i"], val["w"]
    k = temporal
    if not fx["i"] and not fx["w"]:
        bits = {"bfloat16": 8, "float16": 11, "float32": 24}[hw["format" + k].lower()]
        man, exp = np.frexp(val[k])
        m = digits(np.trunc(man * 2 ** bits), hw["widtht"], -(-bits // hw["widtht"]), cyc)
        val[k] = np.ldexp(m.astype(np.float64) / 2 ** bits, exp)
        return val["i"], val["w"]
    bits = wid[k] if fx[k] else {"bfloat16": 8, "float16": 11, "float32": 24}[hw["format" + k].lower()]
    e = scale_exp(val[k], hw["quantile" + k], hw["rounding"].lower())
    if e is None:
        return None
    lsb = 2.0 ** (e - bits)
    m = np.trunc(np.clip(val[k] / lsb, -2 ** bits + 1, 2 ** bits - 1))
    val[k] = digits(m, hw["widtht"], -(-bits // hw["widtht"]), cyc) * lsb
    return val["i"], val["w"]


def conv(x, W, bias, s, p, d, mm):
    """2-D convolution through mm(patches, weight rows)"""
    co = W.shape[0]
    cols, (oh, ow) = spec.unfold(x, W.shape[2:], s, p, d, 0)
    y = mm(cols, W.reshape(co, -1)).reshape(x.shape[0], oh, ow, co).transpose(0, 3, 1, 2)
    return y if bias is None else y + np.asarray(bias, np.float64).reshape(1, -1, 1, 1)


def data(rs, shape, kind):
    x = rs.randn(*shape)
    if kind == "uniform":
        x = rs.rand(*shape) * 2 - 1
    elif kind == "pos":
        x = np.abs(x)
    elif kind == "neg":
        x = -np.abs(x)
    elif kind == "relu":
        x = np.maximum(x, 0)
    elif kind == "outlier":
        x = np.where(rs.rand(*shape) < .05, x * 50, x)
    elif kind == "big":
        x = x * 300
    elif kind == "small":
        x = x * 1e-3
    elif kind == "tiny":
        x = x * 2.0 ** -rs.randint(20, 41)
    elif kind == "huge":
        x = x * 2.0 ** rs.randint(12, 31)
    elif kind == "pow2":
        x = rs.choice([-1, 1], size=shape) * 2.0 ** rs.randint(-6, 3, size=shape)
    elif kind == "zeros":
        x = np.zeros(shape)
    elif kind == "sparse":
        x = np.where(rs.rand(*shape) < .8, 0, x)
    elif kind == "int":
        x = rs.randint(-128, 129, size=shape) / 128.0
    return x.astype(np.float32)


def earlier_use(rs, m, x, W):
    """Use the layer on other data first, and (half of the time) with other weights: what it keeps must not matter."""
    import torch
    if rs.rand() < .25:
        return False
    other = data(rs, x.shape, KINDS[rs.randint(len(KINDS))]) * 2.0 ** rs.randint(-6, 7)
    if rs.rand() < .3 and len(x) > 1:
        other = other[: len(x) // 2]
    dt = m.weight.dtype
    if rs.rand() < .5 and 0 not in m.weight.stride():        # an expanded weight cannot be written
        keep = m.weight.data.clone()
        m.weight.data.copy_(torch.from_numpy((data(rs, W.shape, KINDS[rs.randint(len(KINDS))]) * 2.0 ** rs.randint(-3, 4)).astype(np.float32)).to(dt))
        m(torch.from_numpy(other.astype(np.float32)).to(dt))
        m.weight.data.copy_(keep)          # in place, as an optimiser does
    else:
        m(torch.from_numpy(other.astype(np.float32)).to(dt))
    return True


# ranges of kernel, stride, padding, dilation
GEO = [((1, 4), (1, 3), (0, 3), (1, 3)), ((1, 6), (1, 5), (0, 4), (1, 4)), ((3, 4), (1, 2), (1, 2), (1, 2)), ((1, 2), (1, 3), (0, 1), (1, 2))]


def image(rs, k, p, d):
    """height and width with at least one output pixel"""
    return tuple(int(max(rs.randint(4, 11), d_ * (k_ - 1) + 1 - 2 * p_, 1)) for k_, p_, d_ in zip(k, p, d))


def network(rs, k, im):
    """channels, outputs, batch and image of a layer of a network, within 3 million products"""
    cin, cout, b, side = [(3, 6, 4, 32), (6, 16, 8, 14), (16, 24, 4, 12), (1, 6, 32, 28), (3, 2, 1, 90), (1, 4, 100, 12), (64, 10, 2, 8), (2, 100, 2, 16)][rs.randint(8)]
    im = (max(side, im[0]), max(side - int(rs.randint(4)), im[1]))
    while b > 1 and b * cin * cout * k[0] * k[1] * im[0] * im[1] > 3e6:
        b //= 2
    while cout > 1 and b * cin * cout * k[0] * k[1] * im[0] * im[1] > 3e6:
        cout //= 2
    return cin, cout, b, im


KINDS = ["normal", "uniform", "pos", "neg", "relu", "outlier", "big", "small", "pow2", "sparse", "int", "zeros", "tiny", "huge"]
