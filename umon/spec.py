"""Reference automata (numpy, integers).  step() consumes the bits of one cycle, all lanes at once."""
import numpy as np


def I(x):
    return np.asarray(x).astype(np.int64)


class BipolarToUnipolar:
    def __init__(self, depth):
        self.m = 2 ** (depth - 2) if depth >= 2 else 2.0 ** (depth - 2)
        self.acc = 0

    def step(self, b):
        self.acc = np.clip(self.acc + 2 * I(b) - 1, -self.m, self.m)
        out = (self.acc >= 1).astype(np.int64)
        self.acc = self.acc - out
        return out


class UnipolarToBipolar:
    def __init__(self, depth):
        self.m = 2 ** (depth - 2)
        self.acc = 0

    def step(self, b):
        self.acc = np.clip(self.acc + I(b) + 1, -self.m, self.m)
        out = (self.acc >= 2).astype(np.int64)
        self.acc = self.acc - 2 * out
        return out


class SkewedSync:
    def __init__(self, depth):
        self.top = 2 ** depth - 1
        self.cnt = None

    def step(self, a, b):
        a, b = I(a), I(b)
        if self.cnt is None:
            self.cnt = np.zeros_like(a + b)
        lone_a = (a == 1) & (b == 0)
        lone_b = (a == 0) & (b == 1)
        hold = lone_a & (self.cnt < self.top)
        give = lone_b & (self.cnt > 0)
        out = a - hold + give
        self.cnt = self.cnt + hold - give
        return out, b


class JK:
    def __init__(self):
        self.q = 0

    def step(self, j, k):
        j, k = I(j), I(k)
        self.q = np.where((j == 0) & (k == 0), self.q,
                          np.where((j == 1) & (k == 0), 1, np.where((j == 0) & (k == 1), 0, 1 - self.q)))
        return self.q


class Shift:
    def __init__(self, entry):
        self.entry = entry
        self.cells = None

    def start(self, shape):
        self.cells = np.broadcast_to((np.arange(self.entry) % 2).reshape((self.entry,) + (1,) * len(shape)),
                                     (self.entry,) + tuple(shape)).astype(np.int64).copy()

    def step(self, b, mask=None, index=0):
        b = I(b)
        if self.cells is None:
            self.start(b.shape)
        out = self.cells[index].copy()
        cnt = self.cells.sum(0)
        nxt = np.concatenate([self.cells[1:], b[None]], 0)
        self.cells = nxt if mask is None else np.where(I(mask)[None] == 1, nxt, self.cells)
        return out, cnt


class Add:
    """acc <- clip(acc + sum - offset); carry when acc >= scale."""

    def __init__(self, mode, scale, entry, depth):
        self.scale = float(scale)
        self.off = (entry - self.scale) / 2 if mode == "bipolar" else 0.0
        self.m = 2.0 ** (depth - 2)
        self.acc = 0.0
        self.saturated = False

    def step(self, total):
        raw = self.acc + np.asarray(total, dtype=np.float64) - self.off
        self.acc = np.clip(raw, -self.m, self.m)
        self.saturated = self.saturated or bool(np.any(self.acc != raw))
        out = (self.acc >= self.scale).astype(np.int64)
        self.acc = np.clip(self.acc - out * self.scale, -self.m, self.m)
        return out


class MulStatic:
    def __init__(self, W, seq, mode):
        self.W, self.seq, self.mode = I(W), I(seq), mode
        self.n = len(self.seq)
        self.k = self.kz = 0

    def step(self, a):
        a = I(a)
        path = a & (self.W > self.seq[np.broadcast_to(self.k, a.shape) % self.n])
        self.k = self.k + a
        if self.mode == "unipolar":
            return path
        inv = (1 - a) & (1 - (self.W > self.seq[np.broadcast_to(self.kz, a.shape) % self.n]))
        self.kz = self.kz + 1 - a
        return path | inv


class MulStream:
    def __init__(self, seq, mode):
        self.seq, self.mode = I(seq), mode
        self.n = len(self.seq)
        self.sr = Shift(self.n)
        self.k = self.kz = 0

    def step(self, a, b):
        a = I(a)
        _, cnt = self.sr.step(b)
        path = a & (cnt > self.seq[np.broadcast_to(self.k, a.shape) % self.n])
        self.k = self.k + a
        if self.mode == "unipolar":
            return path
        inv = (1 - a) & (1 - (cnt > self.seq[np.broadcast_to(self.kz, a.shape) % self.n]))
        self.kz = self.kz + 1 - a
        return path | inv


class Cordiv:
    def __init__(self, entry, seq):
        self.seq = I(seq)
        self.entry = entry
        self.sr = Shift(entry)
        self.t = 0

    def step(self, dividend, divisor):
        a, b = I(dividend), I(divisor)
        if self.sr.cells is None:
            self.sr.start(a.shape)
        hist = self.sr.cells[self.seq[self.t % self.entry]]
        self.t += 1
        q = np.where(b == 1, a, hist)
        self.sr.step(q, mask=b)
        return q


class SignAbs:
    def __init__(self, depth):
        self.top, self.half = 2 ** depth - 1, 2 ** (depth - 1)
        self.acc = self.half

    def step(self, b):
        b = I(b)
        self.acc = np.clip(self.acc + 2 * b - 1, 0, self.top)
        sign = (self.acc < self.half).astype(np.int64)
        return sign, sign ^ b


class ReLU:
    def __init__(self, depth):
        self.top, self.half = 2 ** depth - 1, 2 ** (depth - 1)
        self.acc = self.half

    def step(self, b):
        b = I(b)
        out = b | I(self.acc < self.half)
        self.acc = np.clip(self.acc + 2 * out - 1, 0, self.top)
        return out


class Div:
    def __init__(self, mode, depth_sa, depth_ss, entry, seq):
        self.mode = mode
        self.sync = SkewedSync(depth_ss)
        self.core = Cordiv(entry, seq)
        if mode == "bipolar":
            self.s1, self.s2 = SignAbs(depth_sa), SignAbs(depth_sa)
            self.b1, self.b2 = BipolarToUnipolar(3), BipolarToUnipolar(3)
            self.u = UnipolarToBipolar(4)

    def _uni(self, a, b):
        return self.core.step(*self.sync.step(a, b))

    def step(self, a, b):
        if self.mode == "unipolar":
            return self._uni(a, b)
        sa, aa = self.s1.step(a)
        sb, bb = self.s2.step(b)
        q = self.u.step(self._uni(self.b1.step(aa), self.b2.step(bb)))
        return sa ^ sb ^ q


class Sqrt:
    def __init__(self, mode, emit, jk, entry_sr, kseq):
        self.mode, self.emit, self.jk = mode, emit, jk
        self.b2u = BipolarToUnipolar(3)
        self.fb = 0
        if emit:
            self.add = Add("unipolar", 1, 2, 10)
            self.sr = Shift(entry_sr)
        elif jk:
            self.ff = JK()
        else:
            self.core = Cordiv(4, kseq)
            self.dff = 0

    def step(self, x):
        x = I(x)
        if self.emit:
            out = self.add.step(x + self.fb)
            old, _ = self.sr.step(1 - out)
            self.fb = old & (self.b2u.step(out) if self.mode == "bipolar" else out)
            return out
        out = x | self.fb
        u = self.b2u.step(out) if self.mode == "bipolar" else out
        if self.jk:
            self.fb = self.ff.step(u, np.ones_like(u))
        else:
            dividend = (1 - self.dff) & u
            self.fb = self.core.step(dividend, self.dff + dividend)
            self.dff = 1 - self.dff
        return out


def to_int(value, width, mode):
    """Nearest integer (ties to even) of the scaled value; value must be an exact float array."""
    v = np.asarray(value, dtype=np.float64)
    v = v * 2 ** width if mode == "unipolar" else (v + 1) / 2 * 2 ** width
    return np.rint(v).astype(np.int64)


class LinearPC:
    """Parallel count of a dense unary layer: per-weight generators, see Add for the carry."""

    def __init__(self, W, B, seq, mode, temporal):
        self.W, self.B = I(W), None if B is None else I(B)
        self.seq, self.mode, self.temporal = I(seq), mode, temporal
        self.n = len(self.seq)
        self.t = 0
        self.k = self.kz = 0

    def step(self, x):
        """x: [batch, in] -> [batch, out]"""
        x = I(x)
        xi = x[:, None, :]
        if self.temporal:
            k = np.broadcast_to(self.t, xi.shape)
            kz = k
        else:
            k, kz = np.broadcast_to(self.k, xi.shape), np.broadcast_to(self.kz, xi.shape)
        w1 = (self.W[None] > self.seq[k % self.n]).astype(np.int64)
        pc = (xi * w1).sum(2)
        if self.mode == "bipolar":
            w0 = 1 - (self.W[None] > self.seq[kz % self.n]).astype(np.int64)
            pc = pc + ((1 - xi) * w0).sum(2)
        if self.B is not None:
            pc = pc + (self.B > self.seq[self.t % self.n]).astype(np.int64)[None]
        self.k = self.k + xi
        self.kz = self.kz + 1 - xi
        self.t += 1
        return pc


def unfold(x, kernel, stride, padding, dilation, value):
    """x [B,C,H,W] -> patches [B*L, C*kh*kw] (channel-major), and (oh, ow)."""
    (kh, kw), (sh, sw), (ph, pw), (dh, dw) = kernel, stride, padding, dilation
    x = np.pad(x, ((0, 0), (0, 0), (ph, ph), (pw, pw)), constant_values=value)
    B, C, H, W = x.shape
    oh = (H - dh * (kh - 1) - 1) // sh + 1
    ow = (W - dw * (kw - 1) - 1) // sw + 1
    out = np.zeros((B, oh, ow, C, kh, kw), dtype=x.dtype)
    for i in range(kh):
        for j in range(kw):
            out[:, :, :, :, i, j] = x[:, :, i * dh:i * dh + (oh - 1) * sh + 1:sh,
                                      j * dw:j * dw + (ow - 1) * sw + 1:sw].transpose(0, 2, 3, 1)
    return out.reshape(B * oh * ow, C * kh * kw), (oh, ow)
