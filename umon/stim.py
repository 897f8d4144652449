"""Stimuli: bit streams (uint8 arrays, time first) of many shapes and kinds."""
import itertools
import numpy as np

KINDS = ["bern", "bern_lane", "burst", "markov", "alt", "period3", "zeros", "ones", "thermo", "thermo10",
         "sparse", "dense", "step", "late_one"]


def stream(rs, T, shape, kind):
    """rs: np.random.RandomState; result uint8 [T, *shape]."""
    shape = tuple(shape)
    full = (T,) + shape
    t = np.arange(T).reshape((T,) + (1,) * len(shape))
    if kind == "bern":
        return (rs.rand(*full) < rs.rand()).astype(np.uint8)
    if kind == "bern_lane":
        return (rs.rand(*full) < rs.rand(*((1,) + shape))).astype(np.uint8)
    if kind == "burst":
        L = rs.randint(1, max(2, T // 3) + 1, size=(1,) + shape)
        ph = rs.randint(0, 2, size=(1,) + shape)
        return (((t // L) + ph) % 2).astype(np.uint8)
    if kind == "markov":
        stay = rs.rand(*((1,) + shape)) * 0.98
        flip = rs.rand(*full) > stay
        return (np.cumsum(flip, 0) % 2).astype(np.uint8)
    if kind == "alt":
        ph = rs.randint(0, 2, size=(1,) + shape)
        return np.broadcast_to((t + ph) % 2, full).astype(np.uint8).copy()
    if kind == "period3":
        ph = rs.randint(0, 3, size=(1,) + shape)
        return ((t + ph) % 3 == 0).astype(np.uint8)
    if kind == "zeros":
        return np.zeros(full, np.uint8)
    if kind == "ones":
        return np.ones(full, np.uint8)
    if kind == "thermo":
        n = rs.randint(0, T + 1, size=(1,) + shape)
        return np.broadcast_to(t < n, full).astype(np.uint8).copy()
    if kind == "thermo10":
        n = rs.randint(0, T + 1, size=(1,) + shape)
        return np.broadcast_to(t >= n, full).astype(np.uint8).copy()
    if kind == "sparse":
        return (rs.rand(*full) < 2.0 / max(T, 2)).astype(np.uint8)
    if kind == "dense":
        return (rs.rand(*full) >= 2.0 / max(T, 2)).astype(np.uint8)
    if kind == "step":
        p = rs.rand(2, *shape)
        cut = rs.randint(0, T + 1)
        pr = np.where(t < cut, p[0], p[1])
        return (rs.rand(*full) < pr).astype(np.uint8)
    if kind == "late_one":
        x = np.zeros(full, np.uint8)
        x[-1] = 1
        return x
    raise ValueError(kind)


def mix(rs, T, shape, kinds=None):
    """Each slice along the last axis gets its own kind."""
    shape = tuple(shape)
    kinds = kinds or KINDS
    if len(shape) == 0 or int(np.prod(shape)) <= 1:
        return stream(rs, T, shape, kinds[rs.randint(len(kinds))])
    out = np.zeros((T,) + shape, np.uint8)
    for j in range(shape[-1]):
        out[..., j] = stream(rs, T, shape[:-1], kinds[rs.randint(len(kinds))])
    return meet(rs, out) if T >= 12 and rs.rand() < .12 else out


def meet(rs, x):
    """Lanes that part and meet again: in each block of time they all carry the same bits, the same number of 1s in another
    order, or their own bits."""
    T, flat = x.shape[0], x.reshape(x.shape[0], -1)
    t, own, top = 0, int(rs.randint(2, 4)), max(3, T // int(rs.choice([2, 4, 10])))
    while t < T:
        n = int(rs.randint(2, top))
        how = rs.randint(own)
        if how < 2:
            b = flat[t:t + n, rs.randint(flat.shape[1])].copy()
            for j in range(flat.shape[1]):
                flat[t:t + n, j] = b if how else rs.permutation(b)
        t += n
    return flat.reshape(x.shape)


def long(rs, T, k=1):
    """k streams [T, 6] for very long runs: nothing but 1s / 0s, fair, biased, slow bursts, and a late change."""
    out = []
    t = np.arange(T)
    for j in range(k):
        x = np.zeros((T, 6), np.uint8)
        x[:, j % 2] = 1
        x[:, 2] = rs.rand(T) < .5
        x[:, 3] = rs.rand(T) < pick_p(rs)
        x[:, 4] = (t // int(rs.randint(1, max(2, T // 3)))) % 2
        x[:, 5] = np.where(t < T - 200, rs.randint(2), rs.rand(T) < .5)
        out.append(x)
    return out


def pick_p(rs):
    return [.01, .1, .9, .99, .3][rs.randint(5)]


LONG = (70000, 35000)     # beyond the range of 16-bit signed and unsigned counters


def exhaustive(n, k=1):
    """All sequences of n steps over k parallel bit inputs, as lanes: k arrays [n, 2**(n*k)]."""
    total = n * k
    lanes = np.arange(1 << total, dtype=np.int64)
    bits = [((lanes >> i) & 1).astype(np.uint8) for i in range(total)]
    return [np.stack([bits[t * k + j] for t in range(n)]) for j in range(k)]


SHAPES = [(1,), (7,), (3, 5), (2, 3, 4), (1, 1), (4, 1, 3), (2, 2, 1, 3), (64,), (33,), (5, 1), (1, 9), (2, 1, 2, 1, 3), (257,), (17, 16)]


def sobol(dim, width):
    """Independent (Gray code, Joe-Kuo direction numbers by torch's engine) column as integers."""
    import torch
    n = 1 << width
    x = torch.quasirandom.SobolEngine(dim).draw(n)[:, dim - 1].to(torch.float64).numpy()
    return np.floor(x * n).astype(np.int64)


def rng_seq(rng, width, dimr):
    """The sequence the documentation promises for the deterministic generators."""
    n = 1 << width
    if rng in ("sobol", "rc"):
        return sobol(dimr, width)
    if rng in ("race", "tc"):
        return np.arange(n, dtype=np.int64)
    if rng in ("race10", "tc10"):
        return np.arange(n - 1, -1, -1, dtype=np.int64)
    raise ValueError(rng)
