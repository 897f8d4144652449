"""Small helpers shared by the property modules."""
import numpy as np
import torch

DT = {"f32": torch.float32, "f64": torch.float64, "f16": torch.float16, "bf16": torch.bfloat16,
      "i8": torch.int8, "i16": torch.int16, "i32": torch.int32, "i64": torch.int64}


def tt(bits, dtype="f32"):
    return torch.from_numpy(np.ascontiguousarray(bits)).to(DT[dtype] if isinstance(dtype, str) else dtype)


def sw(stype="f32", btype="f32", rtype="f32"):
    return {"stype": DT[stype], "btype": DT[btype], "rtype": DT[rtype]}


def rs_of(case):
    return np.random.RandomState((case.get("seed", 0) * 2654435761 + 97) % (2 ** 32))


def pick(rs, seq):
    return seq[rs.randint(len(seq))]


def both(arr):
    """the bits are not constant"""
    return bool(np.any(arr)) and not bool(np.all(arr))


def grid_values(rs, shape, width, mode, frac=True):
    """float32 sources whose scaled value is exact: k/2^w plus a quarter/0.4375-LSB dither; ends included."""
    n = 1 << width
    k = rs.randint(0, n + 1, size=shape).astype(np.float64)
    if frac:
        k = np.clip(k + np.array([-0.4375, -0.25, 0, 0, 0.25, 0.4375])[rs.randint(0, 6, size=shape)], 0, n)
    ends = rs.rand(*shape)
    k = np.where(ends < 0.04, 0, np.where(ends > 0.96, n, k))
    v = k / n
    if mode == "bipolar":
        v = 2 * v - 1
    return v.astype(np.float32)


def noncontig(t):
    """Same values through a transposed/strided view (what users get from slicing)."""
    if t.dim() >= 2:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    base = torch.zeros(t.numel() * 2, dtype=t.dtype)
    base[::2] = t.reshape(-1)
    return base[::2].view(-1)[: t.numel()].reshape(t.shape) if t.dim() == 1 else t


LAYOUTS = ("permuted", "strided", "offset", "expanded", "parameter", "numpy")


def laid(t, how, rs=None):
    """The same values in another memory layout (what users get from slicing, transposing, broadcasting, numpy)."""
    n = t.dim()
    if how == "permuted" and n >= 2:
        order = list(range(n))[::-1] if rs is None else [int(i) for i in rs.permutation(n)]
        back = [order.index(i) for i in range(n)]
        return t.permute(order).contiguous().permute(back)
    if how == "strided" and n:
        base = torch.full(tuple(t.shape[:-1]) + (2 * t.shape[-1] + 1,), 1, dtype=t.dtype)
        base[..., 1::2] = t
        return base[..., 1::2]
    if how == "offset":
        base = torch.full((t.numel() + 7,), 1, dtype=t.dtype)
        base[5:5 + t.numel()] = t.reshape(-1)
        return base[5:5 + t.numel()].view(t.shape)
    if how == "expanded" and n:
        for d in range(n):
            one = t.narrow(d, 0, 1)
            if t.shape[d] > 1 and bool((one == t).all()):
                return one.clone().expand(t.shape)
    if how == "parameter":
        return torch.nn.Parameter(t.clone(), requires_grad=False)
    if how == "numpy" and t.dtype != torch.bfloat16:
        return torch.from_numpy(np.array(t.numpy()))
    return t


def anyhow(t, rs, p=.3):
    """t itself, or in a share p of the calls the same values in another layout."""
    if t is None or rs.rand() >= p:
        return t
    return laid(t, LAYOUTS[rs.randint(len(LAYOUTS))], rs)
