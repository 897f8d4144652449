"""Convolution geometry helpers against real (meta-device) convolutions."""
import numpy as np
import torch
import torch.nn.functional as F
from UnarySim.kernel.utils import (conv2d_output_shape, convtransp2d_output_shape, conv2d_get_padding, convtransp2d_get_padding, num2tuple)
from ..util import rs_of, pick

ID = "C26"
RULE = ("one case = a batch of random geometries, each given as numbers or pairs; non-trivial when the geometry is not square; the helper's "
        "shapes are compared with the shapes of real convolutions, the paddings by applying them")
ASSUMPTIONS = ["geometries that yield at least one output pixel"]


def cases(tier, seed):
    return [{"n": 60, "rep": r} for r in range(60 if tier == "quick" else 600)]


def either(rs, v):
    """a pair, or one number when both are equal"""
    return v[0] if v[0] == v[1] and rs.rand() < .7 else (torch.Size(v) if min(v) >= 0 and rs.rand() < .2 else tuple(v))


def run(c, ctx):
    rs = rs_of(c)
    pr = lambda lo, hi: (int(rs.randint(lo, hi)),) * 2 if rs.rand() < .4 else (int(rs.randint(lo, hi)), int(rs.randint(lo, hi)))
    ctx.check(num2tuple(3) == (3, 3) and num2tuple((2, 5)) == (2, 5), "a number means the same in both directions")
    last = None
    for _ in range(c["n"]):
        k, s, p, d = pr(1, 8), pr(1, 6), pr(0, 5), pr(1, 5)
        hw = pr(1, 40)
        if any(hw[i] + 2 * p[i] < d[i] * (k[i] - 1) + 1 for i in (0, 1)):
            continue
        got = conv2d_output_shape(either(rs, hw), either(rs, k), either(rs, s), either(rs, p), either(rs, d))
        ctx.event()
        y = F.conv2d(torch.empty(1, 1, *hw, device="meta"), torch.empty(1, 1, *k, device="meta"), None, s, p, d)
        want = tuple(y.shape[2:])
        ctx.check(tuple(got) == want, "shape of a convolution", got=str(got), want=str(want), geometry=str((hw, k, s, p, d)))
        # asymmetric padding: ((top, bottom), (left, right))
        q = tuple((int(rs.randint(0, 4)), int(rs.randint(0, 4))) for _ in (0, 1))
        if all(hw[i] + sum(q[i]) >= d[i] * (k[i] - 1) + 1 for i in (0, 1)):
            x = F.pad(torch.empty(1, 1, *hw, device="meta"), (q[1][0], q[1][1], q[0][0], q[0][1]))
            y = F.conv2d(x, torch.empty(1, 1, *k, device="meta"), None, s, 0, d)
            got = conv2d_output_shape(either(rs, hw), either(rs, k), either(rs, s), q, either(rs, d))
            ctx.event()
            ctx.check(tuple(got) == tuple(y.shape[2:]), "shape of a convolution with uneven padding", got=str(got), want=str(tuple(y.shape[2:])), geometry=str((hw, k, s, q, d)))
        # padding that gives a wanted output
        want = tuple(max(1, -(-hw[i] // s[i])) if rs.rand() < .5 else int(rs.randint(1, 20)) for i in (0, 1))
        pads = conv2d_get_padding(either(rs, hw), either(rs, want), either(rs, k), either(rs, s), either(rs, d))
        ctx.event()
        flat = [v for pp in pads for v in pp]
        ctx.check(all(0 <= pp[1] - pp[0] <= 1 for pp in pads), "padding is split evenly, the second side takes the odd one", pads=str(pads))
        if all(sum(pp) >= 0 for pp in pads):
            x = F.pad(torch.empty(1, 1, *hw, device="meta"), (flat[2], flat[3], flat[0], flat[1])) if min(flat) >= 0 else None
            if x is not None:
                y = F.conv2d(x, torch.empty(1, 1, *k, device="meta"), None, s, 0, d)
                ctx.check(tuple(y.shape[2:]) == want, "the padding yields the wanted convolution output", got=str(tuple(y.shape[2:])), want=str(want), geometry=str((hw, k, s, d, pads)))
            ctx.check(tuple(conv2d_output_shape(hw, k, s, pads, d)) == want, "padding and shape helpers agree", geometry=str((hw, k, s, d, pads)))
        # transposed convolution
        op = tuple(int(rs.randint(0, max(s[i], d[i]))) for i in (0, 1))
        hw2 = pr(1, 12)
        want = tuple((hw2[i] - 1) * s[i] - 2 * p[i] + d[i] * (k[i] - 1) + op[i] + 1 for i in (0, 1))
        if min(want) >= 1:
            y = F.conv_transpose2d(torch.empty(1, 1, *hw2, device="meta"), torch.empty(1, 1, *k, device="meta"), None, s, p, op, 1, d)
            got = convtransp2d_output_shape(either(rs, hw2), either(rs, k), either(rs, s), either(rs, p), either(rs, d), either(rs, op))
            ctx.event()
            ctx.check(tuple(got) == tuple(y.shape[2:]), "shape of a transposed convolution", got=str(got), want=str(tuple(y.shape[2:])), geometry=str((hw2, k, s, p, d, op)))
            full = tuple((hw2[i] - 1) * s[i] + d[i] * (k[i] - 1) + op[i] + 1 for i in (0, 1))
            target = tuple(max(1, full[i] - int(rs.randint(0, 7))) for i in (0, 1))
            pads = convtransp2d_get_padding(either(rs, hw2), either(rs, target), either(rs, k), either(rs, s), either(rs, d), either(rs, op))
            ctx.event()
            ctx.check(all(pads[i][0] + pads[i][1] == full[i] - target[i] and 0 <= pads[i][1] - pads[i][0] <= 1 for i in (0, 1)),
                      "padding of a transposed convolution", pads=str(pads), target=str(target), geometry=str((hw2, k, s, d, op)))
            ctx.check(tuple(convtransp2d_output_shape(hw2, k, s, pads, d, op)) == target, "transposed padding and shape helpers agree", geometry=str((hw2, k, s, d, op, pads)))
            if pads[0][0] == pads[0][1] and pads[1][0] == pads[1][1]:
                y = F.conv_transpose2d(torch.empty(1, 1, *hw2, device="meta"), torch.empty(1, 1, *k, device="meta"), None, s, (pads[0][0], pads[1][0]), op, 1, d)
                ctx.check(tuple(y.shape[2:]) == target, "the padding yields the wanted transposed output", got=str(tuple(y.shape[2:])), want=str(target))
        last = (hw, k, s, p, d)
        if k[0] != k[1] or s[0] != s[1] or p[0] != p[1]:
            ctx.mark(hw, k, s, p, d)
    ctx.sample = {"last": str(last)}
