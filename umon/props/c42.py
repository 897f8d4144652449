"""Nothing read was never written: results do not depend on the contents of fresh memory."""
import contextlib
import ctypes
import io
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from .. import zoo
from ..capture import float_shifts
from ..util import rs_of, pick

ID = "C42"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one unit with random configuration, constructed and run three times on equal inputs while every block the allocator hands out and every "
        "tensor or array created without initial values is filled beforehand with a different pattern (zeros; not-a-number / largest integer; random); outputs, "
        "gradients and parameters must be equal; non-trivial when a canary that does read fresh memory is seen to change")
ASSUMPTIONS = ["memory is poisoned through the C allocator's perturbation option and by filling the results of the uninitialised-creation operations"]

LIBC = ctypes.CDLL(None)
M_PERTURB, M_MMAP_THRESHOLD = -6, -3


class Poison(TorchDispatchMode):
    FRESH = ("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided", "resize_", "empty_permuted")

    def __init__(self, kind, rs):
        super().__init__()
        self.kind, self.rs, self.seen = kind, rs, 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        old = args[0].numel() if func.overloadpacket.__name__ == "resize_" else 0
        r = func(*args, **(kwargs or {}))
        if func.overloadpacket.__name__ in self.FRESH and isinstance(r, torch.Tensor) and r.numel() > old:
            self.seen += 1
            flat = torch.as_strided(r.detach(), (r.numel(),), (1,)) if r.is_contiguous() else r.detach()
            (flat[old:] if flat.dim() == 1 else flat).fill_(self.value(r.dtype))
        return r

    def value(self, dt):
        if self.kind == 0:
            return 0
        if dt.is_floating_point:
            return float("nan") if self.kind == 1 else float(self.rs.randn() * 5)
        if dt == torch.bool:
            return self.kind == 1
        return torch.iinfo(dt).max if self.kind == 1 else int(self.rs.randint(-90, 90)) if dt != torch.uint8 else 7


@contextlib.contextmanager
def poisoned(kind, rs):
    m = Poison(kind, rs)
    old = np.empty, np.empty_like

    def filled(f):
        def g(*a, **k):
            r = f(*a, **k)
            if r.dtype.kind in "fiub":
                r.fill(m.value(torch.from_numpy(np.zeros(1, r.dtype)).dtype) if r.dtype.kind != "u" or r.dtype.itemsize == 1 else 7)
                m.seen += 1
            return r
        return g
    np.empty, np.empty_like = filled(old[0]), filled(old[1])
    LIBC.mallopt(M_MMAP_THRESHOLD, 32 << 20)
    LIBC.mallopt(M_PERTURB, [0, 0x5a, 0xa7][kind])
    try:
        with m:
            yield m
    finally:
        LIBC.mallopt(M_PERTURB, 0)
        np.empty, np.empty_like = old[0], old[1]


def canary():
    """does read fresh memory: by the creation operation, and from a block the allocator hands out again"""
    a = torch.empty(64).numpy().tobytes()
    LIBC.malloc.restype = ctypes.c_void_p
    p = LIBC.malloc(ctypes.c_size_t(3000))
    b = ctypes.string_at(p + 64, 2000)
    LIBC.free(ctypes.c_void_p(p))
    return a, b


def cases(tier, seed):
    n = 5 if tier == "quick" else 50
    return [{"unit": u, "rep": r, "cost": 3 if u in zoo.LAYERS else 1} for u in zoo.ALL + zoo.BINARY + ["helpers"] for r in range(n)]


def stream(c, rs):
    u = zoo.make(c["unit"], rs)
    T = int(pick(rs, [10, 40, 90]))
    xs = u.stimulus(rs, T)
    st = "f32" if (u.f32 or u.metric) else pick(rs, ["f32", "f32", "i8", "f64"])
    bt = "f32" if (u.f32 or u.metric) else pick(rs, ["f32", "f32", "i16", "f64"])
    return lambda: u.new(st=st, bt=bt).run(xs, 0, T if xs else 40)


def binary(c, rs):
    b = zoo.binary(c["unit"], rs)
    ins = [b.input(rs) for _ in range(2)]

    def go():
        m = b.new()
        out = []
        for i in ins:
            j = [v.clone().requires_grad_(v.is_floating_point()) if v is not None else None for v in i]
            m.zero_grad()
            o = m(*j)
            o = o if isinstance(o, (tuple, list)) else [o]
            out += [v.detach().numpy().copy() for v in o]
            s = sum((v * torch.arange(1, v.numel() + 1, dtype=v.dtype).reshape(v.shape)).sum() for v in o)
            if s.requires_grad:
                s.backward()
                out += [v.grad.numpy().copy() for v in j if v is not None and v.grad is not None]
                out += [p.grad.numpy().copy() for p in m.parameters() if p.grad is not None]
        return out + [v.detach().numpy().copy() for v in m.state_dict().values() if isinstance(v, torch.Tensor)]
    return go


def helpers(c, rs):
    import UnarySim.stream as S
    from UnarySim.kernel import utils
    w = int(rs.randint(3, 9))
    src = torch.from_numpy(rs.uniform(-1, 1, (7,)).astype(np.float32))
    img = torch.from_numpy(rs.randn(2, 3, 5, 5).astype(np.float32))
    seed = int(rs.randint(1 << 30))

    def go():
        torch.manual_seed(seed)
        np.random.seed(seed % (1 << 31))
        out = [S.BinGen(src, {"width": w, "mode": "bipolar"}, {"rtype": torch.float32})()]
        for r in ("sobol", "lfsr", "sys", "rc", "tc", "race"):
            out.append(S.RNG({"width": w, "dimr": 2, "rng": r}, {"rtype": torch.float32})())
        out.append(utils.truncated_normal(torch.empty(4, 33), 0.1, .5))
        with contextlib.redirect_stdout(io.StringIO()):
            utils.tensor_unary_outlier(src)
        out += [torch.as_tensor(v) for v in utils.rshift_offset(src, src.abs() + .1, 7, 6)]
        out.append(S.RawScale({"quantile": .8})(img))
        torch.manual_seed(seed)
        from UnarySim.kernel import rnn
        out.append(rnn.HardMGUCell(3, 4)(src[:6].reshape(2, 3), None))
        return [o.detach().numpy().copy() for o in out if isinstance(o, torch.Tensor)]
    return go


def run(c, ctx):
    rs = rs_of(c)
    with float_shifts() if c["unit"] in ("round", "hardmgufxp") else contextlib.nullcontext():
        go = (helpers if c["unit"] == "helpers" else stream if c["unit"] in zoo.ALL else binary)(c, rs)
        res, can = [], []
        for k in range(3):
            with poisoned(k, np.random.RandomState(k)) as m:
                can.append(canary())
                res.append(go())
                ctx.note("fresh_tensors_poisoned", m.seen)
            ctx.event(len(res[-1][0]) if c["unit"] in zoo.ALL else len(res[-1]))
    for k in (1, 2):
        ctx.check(len(res[0]) == len(res[k]), "%s: number of results under poisoned memory" % c["unit"])
        for j, (a, b) in enumerate(zip(res[0], res[k])):
            ctx.values += a.size
            if a.dtype != b.dtype or a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
                ctx.fail("%s: result %d depends on the contents of memory that was never written" % (c["unit"], j), zeros=a, pattern=b, kind=k)
    live = [len({x[i] for x in can}) for i in (0, 1)]
    ctx.note("canary_saw_creation", live[0] > 1)
    ctx.note("canary_saw_allocator", live[1] > 1)
    if min(live) > 1:
        ctx.mark(c["unit"], [a.reshape(-1)[:50] for a in res[0]][0] if res[0] else 0, c["rep"])
    ctx.sample = {"unit": c["unit"], "canary_patterns": live}
