"""What a workload shows the library: features of every call of every module (development aid, UMON_FEATURES=file)."""
import functools
import json
import threading
import torch

SEEN = {}
LEVELS = (1, 2, 3, 10, 64, 128, 129, 256, 257, 300, 512, 513, 1024, 1025, 2048, 4096, 16384, 65536)


def bucket(v):
    for b in (0, 1, 2, 8, 32, 64, 128, 256, 512, 1024, 4096, 1 << 14, 1 << 20):
        if v <= b:
            return "<=%d" % b
    return "huge"


def tensor(p, v, put):
    put(p + " ndim %d" % v.dim())
    put(p + " numel " + bucket(v.numel()))
    put(p + " " + str(v.dtype)[6:])
    if not v.is_contiguous():
        put(p + " noncontig")
    if any(s == 0 and n > 1 for s, n in zip(v.stride(), v.shape)):
        put(p + " expanded")
    if v.storage_offset():
        put(p + " offset")
    if v.requires_grad:
        put(p + " requires_grad" + ("" if v.grad_fn is None else " nonleaf"))
    if type(v) is not torch.Tensor:
        put(p + " " + type(v).__name__)
    for i, n in enumerate(v.shape[:5]):
        put(p + " dim%d %s" % (i, bucket(n)))
    if v.numel() == 0:
        return
    w = v.detach().to(torch.float64)
    if w.numel() > 1 << 16:
        w = w.reshape(-1)[:1 << 16]
    lo, hi = float(w.min()), float(w.max())
    if lo == hi:
        put(p + " constant" + (" %g" % lo if lo in (0, 1, -1) else ""))
    if lo < 0:
        put(p + " negative")
    if hi > 1:
        put(p + " above 1")
    a = max(abs(lo), abs(hi))
    for k in (1e3, 1e6, 1e30):
        if a > k:
            put(p + " above %g" % k)
    if a != a:
        put(p + " nan")
    if 0 < a < 1e-3:
        put(p + " tiny")


def call(cls, m, name, args, kw):
    d = SEEN.setdefault(cls, {})

    def put(f):
        f = name + ": " + f
        d[f] = d.get(f, 0) + 1
    st = m.__dict__.setdefault("_umon_feat", {"n": 0})
    st["n"] += 1
    if st["n"] in LEVELS:
        put("call %d" % st["n"])
    if m.training:
        put("training")
    else:
        put("eval")
    put("grad on" if torch.is_grad_enabled() else "grad off")
    if torch.is_inference_mode_enabled():
        put("inference mode")
    if threading.current_thread() is not threading.main_thread():
        put("other thread")
    put("positional %d" % len(args))
    ids = []
    for i, v in list(enumerate(args)) + sorted(kw.items()):
        p = "arg %s" % i
        if isinstance(v, torch.Tensor):
            tensor(p, v, put)
            ids.append((id(v), tuple(v.shape), v.dtype))
        else:
            put(p + " is %s" % (repr(v)[:30]))
    if len(ids) > 1 and len({i[0] for i in ids}) < len(ids):
        put("same object twice")
    last = st.get("ids")
    if last and len(last) == len(ids):
        for a, b in zip(last, ids):
            if a[1] != b[1]:
                put("shape changes between calls")
            if a[2] != b[2]:
                put("type changes between calls")
    st["ids"] = ids
    if st["n"] == 1:
        for src in ("hwcfg", "swcfg"):
            for k, v in getattr(m, src, {}).items():
                if isinstance(v, (bool, str, type(None), torch.dtype)):
                    put("%s %s=%s" % (src, k, v))
                elif isinstance(v, (int, float)):
                    put("%s %s=%s" % (src, k, v if v == int(v) and abs(v) < 40 else ("frac" if v != int(v) else "big")))
                elif isinstance(v, torch.Tensor):
                    put("%s %s tensor" % (src, k))


def install():
    import UnarySim.stream, UnarySim.kernel, UnarySim.metric.metric
    for mod in (UnarySim.stream, UnarySim.kernel, UnarySim.metric.metric):
        for n, c in list(vars(mod).items()):
            if isinstance(c, type) and issubclass(c, torch.nn.Module) and c.__module__.startswith("UnarySim"):
                for meth in ("forward", "Monitor"):
                    f = c.__dict__.get(meth)
                    if f is None or hasattr(f, "_umon"):
                        continue

                    def wrap(f=f, n=n, meth=meth):
                        @functools.wraps(f)
                        def g(self, *a, **k):
                            try:
                                call(n, self, meth, a, k)
                            except Exception:
                                pass
                            return f(self, *a, **k)
                        g._umon = True
                        return g
                    setattr(c, meth, wrap())


def dump(path, pid):
    global SEEN
    if SEEN:
        with open(path, "a") as f:
            f.write(json.dumps([pid, SEEN]) + "\n")
    SEEN = {}
