"""Buffers handed over and results handed out are separate from the state of a module."""
import contextlib
import numpy as np
import torch
import UnarySim.stream as S
from .. import zoo
from ..capture import float_shifts
from ..util import rs_of, pick, grid_values, DT

ID = "C37"
RULE = ("one case = one unit with random configuration, run once normally and once by a caller that reuses everything: input buffers are "
        "overwritten after each call, returned tensors are overwritten after being read, and the configuration dictionaries, sources and (streaming "
        "units) weights given at construction are overwritten afterwards; results kept by the caller are compared again at the end; non-trivial when at least 10 outputs were overwritten; all values must agree")
ASSUMPTIONS = ["a result that is the input tensor itself (pass-through) is not overwritten", "binary-interface layers share the external weight tensor by design",
               "the metrics return their own parameters; only copies of those are looked at"]


def cases(tier, seed):
    n = 6 if tier == "quick" else 60
    return [{"unit": u, "rep": r, "cost": 3 if u in zoo.LAYERS else 1} for u in zoo.ALL + zoo.BINARY for r in range(n)] + \
           [{"unit": "siblings", "rep": r} for r in range(3 * n)] + [{"unit": u, "seldom": True, "rep": r} for u in ("correlation", "progerror", "stability") for r in range(3 * n)]


GARBAGE = {"width": 77, "mode": "unipolar", "scale": 13, "depth": 1, "rng": "no", "dimr": 99, "entry": 3, "dima": 5}


def spoil(d):
    for k in list(d):
        v = d[k]
        d[k] = torch.int64 if isinstance(v, torch.dtype) else GARBAGE.get(k, None)


def overlap(o, ins):
    p = o.untyped_storage().data_ptr()
    return any(i is not None and i.untyped_storage().data_ptr() == p for i in ins)


def run(c, ctx):
    if c.get("seldom"):
        return seldom(c, ctx)
    if c["unit"] == "siblings":
        return siblings(c, ctx)
    with float_shifts() if c["unit"] in ("round", "hardmgufxp") else contextlib.nullcontext():
        (stream if c["unit"] in zoo.ALL else binary)(c, ctx)


def stream(c, ctx):
    rs = rs_of(c)
    u = zoo.make(c["unit"], rs)
    T = int(pick(rs, [12, 40, 80]))
    xs = u.stimulus(rs, T)
    T = T if xs else 40
    st = "f32" if (u.f32 or u.metric) else pick(rs, ["f32", "f32", "i8", "f64", "i64"])
    bt = "f32" if (u.f32 or u.metric) else pick(rs, ["f32", "f32", "i8", "i16", "f64"])
    base = u.new(st=st, bt=bt).run(xs, 0, T)
    what = [bool(v) for v in rs.rand(3) < .7]       # buffers, results, construction arguments
    if not any(what):
        what = [True] * 3
    zoo.GIVEN.clear()
    r = u.new(st=st, bt=bt)
    given = list(zoo.GIVEN)
    done = 0
    if what[2]:
        for d in list(u.cfgs) + given:
            if isinstance(d, dict):
                spoil(d)
            else:
                d.fill_(0.123)
    bufs, kept = None, []
    for t in range(T):
        ins = r.inputs(t, xs)
        if what[0]:
            if bufs is None:
                bufs = [v.clone() for v in ins]
            for b, v in zip(bufs, ins):
                b.copy_(v)
            ins = bufs
        o = r.call(t, ins)
        ctx.event()
        for j, v in enumerate(o):
            n = len(r.shape)
            ctx.eq(v, base[j][t], "%s output %d when the caller overwrites %s" % (u.name, j, [w for w, f in zip(("buffers", "results", "arguments"), what) if f]), cycle=t)
        if what[1] and not u.metric:
            for v in o:
                if not overlap(v, ins):
                    v.detach().fill_(1 if t % 2 else 0)
                    done += 1
        if not u.metric:
            kept += [(t, j, v, v.detach().clone()) for j, v in enumerate(o) if not overlap(v, ins)]
        if what[0]:
            for b in bufs:
                b.fill_(t % 2)
            done += 1
    for t, j, v, was in kept:
        ctx.eq(v, was.numpy(), "%s output %d, kept by the caller since the call that returned it" % (u.name, j), cycle=t)
    ctx.note("results_kept", len(kept))
    ctx.note("overwritten", done)
    if done >= 10 or what[2]:
        ctx.mark(u.name, base[-1][:40], str(what))
    ctx.sample = {"unit": u.name, "T": T, "caller_overwrites": what}


def siblings(c, ctx):
    """Generators hand out their own sequence or code; one that is overwritten must not reach another generator or a stream built from that."""
    rs = rs_of(c)
    w = int(rs.randint(2, 9))
    h = {"width": w, "dimr": int(pick(rs, [1, 1, 2, 5])), "rng": pick(rs, ["Sobol", "rc", "race", "tc10"]), "mode": pick(rs, ["unipolar", "bipolar"])}
    dt = {"rtype": DT[pick(rs, ["f32", "f32", "f64", "i16", "i64"])]}
    src = torch.from_numpy(grid_values(rs, (4, 3), w, h["mode"]))
    gens = [S.RNG(dict(h), dict(dt)) for _ in range(3)]
    bins = [S.BinGen(src.clone(), dict(h), dict(dt)) for _ in range(3)]
    seq, code = gens[0]().detach().clone(), bins[0]().detach().clone()
    bs = S.BSGen(bins[1](), gens[1](), {"stype": torch.float})
    idx = torch.from_numpy(rs.randint(0, 1 << w, (30,)))
    want = [bs(i).clone() for i in idx]
    gens[0]().data.fill_(1)
    bins[0]().data.fill_(1)
    ctx.event(6)
    for k in (1, 2):
        ctx.eq(gens[k](), seq.numpy(), "sequence of another generator")
        ctx.eq(bins[k](), code.numpy(), "code of another source")
    ctx.eq(S.RNG(dict(h), dict(dt))(), seq.numpy(), "sequence of a generator built later")
    for i, v in zip(idx, want):
        ctx.eq(bs(i), v.numpy(), "stream built from another generator")
    ctx.mark("siblings", w, seq.numpy())
    ctx.sample = {"unit": "siblings", "width": w, "rng": h["rng"]}


def seldom(c, ctx):
    """A metric that is fed every cycle and read now and then."""
    rs = rs_of(c)
    u = zoo.make(c["unit"], rs)
    T = int(pick(rs, [12, 40, 80]))
    xs = u.stimulus(rs, T)
    base = u.new().run(xs, 0, T)
    r = u.new()
    m, bufs, read = r.keep["m"], [v.clone() for v in r.inputs(0, xs)], 0
    p = float(pick(rs, [0, .1, .3]))
    for t in range(T):
        for b, v in zip(bufs, r.inputs(t, xs)):
            b.copy_(v)
        m.Monitor(*bufs)
        ctx.event()
        for b in bufs:
            b.fill_(pick(rs, [0, 1, 77.]))
        if t == T - 1 or rs.rand() < p:
            o = m()
            for j, v in enumerate(o if isinstance(o, tuple) else [o]):
                ctx.eq(v, base[j][t], "%s output %d, read now and then, when the caller refills the buffers" % (u.name, j), cycle=t)
            read += 1
    ctx.note("seldom_reads", read)
    ctx.mark(u.name, base[-1][-1], p)
    ctx.sample = {"unit": u.name, "T": T, "reads": read}


def binary(c, ctx):
    rs = rs_of(c)
    u = zoo.binary(c["unit"], rs)
    args = [u.input(rs) for _ in range(4)]
    own = [[None if v is None else v.clone() for v in a] for a in args]
    ref = [u.new()(*[None if v is None else v.clone() for v in a]).detach().clone() for a in own]
    m = u.new()
    for d in u.given:
        if isinstance(d, dict):
            spoil(d)
    order = [int(i) for i in rs.randint(0, 4, size=8)]
    kept = []
    for i in order:
        buf = [None if v is None else v.clone() for v in own[i]]
        y = m(*buf)
        ctx.event()
        ctx.eq(y, ref[i].numpy(), "%s when the caller overwrites results, buffers and configuration" % u.name)
        if not overlap(y, buf):
            if rs.rand() < .7:
                y.detach().fill_(7.5)
            kept.append((y, y.detach().clone()))
        for b in buf:
            if b is not None:
                b.fill_(-3.25)
    for y, was in kept:
        ctx.eq(y.detach(), was.numpy(), "%s result, kept by the caller since the call that returned it" % u.name)
    for i, (a, b) in enumerate(zip(args, own)):
        ctx.check(all(p is None or torch.equal(p, q) for p, q in zip(a, b)), "arguments stay")
    ctx.mark(u.name, ref[0].numpy(), str(order))
    ctx.sample = {"unit": u.name, "calls": order}
