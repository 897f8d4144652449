"""Every RTL block: elaborates, settles, and starts afresh at every reset."""
import glob
import os

import numpy as np
from .. import env, sv
from ..util import rs_of

ID = "C45"
RULE = ("one case = one RTL file, executed from two random power-up states under random inputs; non-trivial when an output changed "
        "after reset; every output is compared every cycle between the two runs, and between the run before and after a reset in the middle")
ASSUMPTIONS = ["two-state simulation; every register starts with a random value", "clock and reset are driven by the harness, inputs change after the falling edge"]

HW = os.path.join(env.REPO, "hw")
# drafts that are not SystemVerilog (trailing comma, assignments outside a process), and constructs outside the interpreter
SKIP = {"kernel/old/add/apcadd16.sv", "stream/old/Sobol8bit/SobolRNGnine.sv", "stream/old/Sobol8bit/SobolRNGtwo.sv",
        "kernel/old/MAC16/bMAC_SIMD/data_buf.sv"}


def files():
    out = []
    for f in sorted(glob.glob(HW + "/**/*.sv", recursive=True)):
        r = os.path.relpath(f, HW)
        if r.endswith("_tb.sv") or r in SKIP or "Def.sv" in r or os.path.getsize(f) == 0:
            continue
        out.append(r)
    return out


def cases(tier, seed):
    out = []
    for r in files():
        big = "/MAC16/" in r
        for rep in range(2 if tier == "quick" and big else 5 if tier == "quick" else 30):
            out.append({"f": r, "T": 60 if big else 250, "rep": rep, "cost": 6 if big else 1})
    return out


def top(mods, r):
    n = os.path.basename(r)[:-3]
    return n if n in mods else (list(mods)[-1] if mods else None)


PARAMS = {"DEP": (2, 7)}


def run(c, ctx):
    try:
        watch(c, ctx)
    except (sv.SVUnsupported, SyntaxError, RecursionError, MemoryError):
        ctx.note("outside_the_interpreter")


def watch(c, ctx):
    rs = rs_of(c)
    try:
        mods = sv.load(os.path.join(HW, c["f"]))
    except sv.SVUnsupported:
        raise
    except sv.SVError as e:
        ctx.fail("the block does not parse", file=c["f"], error=str(e))
        return
    if not mods:
        ctx.note("files_without_module")
        ctx.mark("empty", c["f"])
        return
    t = top(mods, c["f"])
    params = {}
    if c["rep"] and c["f"].count("/") == 2 and "old" not in c["f"]:
        for n, *_ in mods[t]["params"]:
            if n == "DEP" and "CORDIV" not in c["f"] and "BISQRT_S_IS" not in c["f"]:
                params[n] = int(rs.randint(2, 8))
    try:
        a = sv.Sim(mods, t, params, seed=int(rs.randint(1 << 30)))
        b = sv.Sim(mods, t, params, seed=int(rs.randint(1 << 30)))
    except sv.SVUnsupported:
        raise
    except sv.SVError as e:
        ctx.fail("the block does not elaborate or settle", file=c["f"], error=str(e))
        return
    ins = [n for d, n in a.top.ports if d == "input" and n not in ("clk", "rst_n", "rst")]
    outs = [n for d, n in a.top.ports if d == "output"]
    rst, on = ("rst_n", 0) if "rst_n" in a.top.names else ("rst", 1)
    seq = rst in a.top.names and "clk" in a.top.names

    def stimulus(T):
        p = rs.uniform(.05, .95)
        vs = []
        for _ in range(T):
            v = {}
            for n in ins:
                s = a.top.names[n]
                val = lambda: (int(rs.rand() < p) if s.w == 1 else int(rs.randint(0, 1 << min(s.w, 30)))
                               if s.w <= 30 else int.from_bytes(rs.bytes((s.w + 7) // 8), "little"))
                v[n] = [val() for _ in range(s.dims[1])] if s.dims else val()
            vs.append(v)
        return vs

    st = stimulus(c["T"])
    look = lambda s: {n: s.peek(n) for n in outs}
    try:
        if not seq:
            seen = set()
            for t_, v in enumerate(st):
                a.poke(**v)
                b.poke(**v)
                seen.add(repr(look(a)))
                ctx.check(look(a) == look(b), "a combinational block depends on its inputs alone", file=c["f"], inputs=v,
                          first=look(a), second=look(b))
            ctx.event(c["T"])
            if len(seen) > 1 or not outs:
                ctx.mark(c["f"], params)
            return
        a.reset(rst, on, **st[0])
        b.reset(rst, on, **st[0])
        first = []
        for t_, v in enumerate(st):
            a.poke(**v)
            b.poke(**v)
            oa, ob = look(a), look(b)
            ctx.check(oa == ob, "after a reset nothing depends on the state before it", file=c["f"], cycle=t_, first=oa, second=ob)
            first.append(oa)
            a.tick()
            b.tick()
            ctx.check(look(a) == look(b), "after a reset nothing depends on the state before it (after the edge)", file=c["f"], cycle=t_)
        # reset in the middle, between two clock edges: at once, and with the same future as at first
        k = int(rs.randint(1, 20))
        for v in stimulus(k):
            a.poke(**v)
            a.tick()
        a.poke(**st[0])
        a.poke(**{rst: on})
        ctx.check(look(a) == first[0], "a reset acts without waiting for a clock edge", file=c["f"], after=look(a), expected=first[0])
        a.tick()
        ctx.check(look(a) == first[0], "a clock edge during reset changes nothing", file=c["f"], after=look(a), expected=first[0])
        a.poke(**{rst: 1 - on})
        for t_, v in enumerate(st):
            a.poke(**v)
            ctx.check(look(a) == first[t_], "after a reset in the middle the block repeats itself", file=c["f"], cycle=t_,
                      got=look(a), expected=first[t_])
            a.tick()
    except sv.SVUnsupported:
        raise
    except sv.SVError as e:
        ctx.fail("the block does not settle", file=c["f"], error=str(e))
        return
    ctx.event(2 * c["T"])
    ctx.note("process_evaluations", a.evals + b.evals)
    if len({repr(o) for o in first}) > 1:
        ctx.mark(c["f"], params)
    ctx.sample = {"file": c["f"], "signals": len(a.sigs), "processes": len(a.comb) + len(a.ff)}
