"""The library leaves the process alone, and the process's settings do not matter."""
import contextlib
import json
import os
import random
import subprocess
import sys
import numpy as np
import torch
from .. import env, zoo
from ..capture import float_shifts
from ..procwatch import Watch, compare, randoms, settings, surroundings
from ..util import rs_of, pick

ID = "C46"
ANY_GRAD = False    # asks for gradients, or chooses the mode itself
RULE = ("one case = one unit, layer, cell, metric or helper: constructed and used under randomly chosen settings of the process while the random states, the "
        "settings, opened files, started processes and printed text are watched, and compared with a use under the usual settings; plus an import in "
        "a fresh process, and fresh processes with assertions off and other hash seeds; non-trivial when the watched use gave varied results")
ASSUMPTIONS = ["Python's audit events report every file opened and every process started from Python code",
               "constructors may draw random initial weights and random sequences from the global generators, but must not reseed them",
               "no change of the default number type and no autocast: PyTorch itself then computes other numbers"]

QUIET = ["print", "warnings", "numpy errors", "recursion", "logging", "gc", "decimal", "directory", "environment", "precision"]
MODES = ["threads", "deterministic", "anomaly", "no_grad", "inference", "device"]


def cases(tier, seed):
    n = 8 if tier == "quick" else 70
    m = 1 if tier == "quick" else 6
    return ([{"unit": u, "rep": r, "cost": 3 if u in zoo.LAYERS else 1} for u in zoo.ALL + zoo.BINARY for r in range(n)] +
            [{"unit": "report", "rep": r} for r in range(4 * n)] + [{"unit": "helpers", "rep": r} for r in range(4 * n)] +
            [{"unit": "import", "rep": r, "cost": 9} for r in range(m)] + [{"unit": "process", "rep": r, "cost": 19} for r in range(4 * m)])


def run(c, ctx):
    rs = rs_of(c)
    nm = c["unit"]
    if nm in ("import", "process"):
        return {"import": importing, "process": process}[nm](c, ctx, rs)
    with float_shifts() if nm in ("round", "hardmgufxp") else contextlib.nullcontext():
        {"report": report, "helpers": helpers}.get(nm, unit)(c, ctx, rs)


def job(nm, rs):
    """new() -> something to use; use(it) -> list of arrays"""
    if nm in zoo.ALL:
        u = zoo.make(nm, rs)
        T = int(pick(rs, [8, 30, 70]))
        xs = u.stimulus(rs, T)
        ty = {} if (u.f32 or u.metric) else {"st": pick(rs, ["f32", "f32", "i8"]), "bt": pick(rs, ["f32", "f32", "i16"])}
        return lambda: u.new(**ty), lambda r: r.run(xs, 0, T if xs else 40)
    b = zoo.binary(nm, rs)
    ins = [b.input(rs) for _ in range(2)]

    def use(m):
        out = []
        for i in ins:
            o = m(*[None if v is None else v.clone() for v in i])
            out += [v.detach().to(torch.float64).numpy().copy() for v in (o if isinstance(o, (tuple, list)) else [o])]
        return out
    return b.new, use


def unit(c, ctx, rs):
    nm = c["unit"]
    new, use = job(nm, rs)
    draws = ("PyTorch", "numpy") if nm in zoo.LAYERS else ("PyTorch",) if nm in zoo.BINARY[:13] else ()     # random initial weights and sequences
    seed = int(rs.randint(1 << 30))

    def start(k):
        random.seed(k)
        np.random.seed(k % (1 << 31))
        torch.manual_seed(k)
    start(seed)
    torch.set_grad_enabled(True)
    with Watch(ctx, "%s" % nm, draws=("PyTorch", "numpy")):
        want = use(new())
    names = [n for n in QUIET if rs.rand() < .5]
    modes = [n for n in MODES if rs.rand() < .2] if rs.rand() < .8 else []
    inside = nm in zoo.ALL and rs.rand() < .5       # construction under the modes too
    start(seed)
    with surroundings(rs, names):
        with surroundings(rs, modes if inside else []):
            with Watch(ctx, "constructing %s" % nm, draws=draws) as a:
                m = new()
        mid = randoms()
        with surroundings(rs, modes):
            with Watch(ctx, "using %s" % nm, draws=("PyTorch",) if nm == "hubmgu" else ()) as b:       # hubmgu builds its layers as it goes
                got = use(m)
            ctx.check(not a.out.getvalue() and not b.out.getvalue(), "%s prints" % nm, text=(a.out.getvalue() + b.out.getvalue())[:200])
            hold = settings()
            with Watch(ctx, "printing %s" % nm):
                mod = m.keep["m"] if nm in zoo.ALL else m
                repr(mod)
                if isinstance(mod, torch.nn.Module):
                    mod.state_dict()
                    list(mod.modules())
            compare(ctx, hold, settings(), "using %s" % nm)
    ctx.event(len(want[0]) if want else 1)
    ctx.check(len(got) == len(want), "%s: number of results under other settings" % nm, settings=names + modes)
    for a, b in zip(want, got):
        ctx.values += a.size
        if a.shape != b.shape or not (np.array_equal(a, b, equal_nan=True) if nm in zoo.ALL and nm not in zoo.METRICS else np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True)):
            ctx.fail("%s: results depend on settings of the process" % nm, settings=names + modes, usual=a, other=b)
    # no reseeding: after the construction the states still tell the seeds apart
    start(seed + 1)
    new()
    other = randoms()
    for k in mid:
        ctx.check(mid[k] != other[k], "constructing %s sets %s to a fixed value" % (nm, k))
    for s in names + modes:
        ctx.note("setting " + s)
    if not want or any(np.unique(a[np.isfinite(a)]).size > 1 for a in want):
        ctx.mark(nm, sorted(names + modes), want[0].reshape(-1)[:40] if want else 0)
    ctx.sample = {"unit": nm, "settings": names + modes}


def report(c, ctx, rs):
    """the report helpers print, and do nothing else"""
    from UnarySim.kernel import utils
    from UnarySim.metric.metric import ProgError
    src = torch.from_numpy(rs.randn(int(rs.randint(3, 40))).astype(np.float32))
    pe = ProgError(src.clamp(-1, 1), {"scale": 1, "mode": "bipolar"})
    for _ in range(4):
        pe.Monitor(torch.from_numpy((rs.rand(len(src)) < .5).astype(np.float32)))
    new, use = job("hub_lin", rs)
    out = []
    for names in ([], [n for n in QUIET if n != "print" and rs.rand() < .5], QUIET[1:]):
        with surroundings(rs, names):
            with Watch(ctx, "a report helper") as w:
                utils.tensor_unary_outlier(src, name="t")
                for v in range(4):
                    utils.progerror_report(pe, name="p", report_value=bool(v & 1), report_relative=bool(v & 2))
            out.append(w.out.getvalue())
            ctx.check(not w.err.getvalue(), "a report helper writes to the error stream", text=w.err.getvalue()[:200])
    ctx.event(15)
    ctx.check(out[0].strip() != "", "a report helper prints its report")
    for o in out[1:]:
        ctx.check(o == out[0], "reports depend on settings of the process", usual=out[0][:300], other=o[:300])
    ctx.mark("report", out[0])
    ctx.sample = {"report": out[0][:120]}


def helpers(c, ctx, rs):
    """sources and functions: no draws except where a random sequence is asked for"""
    import UnarySim.stream as S
    from UnarySim.kernel import utils
    w = int(rs.randint(3, 13))
    src = torch.from_numpy(rs.uniform(-1, 1, (7,)).astype(np.float32))
    img = torch.from_numpy(rs.randn(2, 3, 5, 5).astype(np.float32))
    kinds = ["sobol", "rc", "tc", "race", "lfsr", "sys"]
    k = kinds[c["rep"] % 6]
    seed = int(rs.randint(1 << 30))

    def start():
        random.seed(seed)
        np.random.seed(seed % (1 << 31))
        torch.manual_seed(seed)

    def sources():
        g = S.RNG({"width": w, "dimr": 2, "rng": k}, {"rtype": torch.float32})()
        return [g]

    def rest():
        out = [S.BinGen(src, {"width": w, "mode": "bipolar"}, {"rtype": torch.float32})()]
        out += [torch.as_tensor(v) for v in utils.rshift_offset(src, src.abs() + .1, 7, 6)]
        out.append(S.RawScale({"quantile": .8})(img))
        out.append(torch.as_tensor(utils.conv2d_output_shape((9, 8), 3, 1, 1, 1)))
        return out
    start()
    want = [o.detach().numpy().copy() for o in sources() + rest()]
    start()
    names = [n for n in QUIET if rs.rand() < .5]
    modes = [n for n in MODES if rs.rand() < .2]
    with surroundings(rs, names + modes):
        with Watch(ctx, "a %s source" % k, draws={"lfsr": ("numpy",), "sys": ("PyTorch",)}.get(k, ())) as a:
            s = sources()
        with Watch(ctx, "a helper") as b:
            r = rest()
    got = [o.detach().numpy().copy() for o in s + r]
    ctx.event(5)
    ctx.check(not (b.out.getvalue() + b.err.getvalue()), "a helper prints", text=b.out.getvalue()[:100])
    for i, (x, y) in enumerate(zip(want, got)):
        ctx.values += x.size
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-7):
            ctx.fail("result %d of the helpers depends on settings of the process" % i, settings=names + modes, usual=x, other=y)
    if k in ("lfsr", "sys"):        # a source draws, it does not set: the generators still tell the seeds apart
        # random sequences differ between seeds often enough: they come from the global generators
        seqs, states = set(), []
        for j in range(24 if w < 8 else 4):
            random.seed(j)
            np.random.seed(j)
            torch.manual_seed(j)
            seqs.add(sources()[0].detach().numpy().tobytes())
            states.append(randoms())
        for n in ("PyTorch's random state", "numpy's random state"):
            ctx.check(len({s[n] for s in states}) == len(states), "the %s source sets %s to one of a few values" % (k, n))
        ctx.check(len(seqs) > 1, "the %s source gives one sequence whatever the seed" % k)
    ctx.mark(k, w, want[0])
    ctx.sample = {"source": k, "width": w}


IMPORT = """
import sys
sys.path[:0] = [%r, %r]
from umon import env
env.setup()
import numpy, torch, math, copy, pylfsr, typing
import torch.cuda.amp, torch.nn.functional
import json
from umon import procwatch
class Ctx:
    values = 0
    def check(self, ok, what, **k):
        if not ok: raise SystemExit("FAIL " + what + " " + repr(k))
    def fail(self, what, **k):
        raise SystemExit("FAIL " + what + " " + repr(k))
procwatch.audit()
torch.manual_seed(5); numpy.random.seed(5); procwatch.random.seed(5)
assert not any(k.startswith('UnarySim') for k in sys.modules)
with procwatch.Watch(Ctx(), "importing the library") as w:
    import UnarySim.stream, UnarySim.kernel, UnarySim.metric
if w.out.getvalue(): raise SystemExit("FAIL importing the library prints " + w.out.getvalue()[:200])
print("DONE")
"""

PROCESS = """
import sys, json
sys.path[:0] = [%r, %r]
from umon import env
env.setup()
from umon.props import c46
print("RESULT " + json.dumps(c46.batch(*json.loads(sys.argv[1]))))
"""


def child(code, *args, flags=(), **extra):
    e = dict(os.environ, **extra)
    p = subprocess.run([sys.executable, *flags, "-c", code, *args], capture_output=True, text=True, timeout=200, env=e, cwd=env.VERIF)
    return p.returncode, p.stdout, p.stderr


def libs():
    return env.VERIF, env.VERIF


def batch(seed, units):
    """digests of the results of several units"""
    from ..core import digest, seed_all
    out = []
    for i, u in enumerate(units):
        rs = np.random.RandomState(seed + i)
        new, use = job(u, rs)
        seed_all(seed + i)
        out.append(digest(*[np.round(a, 5) + 0. if u in zoo.BINARY else a for a in use(new())]))
    return out


def process(c, ctx, rs):
    """assertions switched off, other hash seeds, development mode: the same results in a fresh process"""
    units = [u for u in zoo.ALL + zoo.BINARY if u not in ("round", "hardmgufxp")]
    units = [units[i] for i in rs.permutation(len(units))[:24]]
    seed = int(rs.randint(1 << 29))
    want = batch(seed, units)
    flags = [("-O",), ("-OO",), (), ("-W", "error::DeprecationWarning:UnarySim")][c["rep"] % 4]
    rc, out, err = child(PROCESS % libs(), json.dumps([seed, units]), flags=flags, PYTHONHASHSEED=str(rs.randint(1, 9999)), OMP_NUM_THREADS=str(rs.randint(1, 3)),
                         LC_ALL=pick(rs, ["C", "C.UTF-8"]), TZ=pick(rs, ["UTC", "Asia/Tokyo"]))
    ctx.event(len(units))
    got = [ln for ln in out.splitlines() if ln.startswith("RESULT ")]
    if not got:
        if "UnarySim" in err.rsplit("Traceback", 1)[-1]:
            ctx.fail("a fresh process (%s) fails where this one does not" % " ".join(flags), error=err[-300:])
        raise RuntimeError("child failed: " + err[-300:])
    for u, a, b in zip(units, want, json.loads(got[0][7:])):
        ctx.check(a == b, "%s: other results in a fresh process (%s)" % (u, " ".join(flags) or "another hash seed"))
    ctx.mark(want)
    ctx.sample = {"flags": list(flags), "units": len(units)}


def importing(c, ctx, rs):
    """importing the library in a fresh process changes nothing in it and prints nothing"""
    rc, out, err = child(IMPORT % libs())
    ctx.event()
    if "FAIL" in err:
        ctx.fail(err[err.index("FAIL") + 5:][:300])
    if "DONE" not in out:
        raise RuntimeError("child failed: " + err[-300:])
    ctx.values += 20
    ctx.mark("import", c["rep"])
    ctx.sample = {"import": out.strip()}
