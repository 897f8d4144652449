"""The RTL of hw/ is executed next to the simulator's kernels and next to the cycle laws of each block."""
import os

import numpy as np
import torch
import UnarySim.kernel as K
import UnarySim.stream as S
from .. import env, stim, sv
from ..util import rs_of, pick

ID = "C44"
RULE = ("one case = one RTL block with its parameters, driven by a random mix of streams next to the simulator's kernel or to the "
        "block's cycle law; non-trivial when the output took more than one value; every output is compared every cycle")
ASSUMPTIONS = ["two-state simulation, synchronous inputs", "accumulating blocks are compared while their accumulator stays in the RTL's range",
               "CORDIV_kernel_IS_*, dMUL*, dADD, the MACs other than the scaled unary ones, and test benches have no law here"]
HW = os.path.join(env.REPO, "hw")
_cache = {}


def load(rel, defines=(), preset=()):
    key = (rel, tuple(defines))
    if key not in _cache:
        _cache[key] = sv.load(os.path.join(HW, rel), dict(defines), preset)
    return _cache[key]


def bits(rs, T, n=1):
    return stim.mix(rs, T, [n])


def t32(a):
    return torch.from_numpy(np.ascontiguousarray(a)).float()


class Drive:
    """One RTL block, driven cycle by cycle."""

    def __init__(self, rs, rel, top=None, params=None, defines=(), preset=()):
        top = top or os.path.basename(rel)[:-3]
        self.sim = sv.Sim(load(rel, defines, preset), top, params, seed=int(rs.randint(1 << 30)))
        self.rs, self.rel, self.first = rs, rel, True

    def start(self, rst="rst_n", on=0, **v):
        self.sim.reset(rst, on, **v)

    def run(self, ins, outs):
        """ins: name -> list over cycles; returns name -> list sampled before each clock edge."""
        T = len(next(iter(ins.values())))
        got = {o: [] for o in outs}
        zero = {n: ([0] * len(v[0]) if isinstance(v[0], (list, np.ndarray)) else 0) for n, v in ins.items()}
        self.start(**zero)
        for t in range(T):
            self.sim.poke(**{n: ([int(q) for q in v[t]] if isinstance(v[t], (list, np.ndarray)) else int(v[t])) for n, v in ins.items()})
            for o in outs:
                got[o].append(self.sim.peek(o))
            self.sim.tick()
        for o in outs:
            got[o] = np.array(got[o])
        return got


def prefix(ok):
    """True up to and excluding the first False."""
    return np.logical_and.accumulate(np.asarray(ok))


# ---------------------------------------------------------------- laws of single blocks
class Sync:
    def __init__(s, dep):
        s.c, s.top = 0, 2 ** dep - 1

    def step(s, a, b):
        if a == b:
            return a, b
        if a:
            full = s.c == s.top
            s.c += not full
            return int(full), b
        empty = s.c == 0
        s.c -= not empty
        return int(not empty), b


class Cordiv:
    """divisor 1 passes the dividend, divisor 0 repeats the randNum-th oldest of the last DEP quotients"""

    def __init__(s, dep):
        s.sr = [i % 2 for i in range(dep)]

    def step(s, a, b, r):
        q = a if b else s.sr[r]
        s.sr = s.sr[1:] + [q]
        return q


class B2U:
    """registered 2x-1; .ok falls when the difference leaves the RTL's range"""

    def __init__(s, dep):
        s.d, s.h, s.ok = 0, 2 ** (dep - 1), True

    def out(s):
        return int(s.d > 0)

    def clock(s, x):
        s.d += 2 * x - 1 - s.out()
        s.ok &= -s.h <= s.d <= s.h - 1


class U2B:
    def __init__(s):
        s.r, s.o = 0, 0

    def out(s):
        return s.o

    def clock(s, x):
        a = s.r + x + 1
        s.o, s.r = int(a >= 2), a - 2 * (a >= 2)


class Updown:
    def __init__(s, dep):
        s.c, s.top = 2 ** (dep - 1), 2 ** dep - 1

    def move(s, up, down):
        s.c = min(max(s.c + int(up and not down) - int(down and not up), 0), s.top)


class SignC(Updown):
    def sign(s):
        return int(s.c < (s.top + 1) // 2)

    def clock(s, x):
        s.c = min(max(s.c + 2 * x - 1, 0), s.top)


class Jk:
    def __init__(s):
        s.q = 0

    def clock(s, j, k):
        s.q = {(0, 0): s.q, (1, 0): 1, (0, 1): 0, (1, 1): 1 - s.q}[(int(j), int(k))]


# ---------------------------------------------------------------- families
def f_jkff(c, rs, ctx):
    j, k = bits(rs, c["T"])[:, 0], bits(rs, c["T"])[:, 0]
    got = Drive(rs, "kernel/jkff/JKFF.sv").run({"J": j, "K": k}, ["out"])["out"]
    m = K.JKFF({"stype": torch.float})
    sim = np.array([int(m(t32(j[t:t + 1]), t32(k[t:t + 1]))[0]) for t in range(c["T"])])
    return got[1:], sim[:-1], None


def f_sign(c, rs, ctx):
    x = bits(rs, c["T"])[:, 0]
    d = c["dep"]
    rel, outs = pick(rs, [("kernel/sign/Sign.sv", ["sign"]), ("kernel/abs/Abs.sv", ["sign", "abs"])])
    g = Drive(rs, rel, params={"DEP": d}).run({"value": x}, outs)
    m = K.FSUSignAbs({"depth": d}, {"btype": torch.float, "stype": torch.float})
    s = np.array([int(m(t32(x[t:t + 1]))[0][0]) for t in range(c["T"])])
    want = np.concatenate([[0], s[:-1]])            # the counter is registered
    if "abs" in g:
        ctx.check(np.array_equal(g["abs"], x ^ want), "Abs: the output is the input xor the registered sign", depth=d)
    return g["sign"], want, None


def f_sync(c, rs, ctx):
    d = c["dep"]
    a, b = bits(rs, c["T"])[:, 0], bits(rs, c["T"])[:, 0]
    g = Drive(rs, "stream/shuffle/SkewedSync.sv", params={"DEP": d}).run({"in0": a, "in1": b}, ["out0", "out1"])
    m = S.SkewedSync({"depth": d}, {"stype": torch.float, "btype": torch.float})
    r = [m(t32(a[t:t + 1]), t32(b[t:t + 1])) for t in range(c["T"])]
    ctx.check(np.array_equal(g["out1"], [int(y[0]) for _, y in r]), "SkewedSync: second output")
    law = Sync(d)
    ctx.check(np.array_equal(g["out0"], [law.step(int(p), int(q))[0] for p, q in zip(a, b)]), "SkewedSync: cycle law", depth=d)
    return g["out0"], np.array([int(x[0]) for x, _ in r]), None


def f_uni2bi(c, rs, ctx):
    x = bits(rs, c["T"])[:, 0]
    g = Drive(rs, "stream/shuffle/Uni2Bi.sv").run({"in": x}, ["out"])["out"]
    m = S.Uni2Bi({"depth": 4}, {"stype": torch.float, "btype": torch.float})
    s = np.array([int(m(t32(x[t:t + 1]))[0]) for t in range(c["T"])])
    return g[1:], s[:-1], None


def balanced(rs, T, h):
    """A stream whose unipolar conversion stays inside +-h most of the time."""
    p = rs.uniform(.4, .95)
    return (rs.rand(T) < p).astype(np.uint8)


def f_bi2uni(c, rs, ctx):
    d = c["dep"]
    x = balanced(rs, c["T"], 2 ** (d - 1)) if rs.rand() < .8 else bits(rs, c["T"])[:, 0]
    g = Drive(rs, "stream/shuffle/Bi2Uni.sv", params={"DEP": d}).run({"in": x}, ["out"])["out"]
    m = S.Bi2Uni({"depth": d + 2}, {"stype": torch.float, "btype": torch.float})
    s = [int(m(t32(x[t:t + 1]))[0]) for t in range(c["T"])]
    law, ok = B2U(d), []
    for t in range(c["T"]):
        ok.append(law.ok)
        law.clock(int(x[t]))
    return g[1:], np.array(s[:-1]), prefix(ok)[1:]


def f_cordiv(c, rs, ctx):
    d = c["dep"]
    a, b = bits(rs, c["T"])[:, 0], bits(rs, c["T"])[:, 0]
    lg = max(1, (d - 1).bit_length())
    r = rs.randint(0, d, c["T"])
    g = Drive(rs, "kernel/div/CORDIV_kernel.sv", params={"DEP": d, "DEPLOG": lg}).run(
        {"randNum": r, "dividend": a, "divisor": b}, ["quotient"])["quotient"]
    law = Cordiv(d)
    return g, np.array([law.step(int(p), int(q), int(z)) for p, q, z in zip(a, b, r)]), None


def f_iscbdiv_u(c, rs, ctx):
    d, ds = c["dep"], int(rs.randint(1, 5))
    a, b = bits(rs, c["T"])[:, 0], bits(rs, c["T"])[:, 0]
    lg = max(1, (d - 1).bit_length())
    r = rs.randint(0, d, c["T"])
    g = Drive(rs, "kernel/div/ISCBDIV_U.sv", params={"DEP_KERNEL": d, "DEPLOG_KERNEL": lg, "DEP_SYNC": ds}).run(
        {"randNum": r, "dividend": a, "divisor": b}, ["quotient"])["quotient"]
    sy, law = Sync(ds), Cordiv(d)
    return g, np.array([law.step(*sy.step(int(p), int(q)), int(z)) for p, q, z in zip(a, b, r)]), None


def f_iscbdiv_b(c, rs, ctx):
    d, ds, da = c["dep"], int(rs.randint(1, 5)), int(rs.randint(2, 7))
    a, b = bits(rs, c["T"])[:, 0], bits(rs, c["T"])[:, 0]
    lg = max(1, (d - 1).bit_length())
    r = rs.randint(0, d, c["T"])
    g = Drive(rs, "kernel/div/ISCBDIV_B.sv", params={"DEP_ABS": da, "DEP_KERNEL": d, "DEPLOG_KERNEL": lg, "DEP_SYNC": ds}).run(
        {"randNum": r, "dividend": a, "divisor": b}, ["quotient"])["quotient"]
    s0, s1, u0, u1, u2 = SignC(da), SignC(da), B2U(3), B2U(3), U2B()
    sy, law, want, ok = Sync(ds), Cordiv(d), [], []
    for p, q, z in zip(a, b, r):
        p, q = int(p), int(q)
        g0, g1 = s0.sign(), s1.sign()
        want.append(u2.out() ^ g0 ^ g1)
        ok.append(u0.ok and u1.ok)
        y = law.step(*sy.step(u0.out(), u1.out()), int(z))
        u2.clock(y)
        u0.clock(p ^ g0)
        u1.clock(q ^ g1)
        s0.clock(p)
        s1.clock(q)
    return g, np.array(want), prefix(ok)


def f_gain(c, rs, ctx):
    """GDIV / GSQRT: a saturating counter compared with the random number, driven by the feedback"""
    d, k = c["dep"], c["k"]
    a, b = bits(rs, c["T"])[:, 0], bits(rs, c["T"])[:, 0]
    r = rs.randint(0, 2 ** d, c["T"])
    div = k.startswith("GDIV")
    g = Drive(rs, f"kernel/{'div' if div else 'sqrt'}/{k}.sv", params={"DEP": d}).run(
        {"randNum": r, "dividend": a, "divisor": b} if div else {"randNum": r, "in": a}, ["quotient" if div else "out"])
    g = next(iter(g.values()))
    u, prev, want = Updown(d), 0, []
    for t in range(c["T"]):
        q = int(u.c > r[t])
        want.append(q)
        x, y = int(a[t]), int(b[t])
        if k == "GDIV_U":
            inc, dec = x, q & y
        elif k == "GDIV_B":
            same, agree = y == prev, x == y
            other = same != bool(q)
            inc, dec = agree and other, not agree and not other
            prev = y
        elif k == "GSQRT_U":
            inc, dec, prev = x, q & prev, q
        else:
            inc, dec, prev = x, q == prev, q
        u.move(inc, dec)
    return g, np.array(want), None


def f_sqrt_jk(c, rs, ctx):
    x = bits(rs, c["T"])[:, 0]
    if c["k"] == "U":
        g = Drive(rs, "kernel/sqrt/BISQRT_S_JK_U.sv").run({"in": x}, ["out"])["out"]
        m = K.FSUSqrt({"mode": "unipolar", "jk_trace": True, "entry_kn": 2, "entry_sr": 2, "rng": "Sobol", "dimr": 4, "emit": False},
                      {"btype": torch.float, "rtype": torch.float, "stype": torch.float})
        return g, np.array([int(m(t32(x[t:t + 1]))[0]) for t in range(c["T"])]), None
    d = c["dep"]
    g = Drive(rs, "kernel/sqrt/BISQRT_S_JK_B.sv", params={"DEP": d}).run({"in": x}, ["out"])["out"]
    u, jk, want, ok = B2U(d), Jk(), [], []
    for v in x:
        want.append(int(jk.q or v))
        ok.append(u.ok)
        jk.clock(u.out(), 1)
        u.clock(int(v))
    return g, np.array(want), prefix(ok)


def f_sqrt_is(c, rs, ctx):
    d = c["dep"]
    x = bits(rs, c["T"])[:, 0]
    lg = max(1, (d - 1).bit_length())
    r = rs.randint(0, d, c["T"])
    g = Drive(rs, f"kernel/sqrt/BISQRT_S_IS_{c['k']}.sv", params={"DEP": d, "DEPLOG": lg}).run({"randNum": r, "in": x}, ["out"])["out"]
    law, dff, o, u, want, ok = Cordiv(d), 0, 0, B2U(3), [], []
    for v, z in zip(x, r):
        src = o if c["k"] == "U" else u.out()
        dividend = (1 - dff) & src
        q = law.step(dividend, dff | dividend, int(z))
        nxt = int(q or v)
        want.append(o if c["k"] == "U" else nxt)
        ok.append(u.ok or c["k"] == "U")
        o, dff = nxt, 1 - dff
        u.clock(int(v))
    return g, np.array(want), prefix(ok)


def f_sqrt_o(c, rs, ctx):
    d, e = max(c["dep"], 3), int(pick(rs, [2, 4, 8]))
    x = bits(rs, c["T"])[:, 0]
    r = rs.randint(0, e, c["T"])
    g = Drive(rs, f"kernel/sqrt/BISQRT_O_{c['k']}.sv", params={"DEP": d, "DEP_SR": e, "DEPLOG_SR": max(1, (e - 1).bit_length())}).run(
        {"randNum": r, "in": x}, ["out"])["out"]
    sr, acc, u, want, ok, h = [i % 2 for i in range(e)], 0, B2U(3), [], [], 2 ** (d - 1)
    fine = True
    for v, z in zip(x, r):
        o = int(acc > 0)
        want.append(o)
        ok.append(fine and (u.ok or c["k"] == "U"))
        emit = (o if c["k"] == "U" else u.out()) & sr[z]
        u.clock(o)
        sr = sr[1:] + [1 - o]
        acc += int(v) + emit - o
        fine &= acc <= h - 1
    return g, np.array(want), prefix(ok)


def f_syncint(c, rs, ctx):
    """the pending count is added to, and handed out whole when the second stream has a one"""
    d, w = c["dep"], int(rs.randint(1, c["dep"] + 1))
    a, b = rs.randint(0, 2 ** w, c["T"]) * (rs.rand(c["T"]) < rs.uniform(.1, .9)), bits(rs, c["T"])[:, 0]
    g = Drive(rs, "stream/shuffle_int/SkewedSyncInt.sv", params={"DEP": d, "BWIN": w}).run({"in0": a, "in1": b}, ["out0", "out1"])
    top, cnt, want, lost, ins, outs = 2 ** d - 1, 0, [], 0, 0, 0
    for p, q in zip(a, b):
        s = min(cnt + int(p), top)
        # the RTL clips what is handed out; the count that stays behind is clipped as well
        o = s if q else 0
        full = cnt + int(p)
        cnt = min(full - o, top)
        want.append(o)
        ins += int(p)
        outs += o
        lost += full - o - cnt
    ctx.check(np.array_equal(g["out1"], b), "SkewedSyncInt: second output")
    ctx.check(int(np.sum(g["out0"])) == ins - lost - cnt, "SkewedSyncInt: what goes out is what came in, less what is pending or was clipped",
              out=int(np.sum(g["out0"])), came=ins, lost=lost, pending=cnt)
    return g["out0"], np.array(want), None


def sobol(rs, w):
    return [int(v) for v in S.RNG({"width": w, "dimr": 1, "rng": "Sobol"}, {"rtype": torch.float})()]


NAMES = ["INWD%d" % k for k in range(3, 11)]


def f_sobol(c, rs, ctx):
    w = c["w"]
    rel = f"stream/old/SobolRNGs/SobolRNGDim1_{w}b.sv" if c["k"] == "fixed" else "stream/old/SobolRNG/SobolRNGDim1.sv"
    d = Drive(rs, rel, defines=() if c["k"] == "fixed" else (("INWD%d" % w, ""),), preset=NAMES)
    T = 2 ** w + 9 if c["k"] == "run" else c["T"]
    en = np.ones(T, int) if rs.rand() < .4 else bits(rs, T)[:, 0].astype(int)
    seq, idx = sobol(rs, w), np.concatenate([[0], np.cumsum(en)[:-1]]) % 2 ** w
    g = d.run({"enable": en}, ["sobolSeq"])["sobolSeq"]
    # later periods of the RTL start elsewhere, but each is again a permutation: every value once
    pos = np.concatenate([[0], np.cumsum(en)[:-1]])
    for p in range(int(pos[-1] + en[-1]) // 2 ** w):
        first = [int(g[np.argmax(pos == q)]) for q in range(p * 2 ** w, (p + 1) * 2 ** w)]
        ctx.check(sorted(first) == list(range(2 ** w)), "every period of the number generator visits each value once", width=w, period=p)
        ctx.note("whole_periods")
    return g, np.array([seq[i] for i in idx]), pos < 2 ** w


def first_period(a, w, uni):
    """The generators have advanced less than one period (a one moves the first, a zero the second)."""
    a = np.asarray(a).astype(int)
    up = np.cumsum(a, 0) - a
    dn = np.cumsum(1 - a, 0) - (1 - a)
    ok = up < 2 ** w
    return ok if uni else ok & (dn < 2 ** w)


def f_umul(c, rs, ctx):
    w, T = c["w"], c["T"]
    a = bits(rs, T)[:, 0]
    b = int(rs.randint(0, 2 ** w))
    d = Drive(rs, f"kernel/old/uMUL_{c['k']}/uMUL_{c['k']}.sv", defines=(("INWD%d" % w, ""),), preset=NAMES)
    # one cycle with loadB, then the stream; the first cycle's bit goes through the generators too
    load = np.zeros(T, int)
    load[0] = 1
    g = d.run({"iA": a, "iB": np.full(T, b), "loadB": load}, ["oC"])["oC"]
    uni = c["k"] == "uni"
    val = b / 2 ** w if uni else 2 * b / 2 ** w - 1
    m = make_mul(val, w, uni)
    s = np.array([int(m(t32(a[t:t + 1]))[0]) for t in range(T)])
    ok = first_period(a, w, uni)
    return g[1:], s[1:], ok[1:]                      # the operand is loaded at the end of the first cycle


def make_mul(val, w, uni):
    return K.FSUMul(torch.tensor([val], dtype=torch.float),
                    {"width": w, "mode": "unipolar" if uni else "bipolar", "static": True, "rng": "Sobol", "dimr": 1},
                    {"btype": torch.float, "rtype": torch.float, "stype": torch.float})


def f_usadd(c, rs, ctx):
    n, T = c["n"], c["T"]
    x = stim.mix(rs, T, [n])
    v = [sum(int(q) << i for i, q in enumerate(row)) for row in x]
    g = Drive(rs, f"kernel/old/uSADD/uSADD{n}.sv").run({"in": v}, ["out"])["out"]
    m = K.FSUAdd({"mode": "unipolar", "scale": None, "dima": 0, "depth": 12, "entry": None}, {"btype": torch.float, "stype": torch.float})
    return g, np.array([int(m(t32(x[t]))) for t in range(T)]), None


def f_pc(c, rs, ctx):
    n = c["n"]
    vals = list(range(2 ** n)) if n == 7 else [int(q) for q in rs.randint(0, 2 ** n, c["T"])] + [2 ** n - 1, 0]
    s = Drive(rs, f"kernel/old/parallelCnt/parallelCnt{n}.sv").sim
    out = []
    for v in vals:
        s.poke(**{"in": v})
        out.append(s.peek("out"))
    return np.array(out), np.array([bin(v).count("1") for v in vals]), None


def f_umac(c, rs, ctx):
    T, uni = c["T"], c["k"] == "uni"
    rel = f"kernel/old/MAC16/uMAC_{c['k']}_scaled/uMAC_{c['k']}_scaled.sv"
    x = stim.mix(rs, T, [16])
    b = rs.randint(0, 256, 16)
    d = Drive(rs, rel)
    load = np.zeros(T, int)
    load[0] = 1
    x[0] = 0
    g = d.run({"iA": [sum(int(q) << i for i, q in enumerate(row)) for row in x], "iB": [list(b)] * T, "loadB": load}, ["oC"])["oC"]
    ms = [make_mul(q / 256 if uni else 2 * q / 256 - 1, 8, uni) for q in b]
    p = np.array([[int(m(t32(x[t, i:i + 1]))[0]) for i, m in enumerate(ms)] for t in range(T)], np.uint8)
    if not uni:
        p[0] = 1                                     # iB is still 0 in the first cycle: every product bit is 1
    add = K.FSUAdd({"mode": "unipolar", "scale": None, "dima": 0, "depth": 12, "entry": None}, {"btype": torch.float, "stype": torch.float})
    return g, np.array([int(add(t32(p[t]))) for t in range(T)]), prefix(np.all(first_period(x.astype(int), 8, uni), axis=1))


def f_oldcordiv(c, rs, ctx):
    """quotient register that moves only when the divisor is one, as in the simulator's kernel"""
    a, b = bits(rs, c["T"])[:, 0], bits(rs, c["T"])[:, 0]
    r = rs.randint(0, 2, c["T"])
    g = Drive(rs, "kernel/old/cordiv/cordiv.sv").run({"srSel": r, "dividend": a, "divisor": b}, ["quotient", "srOut"])
    sr, want = [0, 0], []
    for p, q, z in zip(a, b, r):
        want.append(int(p) if q else sr[z])
        if q:
            sr = [want[-1], sr[0]]
    return g["quotient"], np.array(want), None


def f_halton(c, rs, ctx):
    base, digits = c["base"], c["digits"]
    d = Drive(rs, f"stream/old/HaltonSeq{base}/HaltonSeq{base}.sv")
    d.sim.reset("rst", 1)
    got, want = [], []
    for t in range(base ** digits + 20):
        got.append(d.sim.peek("out"))
        n, v = t, 0
        for k in range(digits):
            v, n = v * base + n % base, n // base
        want.append(v)
        d.sim.tick()
    if base != 2:
        got = got[1:]                                # one output register
    return np.array(got), np.array(want[:len(got)]), None


def f_gate(c, rs, ctx):
    T = c["T"]
    if c["k"] == "or":
        v = rs.randint(0, 256, T) * (rs.rand(T) < .6)
        g = Drive(rs, "kernel/old/orADD/orADD.sv").run({"in": v}, ["out"])["out"]
        return g[1:], (v != 0).astype(int)[:-1], None
    v, s = rs.randint(0, 256, T), rs.randint(0, 8, T)
    g = Drive(rs, "kernel/old/muxADD/muxADD.sv").run({"in": v, "sel": s}, ["out"])["out"]
    return g[1:], np.array([(int(p) >> int(q)) & 1 for p, q in zip(v, s)])[:-1], None


def f_cordivall(c, rs, ctx):
    T = c["T"]
    a, b, r, z = bits(rs, T)[:, 0], bits(rs, T)[:, 0], rs.randint(0, 256, T), rs.randint(0, 2, T)
    g = Drive(rs, "kernel/old/cordivall/cordivall.sv").run({"randNum": r, "sel": z, "dividend": a, "divisor": b}, ["quotient"])["quotient"]
    p = q = 128
    sr, want, ok = [0, 0], [], []
    for t in range(T):
        ok.append(0 <= p < 256 and 0 <= q < 256)     # the counters wrap, which is nobody's intention
        one = p >= r[t]
        if q >= r[t]:
            want.append(int(one))
            sr = [want[-1], sr[0]]
        else:
            want.append(sr[z[t]])
        p, q = p + 2 * int(a[t]) - 1, q + 2 * int(b[t]) - 1
    return g, np.array(want), prefix(ok)


def f_oldgain(c, rs, ctx):
    """4/5/6-bit gain dividers and square roots: saturating counter, one where it reaches the random number"""
    k, T = c["k"], c["T"]
    w = {"sqrt/sqrt": 6}.get(k) or int(k[-2])
    a, b, r = bits(rs, T)[:, 0], bits(rs, T)[:, 0], rs.randint(0, 2 ** w, T)
    div = "div" in k
    g = Drive(rs, f"kernel/old/{k}.sv").run({"randNum": r, "dividend": a, "divisor": b} if div else {"randNum": r, "in": a},
                                            ["quotient" if div else "out"])
    u, prev, want = Updown(w), 0, []
    for t in range(T):
        q = int(u.c >= r[t])
        want.append(q)
        u.move(a[t], q & int(b[t]) if div else q & prev)
        prev = q
    return next(iter(g.values())), np.array(want), None


def f_oldjk(c, rs, ctx):
    """bit-inserting square roots: a one replaces the input while the trace is off"""
    x = bits(rs, c["T"])[:, 0]
    want, sel = [], 1
    if c["k"] == "cordiv":
        z = rs.randint(0, 2, c["T"])
        g = Drive(rs, "kernel/old/iscbdivbisqrt/iscbdivbisqrt.sv").run({"sel": z, "in": x}, ["out"])["out"]
        sr, dff = [0, 0], 0
        for v, s in zip(x, z):
            o = int(v) if sr[s] else 1
            want.append(o)
            if dff or o:
                sr = [dff, sr[0]]
            dff = 1 - dff
        return g, np.array(want), None
    g = Drive(rs, f"kernel/old/{c['k']}.sv").run({"in": x}, ["out"])["out"]
    for v in x:
        o = int(v) if sel else 1
        want.append(o)
        sel = 1 - sel if o else 1
    return g, np.array(want), None


def f_oldrelu(c, rs, ctx):
    """the input passes while the saturating counter is in its upper half"""
    x, n = bits(rs, c["T"])[:, 0], 4
    g = Drive(rs, "kernel/old/relu/relu.sv").run({"in": x}, ["out"])["out"]
    u, want = Updown(n), []
    for v in x:
        want.append(int(v) if u.c >= 2 ** (n - 1) else 0)
        u.move(v, 1 - int(v))
    return g, np.array(want), None


def f_exp(c, rs, ctx):
    x, r = bits(rs, c["T"])[:, 0], rs.randint(0, 8, c["T"])
    g = Drive(rs, "kernel/old/exp/exp.sv").run({"randBit": r, "in": x}, ["out"])["out"]
    d, want = [0, 0, 0], []
    for v, q in zip(x, r):
        v, q0, q1, q2 = int(v), q & 1, q >> 1 & 1, q >> 2
        low = 0 if q0 else v
        mid = 1 if q1 else low
        m0, m1 = d[0] & low, d[1] & mid
        want.append(int(d[2] if q2 else (1 if q0 else v)))
        d = [v, m0, m1]
    return g, np.array(want), None


def f_unsadd(c, rs, ctx):
    """non-scaled bipolar sum: a one while twice the ones owed exceed twice the ones given.  The two totals are compared as
    unsigned numbers of ten bits; what the block does once its total has gone negative is a recorded finding."""
    n, T = c["n"], c["T"]
    p = rs.uniform(.5, .62)
    x = (rs.rand(T, n) < p).astype(int) if rs.rand() < .7 else stim.mix(rs, T, [n]).astype(int)
    x[:2] = 1                                       # start above zero
    g = Drive(rs, f"kernel/old/uNSADD/uNSADD{n}.sv").run({"in": [sum(int(q) << i for i, q in enumerate(row)) for row in x]}, ["out"])["out"]
    th = ac = 0
    want, ok, neg, fine = [], [], False, True
    for t in range(T):
        fine &= 0 <= th < 1024 and ac < 1024
        neg |= th < 0
        o = int(th > ac)
        want.append(o)
        ok.append(fine)
        if neg and g[t] != o and "unsadd-negative" not in [k for k, _ in ctx.findings]:
            ctx.finding("unsadd-negative", "uNSADD%d emits ones while its running total is negative" % n)
        th, ac = th + 2 * int(x[t].sum()) - (n - 1), ac + 2 * o
    return g, np.array(want), prefix(ok)


def f_oldsync(c, rs, ctx):
    """the older two-bit synchroniser; its counter never drains, which is a recorded finding"""
    T = c["T"]
    a, b = bits(rs, T)[:, 0], bits(rs, T)[:, 0]
    g = Drive(rs, "stream/old/skewedSync/skewedSync.sv" if c["k"] == "stream" else "kernel/old/iscbdiv/skewedSync.sv").run(
        {"in": [int(p) | int(q) << 1 for p, q in zip(a, b)]}, ["out"])["out"]
    ctx.check(np.array_equal(g >> 1, b), "skewedSync: second output")
    law, good, cnt, stuck = Sync(2), [], 0, []
    for p, q in zip(a, b):
        p, q = int(p), int(q)
        good.append(law.step(p, q)[0])
        stuck.append(p if p == q else int(cnt == 3) if p else int(cnt != 0))
        cnt = min(cnt + p, 3)
    if not np.array_equal(g & 1, good) and np.array_equal(g & 1, stuck):
        ctx.finding("skewedsync-old", "hw/*/old skewedSync hands out ones it never received: its counter is never decremented")
        return g & 1, np.array(stuck), None
    return g & 1, np.array(good), None


def f_arith(c, rs, ctx):
    """registered binary arithmetic, two or one cycles late"""
    k, T = c["k"], c["T"]
    w = 16 if "16" in k else 8
    wild = lambda n: [int(v) for v in (rs.randint(0, 2 ** n, T) if rs.rand() < .7 else rs.choice([0, 1, 2 ** n - 1, 2 ** (n - 1)], T))]
    a, b = wild(w), wild(w)
    f = (lambda p, q: p + q) if "add" in k.lower() else (lambda p, q: p * q)
    val = [f(p, q) for p, q in zip(a, b)]
    if k == "mac":
        en, extra = [int(v) for v in bits(rs, T)[:, 0]], wild(20)
        g = Drive(rs, "kernel/old/MAC16/bMAC_SIMD/mac.sv").run({"iA": a, "iB": b, "iC": extra, "acc_en": en}, ["oC"])["oC"]
        o, want = 0, []
        for t in range(T):
            want.append(o)
            o = (val[t] + (o if en[t] else extra[t])) % 2 ** 20
        return g, np.array(want), None
    if w == 8:
        g = Drive(rs, f"kernel/old/{k}/{k}.sv").run({"iA": a, "iB": b}, ["oC"])["oC"]
        return g[2:], np.array(val[:-2]), None
    g = Drive(rs, f"kernel/old/{k}.sv").run({"a": a, "b": b}, ["c"])["c"]
    return g[1:], np.array(val[:-1]), None


def f_pick(c, rs, ctx):
    """combinational selectors and adders of single bits"""
    k, T = c["k"], c["T"]
    s = Drive(rs, f"kernel/old/{k}.sv").sim
    got, want = [], []
    for _ in range(T):
        if k == "add/add16":
            v, q = int(rs.randint(0, 65536)), int(rs.randint(0, 16))
            s.poke(**{"in": v, "randNum": q})
            got.append(s.peek("out"))
            want.append(v >> q & 1)
        elif k == "add/add2":
            v, q = int(rs.randint(0, 4)), int(rs.randint(0, 2))
            s.poke(**{"in": v, "randNum": q})
            got.append(s.peek("out"))
            want.append(v >> q & 1)
        elif k == "mul/mul":
            v = int(rs.randint(0, 4))
            s.poke(**{"in": v})
            got.append(s.peek("out"))
            want.append(int(v == 3))
        else:
            x, y, z = (int(v) for v in rs.randint(0, 2, 3))
            s.poke(a=x, b=y, ci=z)
            got.append(2 * s.peek("co") + s.peek("sum"))
            want.append(x + y + z)
    return np.array(got), np.array(want), None


def f_apc(c, rs, ctx):
    T = c["T"]
    v, r = rs.randint(0, 256, T), rs.randint(0, 8, T)
    v = v & rs.randint(0, 256, T)
    g = Drive(rs, "kernel/old/apcADD/apcADD.sv").run({"in": v, "randNum": r}, ["out"])["out"]
    pair = lambda q, i: int(q >> (2 * i) & 3 != 0)
    s = [2 * (pair(q, 0) + pair(q, 1) + pair(q, 2)) + pair(q, 3) for q in v]
    return g[1:], np.array([int(p > q) for p, q in zip(s[:-1], r[1:])]), None


def f_two(c, rs, ctx):
    """multipliers with both operands in registers: comparison bits against the generator, for any load times"""
    k, w, T = c["k"], c["w"], c["T"]
    A, B = [int(v) for v in rs.randint(0, 2 ** w, T)], [int(v) for v in rs.randint(0, 2 ** w, T)]
    p = pick(rs, [.01, .05, .5])
    la, lb = (rs.rand(T) < p).astype(int), (rs.rand(T) < p).astype(int)
    la[0] = lb[0] = 1
    outs = ["oC", "stop"] if k[0] == "t" else ["oC"]
    g = Drive(rs, f"kernel/old/{k}/{k}.sv", defines=(("INWD%d" % w, ""),), preset=NAMES).run(
        {"iA": A, "iB": B, "loadA": la, "loadB": lb}, outs)
    seq = sobol(rs, w)
    x = y = n = 0
    stop, want, ok = 1, [], []
    for t in range(T):
        ok.append(n < 2 ** w)
        v = seq[n % 2 ** w]
        if k[0] == "g":
            want.append(int(x > v and y > v) if k == "gMUL_uni" else int((x > v) == (y > v)))
            n += 1
        else:
            want.append(int(not stop and y > v) if k == "tMUL_uni" else int((not stop) == (y > v)))
            if g["stop"][t] != stop:
                ctx.fail("tMUL runs for as many cycles as its operand says", cycle=t, stop=int(g["stop"][t]), want=stop)
            n += 1 - stop
        if k[0] == "t":
            stop = 1 if la[t] or x == 0 else 0
            x = A[t] if la[t] else max(x - 1, 0)
        elif la[t]:
            x = A[t]
        if lb[t]:
            y = B[t]
    return g["oC"], np.array(want), prefix(ok)


def f_count(c, rs, ctx):
    """modulo counters with carry"""
    base, T = c["base"], c["T"]
    en = bits(rs, T)[:, 0].astype(int)
    d = Drive(rs, f"stream/old/HaltonSeq{base}/ModCnt{base}.sv")
    d.start = lambda rst="rst", on=1, **v: d.sim.reset("rst", 1, **v)
    g = d.run({"cin": en}, ["out", "cout"])
    pos = np.concatenate([[0], np.cumsum(en)[:-1]]) % base
    ctx.check(np.array_equal(g["cout"], (pos == base - 1) & (en == 1)), "ModCnt: carry", base=base)
    return g["out"], pos, None


FAM = {"jkff": f_jkff, "sign": f_sign, "sync": f_sync, "uni2bi": f_uni2bi, "bi2uni": f_bi2uni, "cordiv": f_cordiv, "iscbdiv_u": f_iscbdiv_u,
       "iscbdiv_b": f_iscbdiv_b, "gain": f_gain, "sqrt_jk": f_sqrt_jk, "sqrt_is": f_sqrt_is, "sqrt_o": f_sqrt_o, "syncint": f_syncint,
       "sobol": f_sobol, "umul": f_umul, "usadd": f_usadd, "pc": f_pc, "umac": f_umac, "oldcordiv": f_oldcordiv, "halton": f_halton,
       "gate": f_gate, "cordivall": f_cordivall, "oldgain": f_oldgain, "oldjk": f_oldjk, "oldrelu": f_oldrelu,
       "exp": f_exp, "unsadd": f_unsadd, "oldsync": f_oldsync, "arith": f_arith, "pick": f_pick, "apc": f_apc, "two": f_two,
       "count": f_count}


def cases(tier, seed):
    rs = np.random.RandomState(seed)
    out = []

    def add(f, reps, cost=1, **kw):
        for rep in range(3 * reps if tier == "quick" else 20 * reps):
            c = {"f": f, "T": int(pick(rs, [60, 300, 900])), "rep": rep, "cost": cost}
            c.update({k: v(rs) if callable(v) else v for k, v in kw.items()})
            out.append(c)
    dep = lambda lo, hi: (lambda rs: int(rs.randint(lo, hi + 1)))
    add("jkff", 12)
    add("sign", 24, dep=dep(2, 8))
    add("sync", 24, dep=dep(1, 6))
    add("uni2bi", 12)
    add("bi2uni", 24, dep=dep(3, 7))
    add("cordiv", 24, dep=dep(1, 8))
    add("iscbdiv_u", 24, dep=dep(1, 8))
    add("iscbdiv_b", 24, dep=dep(1, 8))
    for k in ("GDIV_U", "GDIV_B", "GSQRT_U", "GSQRT_B"):
        add("gain", 16, k=k, dep=dep(2, 8))
    add("sqrt_jk", 12, k="U")
    add("sqrt_jk", 16, k="B", dep=dep(3, 6))
    for k in "UB":
        add("sqrt_is", 16, k=k, dep=dep(1, 6))
        add("sqrt_o", 16, k=k, dep=dep(3, 6))
    add("syncint", 24, dep=dep(1, 6))
    for w in range(3, 11):
        add("sobol", 2, w=w, k="run", cost=2)
        add("sobol", 2, w=w, k="fixed")
    for k in ("uni", "bi"):
        add("umul", 16, k=k, w=dep(3, 8), cost=3)
        add("umac", 2, k=k, T=256, cost=20)
    for n in (8, 16):
        add("usadd", 16, n=n)
    add("pc", 1, n=7)
    add("pc", 4, n=15, T=3000)
    add("oldcordiv", 8)
    for b, dg in ((2, 8), (3, 5), (5, 3)):
        add("halton", 1, base=b, digits=dg)
    add("gate", 4, k="or")
    add("gate", 4, k="mux")
    add("cordivall", 8)
    for k in ("gdiv/gdiv4b", "gdiv/gdiv5b", "gsqrt/gsqrt4b", "gsqrt/gsqrt5b", "sqrt/sqrt"):
        add("oldgain", 8, k=k)
    for k in ("cordiv", "sqrt/sqrtJK", "jkdivbisqrt/jkdivbisqrt"):
        add("oldjk", 8, k=k)
    add("oldrelu", 8)
    add("exp", 8)
    for n in (8, 16):
        add("unsadd", 16, n=n)
    for k in ("stream", "kernel"):
        add("oldsync", 8, k=k)
    for k in ("bADD", "bMUL", "add/fixed_point_add16bit", "mul/fixed_point_mul16bit", "mac"):
        add("arith", 6, k=k)
    for k in ("add/add16", "add/add2", "mul/mul", "add/fulladder"):
        add("pick", 4, k=k)
    add("apc", 8)
    for k in ("gMUL_uni", "gMUL_bi", "tMUL_uni", "tMUL_bi"):
        add("two", 12, k=k, w=dep(3, 10))
    for b in (2, 3, 5):
        add("count", 4, base=b)
    return out


def run(c, ctx):
    rs = rs_of(c)
    try:
        got, want, ok = FAM[c["f"]](c, rs, ctx)
    except (sv.SVUnsupported, SyntaxError, RecursionError, MemoryError) as e:
        ctx.note("outside_the_interpreter")
        return
    except (sv.SVError, KeyError) as e:
        ctx.fail("the RTL block cannot be run: " + str(e)[:200], block=c["f"])
        return
    got, want = np.asarray(got), np.asarray(want)
    if ok is not None:
        got, want = got[ok], want[ok]
        ctx.note("cycles_outside_the_range", int((~np.asarray(ok)).sum()))
    ctx.event(len(got))
    ctx.eq(got.astype(np.int64), want.astype(np.int64), "RTL block " + c["f"], case={k: v for k, v in c.items() if k != "cost"})
    if len(got) and len(np.unique(got)) > 1:
        ctx.mark(c["f"], c.get("k"), c.get("dep"), c.get("w"), got[:64])
    ctx.note("block_" + c["f"])
    ctx.sample = {"block": c["f"], "cycles": int(len(got)), "ones": int(np.sum(got != 0))}
