"""Lane independence and shape invariance."""
import numpy as np
from .. import stim, zoo
from ..util import rs_of, pick, both

ID = "C30"
RULE = ("one case = one streaming unit with random configuration and streams, re-run with its lanes permuted, reshaped to several axes, "
        "reduced to a subset and to single lanes; non-trivial when the lanes differ from each other; every bit of every re-run is compared "
        "with the same lane of the first run")
ASSUMPTIONS = ["the units with a batch axis are re-arranged along that axis", "deterministic number sequences"]


def cases(tier, seed):
    n = 26 if tier == "quick" else 120
    return [{"unit": u, "rep": r, "cost": 3 if u in zoo.LAYERS else 1} for u in zoo.ALL for r in range(n)]


def shapes(n):
    out = [(n, 1), (1, n)]
    for a in range(2, n):
        if n % a == 0:
            out.append((a, n // a))
            if (n // a) % 2 == 0:
                out.append((2, 1, a, n // a // 2))
    return out


def run(c, ctx):
    rs = rs_of(c)
    u = zoo.make(c["unit"], rs)
    T = int(pick(rs, [25, 60, 300, 300]))
    xs = u.stimulus(rs, T)
    T = T if xs else 40
    if xs and rs.rand() < .4:
        xs = [stim.meet(rs, x) for x in xs]
    base = u.new().run(xs)
    ctx.event(T)
    variants = []
    perm = rs.permutation(u.L)
    variants.append(("permuted", perm, None))
    sub = np.sort(rs.choice(u.L, size=max(1, u.L // 2), replace=False))
    variants.append(("subset", sub, None))
    one = int(rs.randint(u.L))
    variants.append(("single lane", np.array([one]), None))
    variants.append(("repeated lane", np.array([one, one, int(rs.randint(u.L))]), None))
    if not u.flat:
        sh = shapes(u.L)
        for k in range(2):
            variants.append(("reshaped", np.arange(u.L), sh[rs.randint(len(sh))]))
        variants.append(("permuted and reshaped", perm, sh[rs.randint(len(sh))]))
    for what, idx, shape in variants:
        r = u.new(idx, shape)
        got = r.run(xs)
        ctx.event(T)
        if len(got) != len(base):
            ctx.fail("number of outputs", unit=u.name)
        for j, (g, b) in enumerate(zip(got, base)):
            ctx.eq(g, b[:, idx], "%s, output %d, %s lanes" % (u.name, j, what), shape_used=str(shape), lanes=str(idx.tolist()))
    y = base[-1]
    if u.L > 1 and np.any(y != y[:, :1]):
        ctx.mark(u.name, y[:40])
    ctx.sample = {"unit": u.name, "lanes": u.L, "T": T, "variants": len(variants)}
