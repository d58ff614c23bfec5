"""C16: random and pseudo-random numbers (spec/Rand.tla)."""
import random as pyrandom
from harness import *
from scalars import num, inum, INTS, FLTS
from textio import numbers, CPP

TYPES = ["int", "long", "uint", "ulong", "bool", "float", "double", "ld"]


def binaries(ctx):
    def job(types, af, quad=False):
        return ("rand.cpp", ["AF_=" + af, "TYPES_=" + " ".join("TRY(%s)" % CPP[t] for t in types)], ["-O0"] + (["nosan", "-lquadmath", "-DSTRICT_QUAD_PRECISION"] if quad else ["cxx=clang++"]))
    j = {"randi": job(["int", "ulong", "bool"], "Unaligned"), "randl": job(["long", "uint"], "Aligned"),
         "randf": job(["float", "double"], "Aligned"), "randx": job(["ld"], "Unaligned"), "randq": job(["quad"], "Unaligned", True)}
    return build(ctx, j)


OF = {"randi": ["int", "ulong", "bool"], "randl": ["long", "uint"], "randf": ["float", "double"], "randx": ["ld"], "randq": ["quad"]}
WHATS = ["a", "even", "rev", "list", "b", "row", "col", "diag", "blk", "multi"]


def bound(rng, t):
    if t in INTS:
        w, sg = INTS[t]
        hi, lo = (2**(w - 1) - 1, -2**(w - 1)) if sg else (2**w - 1, 0)
        v = rng.choice([rng.randint(-5, 5), rng.randint(-1000, 1000), rng.randint(lo, hi), rng.randint(lo, hi) >> rng.randint(0, w - 1), hi, lo])
        return inum(min(hi, max(lo, v)))
    p = FLTS[t if t != "quad" else "double"][0]
    return num(rng.random() < .5, rng.getrandbits(rng.randint(1, p)), rng.choice([rng.randint(-30, 5), -p, rng.randint(-120 - p, 100 - p)]))


def entropy(rng):
    return rng.choice([0, 1, 2**32 - 1, rng.getrandbits(32), rng.getrandbits(32)])


def value_of(x):
    from fractions import Fraction
    m = sum(d * 4096**i for i, d in enumerate(x["m"]))
    return (-1 if x["s"] else 1) * m * Fraction(2)**x["e"]


def request(rng, t):
    while True:
        semi, form = rng.randint(0, 1), rng.choice(["scalar", "expr1", "expr2", "fill", "fill"])
        lo, hi = bound(rng, t), bound(rng, t)
        if value_of(lo) > value_of(hi) and rng.random() < .95:
            lo, hi = hi, lo
        if rng.random() < .1:
            hi = lo
        what = rng.choice(WHATS)
        if form == "fill" and what == "multi" and semi:
            continue
        return dict(t=t, semi=semi, not0=rng.randint(0, 1), form=form, what=what, n=rng.randint(0, 12) if form != "expr2" else rng.randint(1, 4), k=rng.randint(1, 4),
                    dflt=0, low=lo, high=hi, named=rng.randint(0, 1), seed=rng.choice([-1, 0, 1, 2, 4, 12345, 2**31 - 1, rng.getrandbits(31)]) if semi else -1, old=inum(100))


def c16(ctx):
    ctx.assumptions.append("the entropy behind random() is supplied by the harness (std::random_device replaced), so that runs repeat; which numbers are drawn is left open by the specification")
    bins = binaries(ctx)
    deep = not ctx.quick
    const = dict(Types_="{%s}" % ", ".join('"%s"' % t for t in TYPES + ["quad"]), Seeds="{0, 1, 2, 17, 2147483647}", Spread=2)
    vec = enumerate_spec(ctx, "Rand", const, ["Possible"], emit="s'")
    if not vec:
        raise CheckError("no requests")
    rng = pyrandom.Random(ctx.seed)
    ctx.sample(dict(enumerated_request=vec[len(vec) // 2]))
    for name in sorted(bins):
        mine = [v for v in vec if v["t"] in OF[name]]
        if not deep:
            mine = [v for v in mine if rng.random() < .35]
        for i, v in enumerate(mine):
            v.update(w=rng.randrange(4), rd=entropy(rng))
        extra = []
        for _ in range(6000 if deep else 300):
            extra.append(request(rng, rng.choice([t for t in OF[name] if t != "bool"])))
            extra[-1].update(w=rng.randrange(4), rd=entropy(rng))
        adjudicate(ctx, {name: bins[name]}, "Rand", "Admits", mine + extra, "requests", const, variables=("s", "last"), well=lambda o: numbers(o["v"]))


CHECKS = {"C16": c16}
