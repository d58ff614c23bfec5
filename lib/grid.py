"""Generated floating sequences, part of C09 (spec/Grid.tla)."""
from harness import *
from scalars import num, inum, FLTS
from stable import value


def questions(ctx):
    rng, q = ctx.rng, ctx.quick
    out = []
    for t in ("float", "double", "ld"):
        p = FLTS[t][0]
        for k in range(300 if q else 4000):
            f = ("seq", "lin")[k % 2]
            n = rng.choice([-1, 0, 1, 2, 2, 3, 3, 4, 5, 7, 11, 64, 100, 1000, 4097] + [100000, 300000] * (k % 6 == 0))
            kind = rng.random()
            if kind < .3:      # parameters of one scale
                s, h = value(rng, t, 3), value(rng, t, 3)
            elif kind < .5:    # decimal fractions
                fr = lambda: num(rng.random() < .4, (rng.randrange(1, 100) << p + 4) // rng.choice([10, 100, 3, 7]) >> 4 & (1 << p) - 1 | 1, -p)
                s, h = fr(), fr()
            elif kind < .7:    # small integers
                s, h = inum(rng.randint(-20, 20)), inum(rng.randint(-20, 20))
            elif kind < .85:   # nearly equal
                s = value(rng, t, 2)
                h = dict(s, m=s["m"][:-1] + [s["m"][-1] ^ 1] if len(s["m"]) > 1 else s["m"]) if f == "lin" else value(rng, t, 2)
            else:              # far apart
                s, h = value(rng, t, 40), value(rng, t, 40)
            m = max(n, 0)
            ix = sorted({i for i in [0, 1, m // 3, m // 2, m - 2, m - 1] + [rng.randrange(m) for _ in range(2) if m] if 0 <= i < m})
            out.append(dict(f=f, t=t, n=n, s=s, h=h, ix=ix, w=rng.randrange(12)))
    return out


def grid(ctx):
    q = ctx.quick
    enumerate_spec(ctx, "Grid", dict(Starts="<-GridStarts", Steps="<-GridSteps", Length=24 if q else 60), ["Meets"], emit="0",
                   extra="GridStarts == {-201, -9, -1, 0, 1, 5, 77, 130, 255%s}\nGridSteps == {-77, -7, -1, 1, 3, 5, 77, 129, 253}\nASSUME Drifts" % ("" if q else ", 3, 7, 13, -13"))
    jobs = {"grid-clang": ("grid.cpp", [], ["-O0", "cxx=clang++"])}
    if not q:
        jobs["grid-gcc-O2"] = ("grid.cpp", [], ["-O2", "nosan"])
    bins = build(ctx, jobs)
    qs = questions(ctx)
    for c in qs:
        ctx.op("%s %s" % (c["f"], c["t"]))
    for c in qs[::len(qs) // 3]:
        ctx.sample(c)
    ok = lambda v: isinstance(v, list) and v and all(isinstance(x, dict) for x in v[1:])
    adjudicate(ctx, bins, "Grid", "Admits", qs, "grid", dict(Starts="{}", Steps="{}", Length=1), ("q", "last"), well=lambda o: ok(o["v"]) or o["k"] == "err")
