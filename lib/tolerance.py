"""C22: tolerance comparisons and error measures (spec/Tol.tla)."""
from harness import *
from scalars import num, inum, FLTS, rand_value, math_judge
from stable import neg, tup


def ulp(t, n=1):
    return num(n < 0, abs(n), 1 - FLTS[t][0])


def base(rng, t):
    k = rng.random()
    if k < .35:
        return inum(rng.choice([-3, -2, -1, 1, 2, 3, 0]))
    if k < .75:
        return num(rng.random() < .5, rng.getrandbits(FLTS[t][0]) | 1, rng.randint(-6, 3) - FLTS[t][0])
    return num(rng.random() < .5, rng.getrandbits(rng.randint(1, FLTS[t][0])), rng.randint(-40, 20))


def close(rng, t, x):
    """A value a few units in the last place away from x."""
    m, e = tup(x)
    if m == 0:
        return rng.choice([x, ulp(t), ulp(t, -100), num(0, 1, -60)])
    p = FLTS[t][0]
    k = p - abs(m).bit_length()
    m, e = m * 2**k, e - k
    d = rng.choice([0, 0, 1, -1, 2, 50, 99, 100, 101, -100, 200, -201, rng.randint(-400, 400)])
    n = m + d
    return num(n < 0, abs(n), e) if abs(n) < 2**p else x


def tol_for(rng, t):
    k = rng.random()
    if k < .3:
        return []
    if k < .36:
        return [rng.choice([ulp(t, -1), inum(-1), num(1, 1, -60)])]
    if k < .38 :
        return [dict(k="nan", s=0, m=[], e=0)]
    if k < .75:
        return [ulp(t, rng.choice([0, 1, 2, 50, 99, 100, 101, 200]))]
    return [rng.choice([inum(1), num(0, 1, -1), num(0, 1, -8), inum(0), num(0, rng.getrandbits(12) | 1, -20)])]


def array_question(rng, t):
    f = rng.choice(["abs", "rel", "max_abs_error", "max_rel_error"])
    two = rng.random() < .45
    lst = rng.choice([0, 0, 1, 2]) if f in ("abs", "rel") else 0
    if two:
        sa = rng.choice([[1, 1], [1, 2], [1, 3], [2, 1], [3, 1], [2, 2], [2, 3], [3, 2]] + ([] if lst else [[0, 0], [4, 3]]))
    else:
        sa = [rng.choice([1, 2, 3, 4] if lst else [0, 1, 2, 3, 5, 9])]
    sb = sa
    if rng.random() < .08:
        sb = rng.choice([[1, 2], [2, 3], [2, 1]]) if two else [rng.choice([1, 2, 3, 4])]
    size = lambda q: q[0] if len(q) == 1 else q[0] * q[1]
    n = size(sa)
    a = [base(rng, t) for _ in range(n)]
    kind = rng.random()
    if kind < .3:                           # equal but for one place
        b = list(a)
        if n:
            i = rng.randrange(n)
            b[i] = rng.choice([close(rng, t, a[i]), neg(a[i]), base(rng, t), inum(0)])
    elif kind < .75:
        b = [close(rng, t, x) for x in a]
    else:
        b = [base(rng, t) for _ in a]
    b = (b + [inum(1)] * size(sb))[:size(sb)]
    if f == "max_rel_error" and rng.random() < .8:
        a = [x if x["m"] else inum(1) for x in a]
        b = [x if x["m"] else inum(1) for x in b]
    tol, near = tol_for(rng, t), []
    if f == "rel" and rng.random() < .6:
        near = rng.choice([[inum(0)], [inum(1)], [ulp(t)], [num(0, 1, -60)], tol_for(rng, t)])
    if f.startswith("max"):
        tol = []
    dflt = []
    if rng.random() < .4:
        dflt = [inum(rng.randint(-3, 9))] if f.startswith("max") else [rng.randint(0, 1)]
    if not n:                               # nothing is said of tolerances that are never compared with
        tol = tol if tol and tol[0]["k"] == "num" and not tol[0]["s"] else []
        near = near if near and near[0]["k"] == "num" and not near[0]["s"] else []
    return dict(f=f, t=t, sa=sa, sb=sb, a=a, b=b, tol=tol, near=near, dflt=dflt, list=lst, w=rng.randrange(1000))


def scalar_question(rng, t):
    f = rng.choice(["abs", "rel", "abs_error", "rel_error"])
    x = base(rng, t)
    y = close(rng, t, x) if rng.random() < .6 else base(rng, t)
    if f in ("abs", "abs_error", "rel_error") and rng.random() < .1:
        x = rand_value(rng, t)
        y = rng.choice([x, rand_value(rng, t)])
    tol = tol_for(rng, t) if f in ("abs", "rel") else []
    near = tol_for(rng, t) if f == "rel" else []
    return dict(f=f, t=t, sa=[], sb=[], a=[x], b=[y], tol=tol, near=near, dflt=[], list=0, w=0)


def c22(ctx):
    q, rng = ctx.quick, ctx.rng
    ctx.assumptions += ["relative comparisons and largest errors are asked for numbers only (no NaN or infinite operands)",
                        "the tolerance of a comparison of empty arrays is not looked at", "zeros of either sign count as the same number"]
    jobs = {"tol-clang": ("tol.cpp", [], ["-O0", "cxx=clang++"]), "tol-gcc": ("tol.cpp", [], ["-O2", "nosan"])}
    if not q:
        jobs["tol-quad"] = ("tol.cpp", ["STRICT_QUAD_PRECISION"], ["-O0", "nosan", "-lquadmath"])
    const = dict(Types_="{}", Depth=1)
    with cf.ThreadPoolExecutor(1) as ex:
        fb = ex.submit(build, ctx, jobs)
        vec = enumerate_spec(ctx, "Tol", dict(Types_='{"float", "double", "ld"}' if not q else '{"float", "double"}', Depth=1 if q else 2), ["Symmetric", "Reflexive", "Monotone", "Tight"], ["OnlyNegative"],
                             emit="[c |-> last'.c, o |-> last'.o]")
        cs = []
        for t in ("float", "double", "ld"):
            cs += [scalar_question(rng, t) for _ in range(300 if q else 8000)] + [array_question(rng, t) for _ in range(800 if q else 20000)]
        want = evaluate(ctx, "Tol", "Answer", cs, const, variables=("s", "last"))
        vec += [dict(c=c, o=o) for c, o in zip(cs, want)]
        bins = fb.result()
    ctx.log("%d questions" % len(vec))
    quad = bins.pop("tol-quad", None)
    for v in vec:
        ctx.op("%s %d%s" % (v["c"]["f"], len(v["c"]["sa"]), "!" if v["o"]["k"] == "err" else ""))
    for v in vec[::max(1, len(vec) // 6)]:
        ctx.sample(v)
    for n in bins:
        replay(ctx, bins[n], vec, n, judge=math_judge)
    if quad:
        cs = [scalar_question(rng, "quad") for _ in range(2000)] + [array_question(rng, "quad") for _ in range(4000)]
        want = evaluate(ctx, "Tol", "Answer", cs, const, variables=("s", "last"))
        replay(ctx, quad, [dict(c=c, o=o) for c, o in zip(cs, want)], "tol-quad", judge=math_judge)


CHECKS = {"C22": c22}
