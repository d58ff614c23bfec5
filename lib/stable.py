"""C20: compensated reductions (spec/Stable.tla)."""
import itertools
from harness import *
from scalars import num, inum, FLTS

UNARY = ["sum", "prod", "mean", "norm1", "norm1_scaled", "norm2", "norm2_scaled", "norm_lp", "norm_lp_scaled", "semi_sum"]
SPAN = {"float": 30, "double": 90, "ld": 110, "quad": 200}     # exponents stay this close to zero


def shapes(rng, n):
    if rng.random() < .6:
        return [n]
    ms = [m for m in range(1, n + 1) if n % m == 0] or [0]
    m = rng.choice(ms)
    return [m, n // m if m else 0]


def question(rng, f, t, a, **kw):
    c = dict(f=f, t=t, a=a, b=[], p=[], x=inum(0), lp=1, d=[], w=rng.randrange(120))
    c.update(kw)
    c.setdefault("sa", shapes(rng, len(a)) if f in UNARY else [len(a)])
    c.setdefault("sb", c["sa"])
    if not a and rng.random() < .7:
        c["d"] = [inum(rng.randint(-9, 9))]
    elif rng.random() < .1:
        c["d"] = [inum(rng.randint(-9, 9))]
    return c


def value(rng, t, span=None, neg=True):
    p = FLTS[t][0]
    s = span if span is not None else SPAN[t]
    bits = rng.choice([1, 2, p // 2, p - 1, p, p, p])
    m = (1 << (bits - 1)) | rng.getrandbits(bits) >> 1 | 1
    return num(neg and rng.random() < .5, m, rng.randint(-s, s) - bits)


def tup(v):
    """The signed significand and exponent of an operand."""
    m = 0
    for d in reversed(v["m"]):
        m = m * 4096 + d
    return (-m if v["s"] else m), v["e"]


def neg(v):
    return dict(v, s=1 - v["s"]) if v["m"] else v


def cancelling(rng, t, n):
    """Large terms that cancel, around small ones, in a random order."""
    p = FLTS[t][0]
    a = []
    while len(a) < n - 1:
        k = rng.random()
        x = value(rng, t)
        if k < .55:
            a += [x, neg(x)]
        elif k < .75:
            m, e = tup(x)
            a += [num(m < 0, abs(m), e), num(m > 0, abs(m) + rng.choice([1, -1, 2]) if abs(m).bit_length() < p else abs(m), e)]
        else:
            a.append(value(rng, t, 6))
    rng.shuffle(a)
    return a[:n]


def small_alphabet(t):
    p = FLTS[t][0]
    one = [inum(1), num(0, 1, p), num(0, 1, -p), num(0, 3, p - 2), num(0, 2**p - 1, 0)]
    return [inum(0)] + one + [neg(x) for x in one[:4]]


def questions(ctx, types):
    rng, q = ctx.rng, ctx.quick
    out = []
    for t in types:
        p = FLTS[t][0]
        # every sequence over a few letters around the rounding unit
        al = small_alphabet(t)
        for n in range(0, 4 if q else 5):
            for k, a in enumerate(itertools.product(al, repeat=n)):
                if n == 4 and k % 3:
                    continue
                out.append(question(rng, "sum", t, list(a)))
                if n < 4 and (not q or k % 3 == 0):
                    out.append(question(rng, "dot", t, list(a), b=list(rng.choices(al, k=n))))
        for _ in range(700 if q else 9000):
            f = rng.choice(UNARY + ["sum", "sum", "prod", "mean", "norm1"])
            n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20])
            if f == "prod":
                a = [value(rng, t, 2) if rng.random() < .85 else inum(rng.randint(-3, 3)) for _ in range(min(n, 12))]
            elif f in ("norm_lp", "norm_lp_scaled"):
                a = [value(rng, t, 3) if rng.random() < .8 else inum(rng.randint(-3, 3)) for _ in range(n)]
            elif f.startswith("norm2"):
                a = [value(rng, t, SPAN[t] // 3) if rng.random() < .8 else inum(rng.randint(-5, 5)) for _ in range(n)]
            elif rng.random() < .15:
                a = [inum(rng.randint(-9, 9)) for _ in range(n)]
            else:
                a = cancelling(rng, t, n)
            out.append(question(rng, f, t, a, lp=rng.choice([1, 2, 3, 4, 5, 7, 0, -1] if rng.random() < .3 else [1, 2, 3, 4, 5]), **({"d": [inum(7)]} if f in UNARY and not a and rng.random() < .5 else {})))
        for _ in range(250 if q else 4000):
            n = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 16])
            f = rng.choice(["dot", "dot", "semi_dot"])
            half = SPAN[t] // 3
            a, b = [], []
            while len(a) < n:
                x, y = value(rng, t, half), value(rng, t, half)
                a.append(x), b.append(y)
                if rng.random() < .6:        # products that nearly cancel, or do so exactly
                    k = rng.random()
                    if k < .4:
                        a.append(neg(y)), b.append(x)
                    else:
                        m, e = tup(y)
                        a.append(neg(x)), b.append(num(m < 0, abs(m) - 2 if abs(m) > 4 else abs(m), e))
            o = list(zip(a, b))[:n]
            rng.shuffle(o)
            sa = shapes(rng, n)
            sb = sa
            if rng.random() < .08:           # shapes that differ
                sb = [n + 1] if len(sa) == 1 else rng.choice([[sa[1], sa[0]], [sa[0] + 1, sa[1]]])
            nb = sb[0] if len(sb) == 1 else sb[0] * sb[1]
            b = [y for _, y in o][:nb]
            b += [inum(1)] * (nb - len(b))
            out.append(question(rng, f, t, [x for x, _ in o], b=b, sa=sa, sb=sb))
        for _ in range(200 if q else 3000):
            n = rng.choice([0, 1, 2, 3, 4, 5, 7])
            f = rng.choice(["poly", "polyp", "gpoly"])
            xs = [value(rng, t, 2) if rng.random() < .7 else inum(rng.randint(-3, 3)) for _ in range(n)]
            cs = [value(rng, t, 4) if rng.random() < .7 else inum(rng.randint(-9, 9)) for _ in range(n)]
            ps = [rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 9]) for _ in range(n)]
            if rng.random() < .1 and n:
                ps[rng.randrange(n)] = -1
            if rng.random() < .08:
                ps = ps[:-1] if ps else [1]
            if f == "gpoly" and rng.random() < .08:
                xs = xs[:-1] if xs else [inum(1)]
            out.append(question(rng, f, t, cs, b=xs if f == "gpoly" else [], p=[] if f == "poly" else ps, x=value(rng, t, 2) if rng.random() < .7 else inum(rng.randint(-3, 3))))
        # long ones: block sums, many tiny terms after a large one, heavy cancellation
        for k in range(14 if q else 150):
            n = rng.choice([63, 64, 65, 127, 128, 129, 192, 200, 640])
            one = inum(rng.choice([1, -3, 5]))
            tiny = [num(0, 2**p - rng.randint(1, 2**(p - 2)), -2 * p - rng.randint(0, 1)) for _ in range(3)]
            a = [tiny[i % 3] for i in range(n)]
            a[rng.choice([0, 0, n // 2, n - 1])] = one
            f = ["sum", "semi_sum", "mean", "norm1", "semi_dot", "dot", "semi_sum"][k % 7]
            out.append(question(rng, f, t, a, b=[inum(1)] * n if "dot" in f else []))
            a = cancelling(rng, t, n)
            out.append(question(rng, rng.choice(["sum", "mean", "norm1", "semi_sum"]), t, a))
    return out


def c20(ctx):
    q = ctx.quick
    ctx.assumptions += ["terms and results are finite, and neither they nor the rounding errors of products underflow",
                        "the results are admitted up to corrections of second order in the rounding unit (times the sum of magnitudes)",
                        "floating-point contraction and reassociation are not enabled (no -ffast-math)"]
    jobs = {"stable-clang": ("stable.cpp", [], ["-O0", "cxx=clang++"]), "stable-gcc-O2": ("stable.cpp", [], ["-O2", "nosan"])}
    if not q:
        jobs["stable-clang-O3"] = ("stable.cpp", [], ["-O3", "cxx=clang++", "nosan"])
        jobs["stable-quad"] = ("stable.cpp", ["STRICT_QUAD_PRECISION"], ["-O1", "nosan", "-lquadmath"])
    const = dict(Alphabet="{}", Depth=1)
    with cf.ThreadPoolExecutor(1) as ex:
        fb = ex.submit(build, ctx, jobs)
        abc = "{-7, -2, 0, 1, 3, 4}" if q else "{-7, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7}"
        enumerate_spec(ctx, "Stable", dict(Alphabet="<-Abc", Depth=4), ["SumMeets", "DotMeets", "ProdMeets", "Symmetric"], emit="0", extra="Abc == " + abc, constraint="Bounded")
        bins = fb.result()
    quad = bins.pop("stable-quad", None)
    cs = questions(ctx, ["float", "double", "ld"])
    for c in cs:
        ctx.op("%s %s" % (c["f"], c["t"]))
    for c in cs[::max(1, len(cs) // 6)]:
        ctx.sample(c)
    well = lambda o: isinstance(o["v"], list) and (not o["v"] or isinstance(o["v"][0], str))
    ctx.log("%d questions" % len(cs))
    adjudicate(ctx, bins, "Stable", "Admits", cs, "stable", const, ("q", "last"), well=well)
    if quad:
        adjudicate(ctx, {"stable-quad": quad}, "Stable", "Admits", [c for c in questions(ctx, ["quad"])], "stable-quad", const, ("q", "last"), well=well)


CHECKS = {"C20": c20}
