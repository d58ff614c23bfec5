"""C23: the bridge to the external linear-algebra library (spec/Bridge.tla)."""
from harness import *

EIGEN = ["STRICT_ENABLE_EIGEN", "EIGEN_INITIALIZE_MATRICES_BY_NAN"]
INC = ["-isystem", "/usr/include/eigen3"]
SMALL = [(0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]


def tuples(ps):
    return "{" + ", ".join("<<" + ", ".join("<<%d, %d>>" % w for w in p) + ">>" for p in ps) + "}"


def mat(rng, w, t):
    lo, hi = (0, 9) if t == "unsigned" else (-9, 9)
    return dict(m=w[0], n=w[1], d=[rng.randint(lo, hi) for _ in range(w[0] * w[1])])


def session(rng, shapes, t, length):
    s = [mat(rng, w, t) for w in shapes]
    cs = []
    for _ in range(length):
        i, j, k = (rng.randint(1, 3) for _ in range(3))
        m, n = shapes[i - 1]
        op = rng.choice(["put", "map_put", "get", "map_get", "map_shape", "map_const", "map_fill", "map_scale", "map_copy", "prod", "prod", "prod_into", "prod_into"])
        x = rng.randint(0 if t == "unsigned" else -5, 5)
        if op in ("put", "map_put", "get", "map_get"):
            if m * n == 0:
                continue
            c = dict(op=op, i=i, r=rng.randrange(m), c=rng.randrange(n))
            if "put" in op:
                c["x"] = x
        elif op in ("map_fill", "map_scale"):
            c = dict(op=op, i=i, x=x if op == "map_fill" else rng.choice([0, 1, 1, 2]))
        elif op == "map_copy":
            same = [q + 1 for q in range(3) if shapes[q] == shapes[i - 1]]
            c = dict(op=op, i=i, j=rng.choice(same))
        elif op == "prod":
            c = dict(op=op, i=i, j=j)
        elif op == "prod_into":
            c = dict(op=op, i=i, j=j, k=k)
        else:
            c = dict(op=op, i=i)
        cs.append(c)
    return dict(s=s, cs=cs)


def bounded(q, limit):
    """Histories whose numbers stay exactly representable in every type."""
    return all(abs(x) < limit for r in q for a in r["t"] for x in a["d"]) and all(abs(x) < limit for r in q for x in r["o"]["v"])


def defs(kind, t, af, other, shapes=None):
    d = ["KIND_=%d" % kind, "T_=" + t, "AF_=" + af, "OTHER_AF=" + other] + EIGEN
    for i, w in enumerate(shapes or []):
        d += ["M%d=%d" % (i, w[0]), "N%d=%d" % (i, w[1])]
    return d


def c23(ctx):
    q, rng = ctx.quick, ctx.rng
    ctx.assumptions += ["contents are small integers, so that sums of products are exact in every element type and order",
                        "products of arrays of different element types or of sizes known to differ at compile time are not programs"]
    fixed = [[(2, 3), (3, 2), (2, 2)], [(1, 3), (3, 1), (1, 1)], [(3, 1), (1, 3), (3, 3)]] + ([] if q else [[(4, 4), (4, 4), (4, 4)], [(5, 1), (1, 1), (5, 1)], [(1, 4), (4, 8), (1, 8)]])
    jobs, pools, ty = {}, {}, {}

    def add(name, kind, t, af, other, shapes=None, cc=["-O0", "cxx=clang++"]):
        jobs[name] = ("bridge.cpp", defs(kind, t, af, other, shapes), cc + INC)
        pools[name] = shapes
        ty[name] = t

    for t, af, other in [("double", "Unaligned", "Aligned"), ("float", "Aligned", "Unaligned"), ("int", "Unaligned", "Unaligned")] + ([] if q else [("long double", "Aligned", "Aligned"), ("long", "Aligned", "Unaligned"), ("unsigned", "Unaligned", "Aligned"), ("double", "Aligned", "Aligned")]):
        add("bridge-%s-%s-%s" % (t.replace(" ", ""), af[0], other[0]), 0, t, af, other)
    for i, sh in enumerate(fixed):
        t = ["double", "float", "long", "double", "int", "float"][i]
        add("bridge-fixed%d" % i, 1, t, "Aligned" if i % 2 else "Unaligned", "Unaligned" if i % 2 else "Aligned", sh)
        if i != 1 or not q:
            add("bridge-mixed%d" % i, 2, t, "Unaligned" if i % 2 else "Aligned", "Aligned", sh)
    add("bridge-gcc-O3", 0, "double", "Aligned", "Unaligned", None, ["-O3", "nosan"])
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        small = SMALL if not q else SMALL[:6]
        trip = [(a, b, c) for a in small for b in small for c in small]
        inv, prop = ["Shaped", "Laws"], ["Still", "Rejected"]
        vec = {None: enumerate_spec(ctx, "Bridge", dict(Pools="<-PoolSet"), inv, prop, emit="[s |-> p, c |-> last'.c, o |-> last'.o, t |-> p']", extra="PoolSet == " + tuples(trip))}
        for i, sh in enumerate(fixed):
            vec[i] = enumerate_spec(ctx, "Bridge", dict(Pools="<-PoolSet"), inv, prop, emit="[s |-> p, c |-> last'.c, o |-> last'.o, t |-> p']", extra="PoolSet == " + tuples([sh]), name="fixed%d" % i)
        bins = fb.result()
    ctx.log("%d enumerated transitions" % sum(map(len, vec.values())))
    nonneg = lambda v: all(x >= 0 for st in (v["s"], v["t"]) for a in st for x in a["d"]) and all(x >= 0 for x in v["o"]["v"])
    lim = {"int": 2**30, "long": 2**30, "unsigned": 2**30, "float": 2**24}
    for n in sorted(bins):
        vs = vec[None] if pools[n] is None else vec[fixed.index(pools[n])]
        if ty[n] == "unsigned":
            vs = [v for v in vs if nonneg(v)]
        for v in vs:
            ctx.op(v["c"]["op"] + ("!" if v["o"]["k"] == "err" else ""))
        replay(ctx, bins[n], vs, n, variants=6)
    for v in vec[None][::max(1, len(vec[None]) // 6)]:
        ctx.sample(v)
    # random histories, up to sizes at which the products are computed in blocks
    ss, own = [], []
    for n in sorted(bins):
        for k in range((25 if q else 300) if pools[n] is None else (10 if q else 100)):
            if pools[n]:
                sh = pools[n]
                if "mixed" in n:
                    sh = [sh[0]] + [rng.choice([(sh[0][1], rng.randint(1, 6)), (rng.randint(1, 6), sh[0][0]), (rng.randint(1, 6), rng.randint(1, 6))]) for _ in range(2)]
            else:
                top = rng.choice([3, 6, 12, 12, 24 if q else 48])
                r = [rng.randint(1, top) for _ in range(3)]
                sh = rng.choice([[(r[0], r[1]), (r[1], r[2]), (r[0], r[2])], [(r[0], r[0])] * 3, [(r[0], r[1]), (r[1], r[0]), (r[1], r[1])], [(r[0], r[1]), (r[2], r[1]), (r[1], 1)], [(1, r[0]), (r[0], 1), (1, 1)], [(0, 0), (r[0], r[1]), (0, 0)]])
            ss.append(session(rng, sh, ty[n], 8 if max(max(w) for w in sh) > 8 else 20))
            own.append(n)
    out = evaluate(ctx, "Bridge", "Session", ss, dict(Pools="{}"), variables=("p", "last"), chunk=10)
    per = {n: [] for n in bins}
    for s, o, n in zip(ss, out, own):
        st = s["s"]
        for c, r in zip(s["cs"], o):
            if r["o"]["v"] == ["skip"]:
                continue
            if not bounded([r], lim.get(ty[n], 2**30)):
                break
            if ty[n] == "unsigned" and not nonneg(dict(s=st, t=r["t"], o=r["o"])):
                break
            per[n].append(dict(s=st, c=c, o=r["o"], t=r["t"]))
            st = r["t"]
    for n in sorted(bins):
        replay(ctx, bins[n], per[n], n, variants=6)
    ctx.count("traces_validated_against_impl", len(ss))
    ctx.log("%d histories, %d steps" % (len(ss), sum(map(len, per.values()))))


CHECKS = {"C23": c23}
