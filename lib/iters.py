"""C10: iterators and index ranges (spec/Iter.tla)."""
from harness import *
from views import rpath, bases_text

LIN = ["fwd", "cfwd", "rev", "crev"]
RC = ["row", "crow", "rrow", "col", "ccol", "rcol"]
REL = ["==", "!=", "<", "<=", ">", ">="]
KINDS = {1: {"own": 0, "attached": 4, "fixed": 10}, 2: {"own": 1, "attached": 5, "fixed": 11}}
EMIT = "[c |-> [base |-> s.base, path |-> <<>>, fl |-> s.fl, it |-> s.it, d |-> s.d, cs |-> <<last'.c>>], o |-> Ok, t |-> [os |-> <<last'.o>>, it |-> s'.it, d |-> s'.d]]"


def judge(v, obs):
    if v["o"]["k"] == "err":
        return obs["o"]["k"] == "err"
    t, e = obs["t"], v["t"]
    if obs["o"] != v["o"] or t["os"] != e["os"]:
        return False
    return v["c"]["fl"] == "grid" or (t["d"] == e["d"] and [i if i["a"] else dict(a=0, p=0) for i in t["it"]] == e["it"])


def commands(rng, n, length, write):
    cs = []
    for _ in range(length):
        op = rng.choice(["none"] + ["begin", "end", "inc", "dec", "+=", "-=", "+", "k+", "-", "post++", "post--", "*", "->", "[]"] * 2 + ["copy", "diff", "cmp", "cmp", "some", "visit"] + ["set"] * (2 * write))
        r, q = rng.sample([1, 2, 3], 2)
        c = dict(op=op, r=r, q=q, k=rng.randint(-n - 1, n + 1) if rng.random() < .3 else rng.randint(-2, 3))
        if op in ("begin", "end", "visit"):
            c["k"] = rng.choice([1, 1, 1, 2])
        if op in ("copy", "diff", "cmp") and rng.random() < .1:
            c["q"] = r
        if op == "cmp":
            c["f"] = rng.choice(REL)
        if op == "set":
            c["x"] = rng.randint(-99, 99)
            if rng.random() < .5:
                c["k"] = 0
        cs.append(c)
    for r in (1, 2, 3):
        if rng.random() < .9:
            cs.insert(0, dict(op=rng.choice(["begin", "begin", "end"]), r=r, q=r, k=rng.choice([1, 1, 2])))
    return cs


def grid_commands(rng, length):
    cs = []
    shapes = [(rng.randint(0, 4), rng.randint(0, 4)) for _ in range(2)]
    for k in range(length):
        op = rng.choice(["none", "begin", "begin", "end", "copy", "inc", "inc", "inc", "inc", "post++", "post++", "cmp", "cmp", "*", "*", "visit"]) if k > 1 else "begin"
        m, n = rng.choice(shapes) if rng.random() < .93 else (rng.randint(-1, 5), rng.randint(-1, 5))
        r, q = rng.sample([1, 2, 3], 2)
        cs.append(dict(op=op, r=r, q=q, k=0, m=m, n=n, f=rng.choice(["==", "!="])))
    return cs


def sessions(ctx, dim, root, fixed, count, length):
    ins = []
    for _ in range(count):
        rng = ctx.rng
        if fixed:
            b = dict(d=1, n=3) if dim == 1 else dict(d=2, m=2, n=3)
        else:
            b = dict(d=1, n=rng.randint(0, 7)) if dim == 1 else rng.choice([dict(d=2, m=rng.randint(1, 4), n=rng.randint(1, 4))] * 9 + [dict(d=2, m=0, n=0)])
        shape = (b["n"],) if dim == 1 else (b["m"], b["n"])
        path, sh = rpath(rng, shape, rng.choice([0, 1, 1]), few_after=0, distinct=True)
        fl = rng.choice(LIN + (RC * 2 if len(sh) == 2 else []))
        ins.append(dict(base=b, path=path, fl=fl, cs=commands(rng, max(sh + (1,)), length, root == 0 and fl in ("fwd", "rev", "row", "col", "rrow", "rcol"))))
    return ins


def resolve(ctx, ins):
    """The outcome of every session; commands the contract excludes are dropped."""
    out = evaluate(ctx, "Iter", "Session", ins, dict(Shapes="{}", Flavours="{}", Regs=1, Jumps="{}"), variables=("s", "last"))
    vec = []
    for i, o in zip(ins, out):
        if o["o"]["k"] == "ok":
            keep = [q for q, x in enumerate(o["t"]["os"]) if x["k"] != "skip"]
            ctx.count("steps_outside_contract", len(i["cs"]) - len(keep))
            i = dict(i, cs=[i["cs"][q] for q in keep])
            o = dict(o, t=dict(o["t"], os=[o["t"]["os"][q] for q in keep]))
            for c, x in zip(i["cs"], o["t"]["os"]):
                ctx.op(("grid " if i["fl"] == "grid" else "") + c["op"] + ("!" if x["k"] == "err" else ""))
        vec.append(dict(c=i, o=o["o"], t=o["t"]))
    return vec


def c10(ctx):
    q = ctx.quick
    ctx.assumptions += ["moves that leave the range from the first element to one past the last are outside the contract and never made",
                        "iterators are not used after their array is resized or destroyed"]
    flags = ["-O0", "cxx=clang++"]
    jobs = {}
    for dim in (1, 2):
        for k, n in KINDS[dim].items():
            jobs["iter%d-%s" % (dim, k)] = ("iter.cpp", ["BASE=%d" % n, "FM=2", "FN=3", "TOP=1", "FEW=1"], flags)
        for r in (1, 2):
            jobs["iter%d-root%d" % (dim, r)] = ("iter.cpp", ["BASE=%d" % KINDS[dim]["own"], "ROOT=%d" % r, "TOP=1", "FEW=1"], flags)
        if not q:
            jobs["iter%d-double" % dim] = ("iter.cpp", ["BASE=%d" % KINDS[dim]["own"], "T_=double", "TOP=1", "FEW=1"], ["-O1"])
    vec, rnd = {}, {}
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        for dim, bs, regs, jumps in ((1, [0, 1, 3] if q else [0, 1, 2, 3, 4, 5], 2, "(-3)..3"), (2, [(1, 2), (2, 3)] if q else [(0, 0), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)], 2, "{-2, 0, 1}")):
            vec[dim] = enumerate_spec(ctx, "Iter", dict(Shapes="<-B", Flavours="<-FL", Regs=regs, Jumps="<-JJ"), ["InBounds", "ExactlyOnce", "Laws"], ["OnlyItem"], emit=EMIT,
                                      constraint="Unwritten", extra=bases_text(bs) + "\nJJ == %s\nFL == {%s}" % (jumps, ", ".join('"%s"' % f for f in LIN + RC)))
        ctx.log("%d + %d enumerated steps" % (len(vec[1]), len(vec[2])))
        for name in sorted(jobs):
            dim = int(name[4])
            root = int(name[-1]) if "root" in name else 0
            rnd[name] = sessions(ctx, dim, root, "fixed" in name, 300 if q else 3000, 25 if q else 60)
        grids = [dict(fl="grid", base=dict(d=1, n=0), path=[], cs=grid_commands(ctx.rng, 25 if q else 60)) for _ in range(600 if q else 6000)]
        every = [i for n in sorted(rnd) for i in rnd[n]] + grids
        res = resolve(ctx, every)
        for n in sorted(rnd):
            rnd[n], res = res[:len(rnd[n])], res[len(rnd[n]):]
        rnd["iter1-own"] = rnd.get("iter1-own", []) + res
        bins = fb.result()
    for name in sorted(bins):
        dim = int(name[4])
        use = vec[dim]
        if "fixed" in name:
            use = [v for v in use if (v["c"]["base"].get("m", 0), v["c"]["base"]["n"]) == ((2, 3) if dim == 2 else (0, 3))]
        if q and "own" not in name:
            use = use[::3]
        if "root" in name:
            use = [v for v in use if v["c"]["cs"][0]["op"] != "set"]
        bad = replay(ctx, bins[name], use, name, judge=judge)
        bad += replay(ctx, bins[name], rnd[name], name, judge=judge, variants=8)
        ctx.count("traces_validated_against_impl", len(rnd[name]) - min(bad, len(rnd[name])))
        ctx.log(name, "replayed", len(use), "steps and", len(rnd[name]), "sessions")
    for v in vec[1][:: max(1, len(vec[1]) // 4)]:
        ctx.sample(v)
    ctx.sample(rnd["iter1-own"][0] if "iter1-own" in rnd else {})


CHECKS = {"C10": c10}
