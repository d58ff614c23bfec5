"""C05-C07: selections, views and writing through them (spec/Paths.tla, Select.tla, Writes.tla)."""
import random
from harness import *

KIND1 = {"own": 0, "const": 2, "attached": 4, "expression": 8, "attached-const": 6, "fixed": 10}
KIND2 = {"own": 1, "const": 3, "attached": 5, "expression": 9, "attached-const": 7, "fixed": 11}
INV = ["InsideBase", "WalkAgrees", "Involutions", "Partitions"]
EMIT = "[c |-> [base |-> base, path |-> path'], o |-> last'.o, t |-> last'.t]"


def sel_judge(v, obs):
    return obs["o"] == v["o"] and (v["o"]["k"] == "err" or obs["t"] == v["t"])


def bases_text(bs):
    return "B == {" + ", ".join("[d |-> 1, n |-> %d]" % b if isinstance(b, int) else "[d |-> 2, m |-> %d, n |-> %d]" % b for b in bs) + "}"


def rsel(rng, n, valid, few=False, distinct=False):
    """A random selector over n positions, usually valid."""
    ks = ["seqN", "rev", "list"] if few else ["seq", "seqN", "all", "even", "odd", "rev", "skip", "first", "last", "list", "compl"]
    k = rng.choice(ks)
    if k in ("all", "even", "odd", "rev"):
        return dict(sel=k)
    if k == "skip":
        return dict(sel=k, c=rng.randint(1, n + 2) if valid else rng.randint(-2, 0))
    if k in ("first", "last"):
        return dict(sel=k, c=rng.randint(0, n) if valid else rng.choice([-1, n + 1, n + 5]))
    if k == "list":
        ix = [rng.randrange(n) for _ in range(rng.randint(0, 12))] if n else []
        if distinct:
            ix = rng.sample(range(n), rng.randint(0, min(n, 12)))
        if not valid:
            ix.insert(rng.randint(0, len(ix)), rng.choice([-1, n, n + 3]))
        return dict(sel=k, ix=ix)
    if k == "compl":
        ix = sorted(rng.sample(range(n), rng.randint(0, min(n, 12))))
        if not valid:
            ix = rng.choice([ix + [n], [-1] + ix, ix + ix[-1:] if ix else [n], ix[::-1] if len(ix) > 1 else [n + 1]])
        return dict(sel=k, ix=ix)
    if n == 0 or not valid:
        f = rng.randint(-1, n + 1)
        if k == "seq":
            return dict(sel=k, f=f, l=rng.randint(-1, n + 1), st=rng.randint(-3, 3))
        return dict(sel=k, f=f, c=rng.randint(-1, n + 2), st=rng.randint(-3, 3))
    f = rng.randrange(n)
    st = rng.choice([1, 1, 1, 2, 3, -1, -1, -2, -3, 5] + [0] * (not distinct))
    if k == "seq":
        l = f if st == 0 else rng.randint(f, n - 1) if st > 0 else rng.randint(0, f)
        return dict(sel=k, f=f, l=l, st=st)
    mx = n if st == 0 else (n - 1 - f) // st + 1 if st > 0 else f // -st + 1
    return dict(sel=k, f=f, c=rng.randint(0, mx), st=st)


def sel_len(s, n):
    """Only steers the generator towards valid paths; never used as an expectation."""
    k = s["sel"]
    try:
        return dict(all=lambda: n, rev=lambda: n, even=lambda: (n + 1) // 2, odd=lambda: n // 2, skip=lambda: -(-n // s["c"]),
                    first=lambda: s["c"], last=lambda: s["c"], list=lambda: len(s["ix"]), compl=lambda: n - len(s["ix"]),
                    seqN=lambda: s["c"], seq=lambda: 1 if s["st"] == 0 else abs(s["l"] - s["f"]) // abs(s["st"]) + 1)[k]()
    except Exception:
        return 0


def rpath(rng, shape, depth, few_after=1, distinct=False):
    """A random path and the shape it leads to; shape is (n,) or (m, n)."""
    rsel_ = lambda *a: rsel(*a, **dict(distinct=distinct)) if len(a) == 3 else rsel(*a[:4], distinct=distinct)
    path = []
    bad_at = rng.randrange(depth) if depth and rng.random() < .15 else -1
    for q in range(depth):
        good = q != bad_at
        if len(shape) == 1:
            n = shape[0]
            r = rng.random()
            if r < .7:
                s = rsel_(rng, n, good)
                path.append(dict(st="sel", s=s))
                shape = (sel_len(s, n),)
            elif r < .8:
                path.append(dict(st="view1"))
            else:
                divs = [d for d in range(1, n + 1) if n % d == 0] or [0]
                m = rng.choice(divs)
                c = n // m if m else 0
                if not good:
                    m += 1
                path.append(dict(st="view2", m=m, n=c))
                shape = (m, c)
        else:
            m, n = shape
            r = rng.choice(["sub", "sub", "rows", "cols", "row", "col", "diag0", "diag", "block", "blockN", "view1", "view2"])
            if r == "sub":
                a, b = rsel_(rng, m, good, q >= few_after), rsel_(rng, n, True, q >= few_after)
                if rng.random() < .5 and not good:
                    a, b = rsel_(rng, m, True, q >= few_after), rsel_(rng, n, False, q >= few_after)
                path.append(dict(st=r, r=a, c=b))
                shape = (sel_len(a, m), sel_len(b, n))
            elif r == "rows":
                s = rsel_(rng, m, good)
                path.append(dict(st=r, s=s))
                shape = (sel_len(s, m), n)
            elif r == "cols":
                s = rsel_(rng, n, good)
                path.append(dict(st=r, s=s))
                shape = (m, sel_len(s, n))
            elif r in ("row", "col"):
                k = m if r == "row" else n
                path.append(dict(st=r, i=rng.randrange(k) if good and k else rng.choice([-1, k, k + 2]), e=rng.randint(0, 1)))
                shape = (n if r == "row" else m,)
            elif r == "diag0":
                path.append(dict(st=r))
                shape = (min(m, n),)
            elif r == "diag":
                i = rng.randint(-m + 1, n - 1) if good and m and n else rng.choice([-m - 1, n, -m])
                path.append(dict(st=r, i=i))
                shape = (max(0, min(m + min(i, 0), n - max(i, 0))),)
            elif r in ("block", "blockN"):
                e = rng.randint(0, 1)
                if good and m and n:
                    i, j = sorted(rng.randrange(m) for _ in "ab"), sorted(rng.randrange(n) for _ in "ab")
                    fl = lambda k, x: k - 1 - x if e else x
                    if r == "block":
                        path.append(dict(st=r, i=fl(m, i[0]), j=fl(n, j[0]), i2=fl(m, i[1]), j2=fl(n, j[1]), e=e))
                    else:
                        path.append(dict(st=r, i=fl(m, i[0]), j=fl(n, j[0]), nr=i[1] - i[0] + 1, nc=j[1] - j[0] + 1, e=e))
                    shape = (i[1] - i[0] + 1, j[1] - j[0] + 1)
                else:
                    p = dict(st=r, i=rng.randint(-1, m), j=rng.randint(-1, n), e=e)
                    p.update(dict(i2=rng.randint(-1, m), j2=rng.randint(-1, n)) if r == "block" else dict(nr=rng.randint(-1, m + 1), nc=rng.randint(-1, n + 1)))
                    path.append(p)
                    shape = (0, 0)
            elif r == "view1":
                path.append(dict(st=r))
                shape = (m * n,)
            else:
                k = m * n
                divs = [d for d in range(1, k + 1) if k % d == 0] or [0]
                a = rng.choice(divs)
                b = k // a if a else 0
                if not good:
                    b += 1
                path.append(dict(st=r, m=a, n=b))
                shape = (a, b)
        shape = tuple(max(0, x) for x in shape)
        if 0 in shape:
            shape = (0,) * len(shape)
    return path, shape


def random_vectors(ctx, dim, count, size, depth):
    ins = []
    for _ in range(count):
        if dim == 1:
            n = ctx.rng.choice([0, 1, 2, 3, 5, 8, 13, 40, size])
            b, sh = dict(d=1, n=n), (n,)
        else:
            m, n = ctx.rng.randint(1, size), ctx.rng.randint(1, size)
            if ctx.rng.random() < .05:
                m = n = 0
            b, sh = dict(d=2, m=m, n=n), (m, n)
        ins.append(dict(base=b, path=rpath(ctx.rng, sh, ctx.rng.randint(1, depth))[0]))
    outs = evaluate(ctx, "Paths", "Eval", ins)
    return [dict(c=i, o=o["o"], t=o["t"]) for i, o in zip(ins, outs)]


def selection(ctx, dim):
    q = ctx.quick
    kinds = KIND1 if dim == 1 else KIND2
    names = list(kinds)
    jobs = {}
    for k in names:
        jobs["select%d-%s" % (dim, k)] = ("select.cpp", ["BASE=%d" % kinds[k], "FM=2", "FN=3", "TOP=2"], ["-O0", "cxx=clang++"])
    if not q:
        jobs["select%d-own-deep" % dim] = ("select.cpp", ["BASE=%d" % kinds["own"], "TOP=3"], ["-O0", "cxx=clang++", "nosan"])
        jobs["select%d-own-double" % dim] = ("select.cpp", ["BASE=%d" % kinds["own"], "T_=double", "TOP=2"], ["-O1"])
    if dim == 1:
        bases = list(range(0, 5 if q else 7))
    else:
        bases = [(0, 0), (1, 1), (1, 3), (2, 2), (3, 1), (2, 3)] if q else [(0, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 2)]
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        vec = enumerate_spec(ctx, "Select", dict(Bases="<-B", Depth=2, MaxIx=2 if q or dim == 2 else 3, Full="FALSE" if q or dim == 2 else "TRUE"),
                             INV, emit=EMIT, extra=bases_text(bases))
        rnd = random_vectors(ctx, dim, 3000 if q else 30000, 60 if dim == 1 else 8, 2)
        deep = [] if q else random_vectors(ctx, dim, 10000, 60 if dim == 1 else 8, 3)
        bins = fb.result()
    ctx.log("%d enumerated paths, %d random paths, %d deep paths" % (len(vec), len(rnd), len(deep)))
    for name in sorted(bins):
        if "fixed" in name:
            use = [v for v in vec if (v["c"]["base"].get("m", 0), v["c"]["base"]["n"]) == (2 if dim == 2 else 0, 3)]
        elif "deep" in name:
            use = deep
        else:
            use = vec[::2] + rnd[::2] if q and "attached-const" in name else vec + rnd
        bad = replay(ctx, bins[name], use, name, judge=sel_judge, variants=16)
        ctx.count("traces_validated_against_impl", len(use) - bad)
    for v in vec[:: max(1, len(vec) // 6)]:
        ctx.sample(v)
    for v in rnd[:4]:
        ctx.sample(v, 20)
    for v in vec + rnd + deep:
        for st in v["c"]["path"][-1:]:
            ctx.op(st["st"] + ("-" + st["s"]["sel"] if "s" in st else "") + ("!" if v["o"]["k"] == "err" else ""))


ASSUME = ["elements are opaque to selection: the element at base position p is p+1, so the contents shown identify the positions selected",
          "paths have at most %s selecting calls; the type of the object depends on the path, longer paths repeat the same types"]


def c05(ctx):
    ctx.assumptions += [ASSUME[0], ASSUME[1] % (2 if ctx.quick else 3)]
    selection(ctx, 1)


def c06(ctx):
    ctx.assumptions += [ASSUME[0], ASSUME[1] % (2 if ctx.quick else 3)]
    selection(ctx, 2)


WRITE1 = {"own": 0, "attached": 4, "fixed": 10}
WRITE2 = {"own": 1, "attached": 5, "fixed": 11}
WPROPS = ["OnlySelected", "RejectedWritesNothing", "ReadBack"]
WSTEP = 'IF r.o.k = "fault" THEN Trace[l].o.k = "err" /\\ s\' = Trace[l].t ELSE r.o = Trace[l].o /\\ r.t = Trace[l].t /\\ s\' = r.t'


def write_judge(v, obs):
    if v["o"]["k"] == "fault":  # a scalar operation fails part way: reported, contents unspecified
        return obs["o"]["k"] == "err"
    return obs["o"] == v["o"] and obs["t"] == v["t"]


def mat(rng, shape, lo, hi):
    size = shape[0] * (shape[1] if len(shape) == 2 else 1)
    return dict(m=shape[0] if len(shape) == 2 else -1, n=shape[-1], d=[rng.randint(lo, hi) for _ in range(size)])


def genw(dim, fixed, floating):
    def gen(rng, obs, k):
        w = rng.randrange(64)
        if obs is None or obs["o"]["k"] != "ok" and rng.random() < .3 or rng.random() < .02:
            if fixed:
                b = dict(d=1, n=3) if dim == 1 else dict(d=2, m=2, n=3)
            elif dim == 1:
                b = dict(d=1, n=rng.randint(0, 12))
            else:
                b = dict(d=2, m=rng.randint(1, 5), n=rng.randint(1, 5))
            return dict(op="init", base=b)
        t = obs["t"]
        b = t["base"]
        shape = (b["n"],) if dim == 1 else (b["m"], b["n"])
        path, sh = rpath(rng, shape, rng.randint(0, 2), distinct=True)
        big = max([abs(x) if isinstance(x, int) else 10 ** 6 for x in t["d"]] + [1])
        if rng.random() < .1:
            sh = tuple(max(0, x + rng.choice([-1, 0, 1])) for x in sh)
        if 0 in sh:
            sh = (0,) * len(sh)
        kind = rng.choice(["fill", "arr", "arr", "expr", "twin", "cs", "cs", "cs", "ca", "ca", "ca", "elem", "elem", "list"])
        if kind == "fill":
            a = dict(k=kind, x=rng.randint(-9, 9))
        elif kind == "arr":
            a = dict(k=kind, A=mat(rng, sh, -50, 50))
        elif kind == "expr":
            a = dict(k=kind, A=mat(rng, sh, -50, 50), x=rng.randint(-3, 3), y=rng.randint(-9, 9))
        elif kind == "twin":
            a = dict(k=kind)
        elif kind == "list":
            if len(sh) == 1:
                a = dict(k="list", xs=mat(rng, (min(sh[0], 12),), -50, 50)["d"])
            else:
                a = dict(k="rows", A=mat(rng, tuple(min(x, 4) for x in sh), -50, 50))
        elif kind == "elem":
            size = sh[0] * (sh[1] if len(sh) == 2 else 1)
            a = dict(k=kind, i=rng.randint(0, size - 1) if size and rng.random() < .9 else rng.choice([-1, size]), x=rng.randint(-99, 99))
        else:
            fs = ["+", "-"]
            if big < 2000:
                fs += ["*", "*"]
            if not floating:
                fs += ["/", "%", "&", "|", "^", ">>"] + (["<<"] if big < 2000 else [])
            f = rng.choice(fs)
            lo, hi = {"*": (-9, 9), "<<": (0, 5), ">>": (0, 9), "/": (-9, 9), "%": (-9, 9)}.get(f, (-60, 60))
            a = dict(k=kind, f=f)
            if kind == "cs":
                a["x"] = rng.randint(lo, hi)
                if f in "/%" and rng.random() < .8:
                    a["x"] = rng.choice([-7, -2, 1, 3, 10])
            else:
                a["A"] = mat(rng, sh, lo, hi)
                if f in "/%" and rng.random() < .8:
                    a["A"]["d"] = [x or 4 for x in a["A"]["d"]]
        return dict(op="write", path=path, a=a, w=w)
    return gen


def writes(ctx):
    q = ctx.quick
    flags = ["-O0", "cxx=clang++"]
    jobs, vec = {}, {}
    for dim, kinds in ((2, WRITE2), (1, WRITE1)):
        for k, n in kinds.items():
            jobs["write%d-%s" % (dim, k)] = ("write.cpp", ["BASE=%d" % n, "FM=2", "FN=3", "TOP=2"], flags)
        jobs["write%d-own-double" % dim] = ("write.cpp", ["BASE=%d" % kinds["own"], "T_=double", "TOP=%d" % (1 if q else 2)], flags)
        if not q:
            jobs["write%d-own-long" % dim] = ("write.cpp", ["BASE=%d" % kinds["own"], "T_=long", "TOP=2"], ["-O1"])
    bases = {1: [0, 1, 3], 2: [(0, 0), (1, 2), (2, 2), (2, 3)]} if q else {1: [0, 1, 2, 3, 4, 5], 2: [(0, 0), (1, 1), (1, 3), (2, 2), (2, 3), (3, 1), (3, 3)]}
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        for dim in (1, 2):
            vec[dim] = enumerate_spec(ctx, "Writes", dict(Bases="<-B", Xs="<-XS", Deep="TRUE" if dim == 1 or not q else "FALSE",
                                      Kinds='{"fill", "list", "rows", "arr", "expr", "twin", "cs", "ca", "elem"}'), ["SizeKept"], WPROPS,
                                      extra=bases_text(bases[dim]) + "\nXS == " + ("{-3, 0, 2, 5}" if q else "{-30, -3, 0, 1, 2, 5, 12}"))
        if q:  # pairs of steps with fewer operations
            vec[2] += enumerate_spec(ctx, "Writes", dict(Bases="<-B", Xs="<-XS", Deep="TRUE", Kinds='{"fill", "rows", "arr", "twin", "elem"}'),
                                     ["SizeKept"], WPROPS, extra=bases_text([(2, 3)]) + "\nXS == {5}")
        bins = fb.result()
    ctx.log("%d + %d enumerated writes" % (len(vec[1]), len(vec[2])))
    for name in sorted(bins):
        dim = int(name[5])
        use = vec[dim]
        fl = "double" in name
        if "fixed" in name:
            use = [v for v in use if (v["s"]["base"].get("m", 0), v["s"]["base"]["n"]) == (2 if dim == 2 else 0, 3)]
        if fl:
            use = [v for v in use if v["c"]["a"].get("f", "+") in "+-*" and (not q or len(v["c"]["path"]) < 2)]
        replay(ctx, bins[name], use, name, judge=write_judge, variants=64)
        ctx.log(name, "replayed", len(use))
        if fl and q:
            continue
        conform(ctx, bins[name], "Writes", genw(dim, "fixed" in name, fl), 24 if q else 150, 120 if q else 300, name, dict(Bases="{}", Xs="{}", Kinds="{}", Deep="FALSE"), step=WSTEP)
        ctx.log(name, "histories validated")
    for v in vec[1][:: max(1, len(vec[1]) // 3)] + vec[2][:: max(1, len(vec[2]) // 3)]:
        ctx.sample(v)


def c07(ctx):
    ctx.assumptions += ["selections that repeat a position are only filled with a value (the order of writes to one element is not part of the property)",
                        "operands do not overlap the written elements (the interface excludes overlap)",
                        "after a scalar fault (division by zero, bad shift) inside a compound update only the report is required"]
    writes(ctx)


SORTS = ["inc", "dec", "mod", "abs"]


def alternatives(vec):
    """Groups the enumerated transitions of one command: any listed outcome is allowed."""
    by = {}
    for v in vec:
        by.setdefault(jcanon([v["s"], v["c"]]), []).append(v)
    return [dict(vs[0], any=[[x["o"], x["t"]] for x in vs]) for vs in by.values()]


def any_judge(v, obs):
    return [obs["o"], obs["t"]] in v["any"]


def rfilter(rng):
    k = rng.choice(["open", "closed", "cond"])
    if k == "cond":
        return dict(f=k, p=rng.choice(["even", "pos", "none", "every"]))
    lo, hi = rng.randint(-30, 30), rng.randint(-30, 30)
    if rng.random() < .9:
        lo, hi = min(lo, hi), max(lo, hi)
    return dict(f=k, lo=lo, hi=hi)


def gens(dim, fixed, root, big):
    def gen(rng, obs, k):
        w = rng.randrange(16)
        if obs is None or rng.random() < .12:
            if fixed:
                b = dict(d=1, n=3) if dim == 1 else dict(d=2, m=2, n=2)
            elif dim == 1:
                b = dict(d=1, n=rng.choice([0, 1, 2, 5, 9, 16, 17, 18, 40, rng.randint(1, big)]))
            else:
                b = dict(d=2, m=rng.randint(1, 6), n=rng.randint(1, 6))
            size = b["n"] * b.get("m", 1)
            spread = rng.choice([1, 4, 40, 40])
            d = [rng.randint(-spread, spread) for _ in range(size)]
            r = rng.random()
            if r < .15:
                d.sort()
            elif r < .3:
                d.sort(reverse=True)
            return dict(op="init", base=b, d=d)
        t = obs["t"]
        b = t["base"]
        shape = (b["n"],) if dim == 1 else (b["m"], b["n"])
        kinds = ["see", "filter"] if root else ["sort", "sort", "sort", "shuffle", "see", "each", "filter", "filter"]
        kind = rng.choice(kinds)
        if kind == "filter" and dim == 2:
            kind = "see"
        wr = rng.randint(0, 1) if not root else 0
        path, sh = rpath(rng, shape, rng.randint(0, 1 if not root and not fixed and dim == 1 else 1), distinct=kind in ("sort", "shuffle", "each"))
        if kind == "filter" and len(sh) == 2:
            kind = "see"
        if kind == "each" and max([abs(x) for x in t["d"] if isinstance(x, int)] + [0]) > 10 ** 8:
            kind = "see"
        if kind == "sort":
            a = dict(k=kind, f=rng.choice(SORTS))
        elif kind == "filter":
            a = dict(k=kind, fs=[rfilter(rng) for _ in range(rng.randint(1, 2))], wr=wr, x=rng.randint(-9, 9))
        else:
            a = dict(k=kind)
        return dict(op="do", path=path, a=a, w=w)
    return gen


def c12(ctx):
    q = ctx.quick
    ctx.assumptions += ["the supplied order is a strict weak order; selections that repeat a position are not sorted (the standard algorithms exclude it)",
                        "elements are integers or doubles with integer values; elements that compare equal are interchangeable"]
    flags = ["-O0", "cxx=clang++"]
    jobs = {}
    for dim, kinds in ((1, WRITE1), (2, WRITE2)):
        for k, n in kinds.items():
            jobs["sort%d-%s" % (dim, k)] = ("sorting.cpp", ["BASE=%d" % n, "FM=2", "FN=%d" % (4 - dim), "TOP=1"], flags)
        for r in (1, 2):
            jobs["sort%d-root%d" % (dim, r)] = ("sorting.cpp", ["BASE=%d" % kinds["own"], "ROOT=%d" % r, "TOP=1"], flags)
        jobs["sort%d-double" % dim] = ("sorting.cpp", ["BASE=%d" % kinds["own"], "T_=double", "TOP=1"], flags if q else ["-O1"])
    vec = {}
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        for dim, bs, vals in ((1, [0, 1, 2, 3] if q else [0, 1, 2, 3, 4], "{-1, 4, 5}"), (2, [(2, 2), (1, 3)], "{-1, 4}"), (2, [(1, 1)] if q else [(2, 3)], "{4, 7}")):
            vec[dim] = vec.get(dim, []) + enumerate_spec(ctx, "Sorting", dict(Bases="<-B", Vals="<-VS", Deep="FALSE"), ["Total"], ["OnlySelected", "KeepsElements", "Determined"],
                                                         extra=bases_text(bs) + "\nVS == " + vals)
        bins = fb.result()
    vec = {d: alternatives(v) for d, v in vec.items()}
    ctx.log("%d + %d enumerated commands" % (len(vec[1]), len(vec[2])))
    for name in sorted(bins):
        dim = int(name[4])
        root = int(name[-1]) if "root" in name else 0
        use = vec[dim]
        if "fixed" in name:
            use = [v for v in use if (v["s"]["base"].get("m", 0), v["s"]["base"]["n"]) == ((2, 2) if dim == 2 else (0, 3))]
        if root:
            use = [v for v in use if v["c"]["a"]["k"] == "see" or v["c"]["a"]["k"] == "filter" and v["c"]["a"]["wr"] == 0]
        replay(ctx, bins[name], use, name, judge=any_judge, variants=16)
        ctx.log(name, "replayed", len(use))
        conform(ctx, bins[name], "Sorting", gens(dim, "fixed" in name, root, 60 if q else 150), 16 if q else 80, 80 if q else 250, name,
                dict(Bases="{}", Vals="{}", Deep="FALSE"), step="Legal(s, Trace[l].c, Trace[l].o, Trace[l].t) /\\ s' = Trace[l].t")
    for v in vec[1][:: max(1, len(vec[1]) // 4)] + vec[2][:: max(1, len(vec[2]) // 4)]:
        ctx.sample({k: v[k] for k in ("s", "c", "o", "t")})


CHECKS = {"C12": c12, "C05": c05, "C06": c06, "C07": c07}
