"""C21: one error contract under every build configuration (spec/Config.tla)."""
import arrays, fixed, iters, scalars, textio, views
from harness import *

# name: (checks, thrown, asserts compiled in, flags)
DEBUG_THROW = (True, True)
CFG = {
    "throw": (True, True, ["-O0", "cxx=clang++"]),
    "assert": (True, False, ["-O0", "cxx=clang++", "-USTRICT_ERROR_EXCEPTIONS"]),
    "release-throw": (False, True, ["-O1", "cxx=clang++", "-DSTRICT_DEBUG_OFF"]),
    "release-assert": (False, False, ["-O0", "cxx=clang++", "-USTRICT_ERROR_EXCEPTIONS", "-DSTRICT_DEBUG_OFF"]),
    "quad": (True, True, ["-O0", "nosan", "-lquadmath", "-DSTRICT_QUAD_PRECISION"]),
    "quad-release": (False, True, ["-O2", "nosan", "-lquadmath", "-DSTRICT_QUAD_PRECISION", "-DSTRICT_DEBUG_OFF"]),
    "discard": (True, True, ["-O0", "cxx=clang++", "-DSTRICT_REMOVE_NODISCARD"]),
    "ndebug": (True, True, ["-O0", "cxx=clang++", "-DNDEBUG"]),
    "ndebug-release": (False, True, ["-O3", "nosan", "-DNDEBUG", "-DSTRICT_DEBUG_OFF"]),
    "trace": (True, False, ["-O0", "nosan", "-std=gnu++23", "-USTRICT_ERROR_EXCEPTIONS", "-DSTRICT_STACKTRACE", "-lstdc++_libbacktrace"]),
    "trace-throw": (True, True, ["-O0", "nosan", "-std=gnu++23", "-DSTRICT_STACKTRACE", "-lstdc++_libbacktrace"]),
    "cpp23": (True, True, ["-O0", "cxx=clang++", "-std=gnu++23"]),
}
ALL4 = "{[checks |-> x, thrown |-> y] : x \\in BOOLEAN, y \\in BOOLEAN}"
CONST = dict(Configs="<-CF", Seqs="<-SQ", Mats="<-MT", Ks="<-KK", Length=1)


def extra(cf=ALL4, seqs="{<<>>}", mats="{MEmpty}", ks="{0}"):
    return "CF == %s\nSQ == %s\nMT == %s\nKK == %s" % (cf, seqs, mats, ks)


def g(name):
    return dict(checks=CFG[name][0], thrown=CFG[name][1])


def judge(v, obs):
    w, o = v["o"], obs["o"]
    if o.get("k") != "ok" or not isinstance(o["v"], dict):
        return False
    o = o["v"]
    return o["os"] == w["os"] and o["end"] == ("abort" if w["end"] == "abort" else "ok") and (w["end"] == "abort" or o["t"] == w["t"])


def programs(rng, count, length):
    ins = []
    for _ in range(count):
        n = rng.randint(0, 5)
        m, k = rng.choice([(0, 0), (1, 1), (2, 3), (3, 2), (1, 4), (3, 1)])
        q = dict(a=[rng.randint(0, 9) for _ in range(n)], b=dict(m=m, n=k, d=[rng.randint(0, 9) for _ in range(m * k)]))
        cs = []
        for _ in range(length):
            op = rng.choice(["at1", "at1", "sub1", "at2", "at2", "sub2", "put1", "put2", "v1", "v2", "div", "resize", "resize", "pop", "cut", "max", "add", "list", "un"])
            far = rng.random() < .12
            i, j = (rng.choice([-3, -2, -1, 6, 7, 9]), rng.randint(-1, 5)) if far else (rng.randint(0, 3), rng.randint(0, 2))
            if op in ("v1", "v2") and not far:
                i, j = rng.choice([(1, n), (n, 1), (m, k), (k, m), (1, m * k), (2, 2)])
            if op == "resize" and not far:
                i = rng.choice([m * k, n, 2, rng.randint(0, 6)])
            h = {"at1": ["own", "const", "rev", "crev", "even", "expr", "temp", "view", "cview", "fixed"] + (["row", "col"] if m else []), "at2": ["own", "const", "temp", "brev", "trans", "expr", "fixed"],
                 "put1": ["own", "rev", "even", "view"], "put2": ["own", "brev"], "v1": ["own", "const", "rev", "crev", "view", "cview"], "v2": ["own", "const", "brev"]}.get(op.replace("sub", "at"), ["own"])
            cs.append(dict(op=op, h=rng.choice(h), last=rng.random() < .3 and op not in ("v1", "v2"), i=i, j=j))
        ins.append(dict(q=q, cs=cs))
    return ins


def whole_programs(ctx, names, bins):
    """programs of spec/Config.tla: every one-request program in bounds, random longer ones"""
    q = ctx.quick
    seqs = "{<<>>, <<3>>, <<3, 5>>, <<1, 4, 2, 6>>}" if q else "{<<>>, <<3>>, <<3, 5>>, <<1, 4, 2>>, <<1, 4, 2, 6>>, <<6, 5, 4, 3, 2, 1>>}"
    mats = "{MEmpty, [m |-> 2, n |-> 1, d |-> <<7, 8>>], [m |-> 2, n |-> 2, d |-> <<1, 2, 3, 4>>]}" if q else "{MEmpty, [m |-> 1, n |-> 3, d |-> <<7, 8, 9>>], [m |-> 3, n |-> 1, d |-> <<7, 8, 9>>], [m |-> 2, n |-> 3, d |-> <<1, 2, 3, 4, 5, 6>>], [m |-> 2, n |-> 1, d |-> <<7, 8>>]}"
    vec = enumerate_spec(ctx, "Config", CONST, ["Sound"], ["NoTrace", "Modes", "Lost", "Agree", "Refused"], extra=extra(seqs=seqs, mats=mats, ks="{-2, -1, 0, 1, 2, 4}" if q else "{-7, -2, -1, 0, 1, 2, 3, 4, 6}"),
                         emit="[g |-> s.g, q |-> s.q, c |-> last'.c, o |-> last'.o, t |-> s'.q]")
    if not q:  # two requests in a row, on the specification only
        enumerate_spec(ctx, "Config", dict(CONST, Length=2), ["Sound"], ["NoTrace", "Modes", "Lost", "Agree", "Refused"], extra=extra(seqs="{<<>>, <<3, 5>>}", mats="{MEmpty, [m |-> 1, n |-> 2, d |-> <<7, 8>>]}", ks="{-1, 0, 2}"), emit="0", name="Config-deep")
    ctx.log("%d enumerated requests" % len(vec))
    by = {}
    for v in vec:
        if v["o"]["k"] != "lost":
            by.setdefault((v["g"]["checks"], v["g"]["thrown"]), []).append(
                dict(c=dict(op="program", q=v["q"], cs=[v["c"]]), o=dict(os=[v["o"]] if v["o"]["k"] != "abort" else [], end="abort" if v["o"]["k"] == "abort" else "ok", t=v["t"])))
            ctx.op(v["c"]["op"] + {"ok": "", "err": "!", "abort": "!!"}[v["o"]["k"]])
    rnd = programs(ctx.rng, 400 if q else 6000, 12)
    for key in sorted(set(CFG[n][:2] for n in names)):
        ins = [dict(p, g=dict(checks=key[0], thrown=key[1])) for p in rnd]
        out = evaluate(ctx, "Config", "Program", ins, CONST, extra(), variables=("s", "last"))
        by.setdefault(key, [])
        ctx.count("programs", len(out))
        use = by[key]
        by[key] = (use, [dict(c=dict(op="program", q=p["q"], cs=p["cs"][:len(o["os"]) + (o["end"] == "abort")]), o=o) for p, o in zip(ins, out)])
    said = dict(zip(names, evaluate(ctx, "Config", "Banner", [dict(g=g(n), quad="quad" in n, trace="trace" in n) for n in names], CONST, extra(), variables=("s", "last"))))
    for n in names:
        if n not in bins:
            continue
        one, many = by[CFG[n][:2]]
        if q:  # every configuration sees another part of the single requests, the four main ones together all of them
            k = {"assert": 3, "release-throw": 1}.get(n, 6)
            one = one[names.index(n) % k::k]
        if "trace" in n:  # a stack trace takes long
            one, many = ctx.rng.sample(one, 600 if q else 4000), many[:60 if q else 1000]
        replay(ctx, bins[n], one, n, judge=judge, variants=12)
        replay(ctx, bins[n], many, n, judge=judge, variants=12)
        replay(ctx, bins[n], [dict(c=dict(op="banner"), o=said[n])], n)
        ctx.count("traces_validated_against_impl", len(many))
        ctx.log(n, len(one), len(many))
    ctx.sample(by[(True, False)][1][0] if (True, False) in by else {})


def table(ctx):
    """How a request with a given contract ends in a given configuration."""
    ins = [dict(g=dict(checks=a, thrown=b), always=c, o=dict(k=k, v=[])) for a in (False, True) for b in (False, True) for c in (False, True) for k in ("ok", "err")]
    out = evaluate(ctx, "Config", "EndingOf", ins, CONST, extra(), variables=("s", "last"))
    return {(i["g"]["checks"], i["g"]["thrown"], i["always"], i["o"]["k"]): o["k"] for i, o in zip(ins, out)}


def others(ctx, srcs):
    """(driver jobs, vectors, always checked, judge, variants) taken from the other specifications"""
    q = ctx.quick
    eq = lambda v, o: o["o"] == v["o"] and (v["o"]["k"] == "abort" or "t" not in v or o["t"] == v["t"])
    res = {}
    res["arr1"] = (srcs["arr1"], arrays.vectors1(ctx, 3), False, eq, 60)
    res["arr2"] = (srcs["arr2"], arrays.vectors2(ctx, 2), False, eq, 60)
    vec = []
    for ty in ['"bool", "int", "ulong"', '"double"']:
        vec += enumerate_spec(ctx, "Scalar", dict(Types_="{%s}" % ty, Depth=1), ["Typed"], [])
    res["scalar"] = (srcs["scalar"], vec, False, eq, 42)
    vec = enumerate_spec(ctx, "IO", dict(Type_='"int"', Alphabet="{%s}" % ", ".join(str(ord(c)) for c in "1-x \n"), MaxText=4 if q else 5), [], [], name="IO-c")
    vec += enumerate_spec(ctx, "IO", dict(Type_='"double"', Alphabet="{%s}" % ", ".join(str(ord(c)) for c in "1.e \n"), MaxText=3 if q else 5), [], [], name="IO-d")
    for w in range(6):
        vec.append(dict(s=vec[0]["s"], c=dict(op="unread", i=1, w=w), o=dict(k="err", v=[]), t=vec[0]["s"]))
    for k in ("a", "b"):
        vec.append(dict(s=vec[0]["s"], c=dict(op="wbad", i=1, src=dict(k=k)), o=dict(k="err", v=[]), t=vec[0]["s"]))
    res["io"] = (srcs["io"], vec, True, eq, 6)
    vec = enumerate_spec(ctx, "Iter", dict(Shapes="<-B", Flavours="<-FL", Regs=1, Jumps="<-JJ"), [], [], emit=iters.EMIT, constraint="Unwritten",
                         extra=iters.bases_text([0, 2]) + "\nJJ == (-2)..2\nFL == {%s}" % ", ".join('"%s"' % f for f in iters.LIN))
    for v in vec:  # one move per session: the answer to it is the answer of the session
        if v["t"]["os"][0]["k"] == "err":
            v["o"] = dict(k="err", v=[])
    inner = lambda v, o: iters.judge(dict(v, o=dict(k="ok", v=[])), o)
    res["iter"] = (srcs["iter"], vec, False, died(inner), 8)
    f12 = fixed.CONF["f1-2"]
    const, ex = fixed.constants(f12, Vals="{7}", MaxDim=3)
    res["fixed"] = (srcs["fixed"], enumerate_spec(ctx, "Fixed", const, [], [], extra=ex), False, eq, 60)
    for dim, bs in ((1, [0, 1, 3]), (2, [(0, 0), (1, 2), (2, 2)])):
        vec = enumerate_spec(ctx, "Select", dict(Bases="<-B", Depth=2, MaxIx=2, Full="FALSE"), [], emit=views.EMIT, extra=views.bases_text(bs))
        res["select%d" % dim] = (srcs["select%d" % dim], vec, False, died(views.sel_judge), 16)
    vec = enumerate_spec(ctx, "Writes", dict(Bases="<-B", Xs="<-XS", Deep="FALSE", Kinds='{"fill", "list", "rows", "arr", "expr", "twin", "cs", "ca", "elem"}'), [], [],
                         extra=views.bases_text([(0, 0), (1, 2), (2, 2)]) + "\nXS == {-3, 0, 2, 5}")
    res["write2"] = (srcs["write2"], [v for v in vec if v["o"]["k"] != "fault"], False, died(views.write_judge), 64)
    vec = views.alternatives(enumerate_spec(ctx, "Sorting", dict(Bases="<-B", Vals="<-VS", Deep="FALSE"), [], [], extra=views.bases_text([0, 1, 3]) + "\nVS == {-1, 4, 5}"))
    res["sort1"] = (srcs["sort1"], vec, False, died(views.any_judge), 16)
    for k in res:
        if not res[k][1]:
            raise CheckError("no requests for " + k)
    return res


def died(judge):
    return lambda v, obs: obs["o"] == v["o"] if v["o"]["k"] == "abort" else judge(v, obs)


def reused(ctx, names, bins, res, tab):
    rng = ctx.rng
    for n in names:
        checks, thrown = CFG[n][:2]
        for k in sorted(res):
            if "%s-%s" % (k, n) not in bins:
                continue
            _, vec, always, jd, variants = res[k]
            use = []
            for v in vec:
                if v["o"]["k"] not in ("ok", "err"):
                    continue
                e = tab[(checks, thrown, always, v["o"]["k"])]
                if e == "lost":
                    continue
                if e == "abort":
                    v = dict(v, o=dict(k="abort", v=[]), c=dict(v["c"], fork=1))
                use.append(v)
            dead = [v for v in use if v["o"]["k"] == "abort"]
            live = [v for v in use if v["o"]["k"] != "abort"]
            if "trace" in n:
                dead = rng.sample(dead, min(len(dead), 500))
            if ctx.quick:
                live = live if len(live) < 4000 else rng.sample(live, 4000)
                dead = dead if len(dead) < 1500 else rng.sample(dead, 1500)
            replay(ctx, bins["%s-%s" % (k, n)], live + dead, "%s-%s" % (k, n), judge=jd, variants=variants)
            ctx.count("requests_that_die", len(dead))
            ctx.log("%s-%s" % (k, n), len(live), len(dead))


def c21(ctx):
    q = ctx.quick
    ctx.assumptions += ["an invalid request that a configuration does not check has no meaning and is never made", "move assignment between resizable arrays of different shape (a programming error in the library's own terms) is not made",
                        "with assertions and NDEBUG together nothing can reject; that combination is not claimed"]
    names = ["throw", "assert", "release-throw", "release-assert", "quad", "trace", "cpp23", "ndebug-release"] if q else list(CFG)
    main = ["assert", "release-throw"] if q else ["assert", "release-throw", "release-assert", "ndebug", "discard", "cpp23", "ndebug-release", "trace"]
    d = os.path.join(ctx.dir, "files")
    os.makedirs(d, exist_ok=True)
    ENV["IO_DIR"] = d
    jobs = {n: ("config.cpp", ["T_=long", "AF_=Aligned"] if n in ("quad", "release-assert", "cpp23") else [], list(CFG[n][2])) for n in names}
    srcs = dict(arr1=("arr1.cpp", ["T_=int"]), arr2=("arr2.cpp", ["T_=double", "AF_=Aligned", "OTHER_AF=Unaligned"]), scalar=("scalar.cpp", []), io=("io.cpp", ["TYPES_=TRY(int) TRY(double)"]),
                iter=("iter.cpp", ["BASE=0", "TOP=1", "FEW=1"]), fixed=fixed.job(fixed.CONF["f1-2"])[:2], select1=("select.cpp", ["BASE=0", "TOP=2"]), select2=("select.cpp", ["BASE=1", "TOP=2"]),
                write2=("write.cpp", ["BASE=1", "TOP=1"]), sort1=("sorting.cpp", ["BASE=0", "TOP=1"]))
    for n in main:
        for k in srcs:
            fl = list(CFG[n][2])
            if k in ("select1", "select2", "write2", "sort1", "fixed"):
                if q and n != "release-throw" and k != "fixed":
                    continue
                fl = ["-O0" if f == "-O1" else f for f in fl]
            jobs["%s-%s" % (k, n)] = (srcs[k][0], srcs[k][1], fl)
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        res = others(ctx, srcs)
        tab = table(ctx)
        bins = fb.result()
    ctx.log("built", len(bins))
    whole_programs(ctx, names, bins)
    reused(ctx, main, bins, res, tab)


CHECKS = {"C21": c21}
