"""C15: text input and output (spec/IO.tla)."""
import os
from harness import *
from scalars import num, inum, rand_value, INTS, FLTS

TYPES = ["int", "long", "uint", "ulong", "bool", "float", "double", "ld", "quad"]
CPP = {"int": "int", "long": "long", "uint": "unsigned", "ulong": "unsigned long", "bool": "bool", "float": "float", "double": "double", "ld": "long double", "quad": "spp::float128"}
PLAIN = dict(sci=1, pf=7, pd=16, pl=19, pq=33, det=0, row=0)


def numbers(x):
    """well-formed observation: whatever looks like a specification value"""
    if isinstance(x, str):
        return x in ("num", "inf", "nan", "none", "text", "dir") or x in TYPES
    if isinstance(x, list):
        return all(map(numbers, x))
    if isinstance(x, dict):
        return all(map(numbers, x.values()))
    return abs(int(x)) < 2**31


def binaries(ctx, pairs):
    jobs = {}
    for name, (types, af) in pairs.items():
        jobs[name] = ("io.cpp", ["AF_=" + af, "TYPES_=" + " ".join("TRY(%s)" % CPP[t] for t in types)], ["-O0"] + (["nosan", "-lquadmath", "-DSTRICT_QUAD_PRECISION"] if "quad" in types else ["cxx=clang++"]))
    d = os.path.join(ctx.dir, "files")
    os.makedirs(d, exist_ok=True)
    ENV["IO_DIR"] = d
    return build(ctx, jobs)


def ch(x):
    return [ord(c) for c in x]


def word(rng, t, good):
    """one word; junk words are never readable in two ways"""
    if not good:
        return rng.choice(["x", "-", "+", "1x", "nan", "inf", "--1", "2147483648000000000000", "1,2", "0x", "true"] + (["1.5", "1e3", "2"] if t == "bool" else ["1.5", ".", "1e3"] if t not in FLTS else [".", "1e", "1e+", "e5", "1.5e", "+.", "1e999"]))
    if t == "bool":
        return rng.choice(["0", "1", "+1", "00", "1"])
    if t in INTS:
        w, sg = INTS[t]
        hi = 2**(w - 1) - 1 if sg else 2**w - 1
        lo = -2**(w - 1) if sg else 0
        n = rng.choice([rng.randint(-99, 99), rng.randint(-99, 99), hi, lo, hi - 1, lo + 1, rng.randint(lo, hi), rng.randint(0, 9)])
        n = max(lo, n)
        s = str(n)
        if rng.random() < .1 and n >= 0:
            s = "+" + s
        if rng.random() < .05:
            s = ("-" if n < 0 else "") + "00" + str(abs(n))
        if rng.random() < .03:
            s = str(hi + 1) if rng.random() < .5 or not sg else str(lo - 1)
        return s
    k = rng.random()
    if k < .3:
        return rng.choice(["1.", ".5", "-0.", "-.25", "+3", "0", "-0", "007", "1.50", "1e0", "1E1", "2e-2", "-1.5e+3", "0.1", "0e99", "12345678901234567890", "3.4028234664e38" if t == "float" else "1.5e30"])
    return "%s%d.%s%s" % (rng.choice(["", "-", "+"]), rng.randint(0, 10**rng.randint(1, 6)), "".join(rng.choice("0123456789") for _ in range(rng.randint(0, 18))), rng.choice(["", "", "e%d" % rng.randint(-20, 20), "E+%d" % rng.randint(0, 12)]))


def gap(rng, line=False):
    return "".join(rng.choice([" ", " ", "\t"] if line else [" ", "\n", "\t", "  ", "\r\n", "\v", "\f"]) for _ in range(rng.randint(1, 3)))


def text1(rng, t):
    n = rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 16, 17])
    bad = rng.random() < .25
    at = rng.choice([0, n - 1, rng.randrange(n)]) if n and bad else -1
    r = rng.choice(["", gap(rng)])
    for i in range(n):
        r += (gap(rng) if i else "") + word(rng, t, i != at)
    return r + rng.choice(["", "\n", gap(rng)])


def text2(rng, t):
    m, n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 9]), rng.choice([1, 1, 2, 3, 4, 5, 8, 9])
    if m * n > 24:
        n = 3
    k = rng.random()
    flaw = None if k < .6 else rng.choice(["ragged", "ragged", "word", "ragged-last"])
    r = "".join(rng.choice(["\n", "  \n", "\t\n"]) for _ in range(rng.choice([0, 0, 1, 2])))
    eol = rng.choice(["\n", "\n", "\r\n"])
    for i in range(m):
        w = n
        if flaw == "ragged" and i and rng.random() < .4 or flaw == "ragged-last" and i == m - 1 and i:
            w = max(1, n + rng.choice([-1, 1, 2]))
        ws = [word(rng, t, not (flaw == "word" and i == m - 1 and j == w - 1)) for j in range(w)]
        r += rng.choice(["", "", gap(rng, True)]) + ws[0] + "".join(gap(rng, True) + x for x in ws[1:]) + rng.choice(["", "", gap(rng, True)])
        if i < m - 1 or rng.random() < .7:
            r += eol
            if eol == "\n" and rng.random() < .15:
                r += "\n"
    return r


def value(rng, t):
    if t in FLTS and rng.random() < .5:
        return num(rng.random() < .5, rng.getrandbits(rng.randint(1, FLTS[t][0])), rng.randint(-60, 5))
    if t in ("ld", "quad"):
        return num(rng.random() < .5, rng.randint(0, 10**rng.randint(1, 6)), rng.randint(-8, 8))
    v = rand_value(rng, t)
    if v["k"] == "num" and abs(v["e"]) > 200 and rng.random() < .8:
        v["e"] //= 20
    return v


def finite(rng, t):
    while True:
        v = value(rng, t)
        if v["k"] == "num":
            return v


def fmt(rng):
    if rng.random() < .3:
        return dict(PLAIN, det=rng.randint(0, 1), row=rng.randint(0, 1))
    p = rng.choice([0, 1, 3, 6, 10, 17, 20] + ([120] if rng.random() < .1 else []))
    return dict(sci=int(rng.random() < .6), pf=rng.choice([p, 2]), pd=rng.choice([p, 16]), pl=rng.choice([p, 8]), pq=rng.choice([p, 33]), det=rng.randint(0, 1), row=rng.randint(0, 1))


def generator(types):
    def gen(rng, obs, k):
        if k == 0:
            return dict(op="init", t=rng.choice(types), i=1)
        st = obs["t"]
        if not isinstance(st.get("a"), list) or not isinstance(st.get("b"), dict):
            return None
        t = st["t"]
        i = rng.choice([1, 2])

        def src(twod=True):
            ks = ["a", "rev", "even", "twice", "view"] + (["b", "b", "bT", "brev"] if twod else [])
            if st["b"]["m"] > 0:
                ks += ["row", "col"]
            if t in ("int", "long", "float", "double", "ld", "quad"):
                lowest = t in INTS and any(x["s"] == 1 and x["e"] >= INTS[t][0] - 1 for x in st["a"] + st["b"]["d"])
                if not lowest:
                    ks += ["neg", "bneg"]
            x = rng.choice(ks)
            r = dict(k=x)
            if x in ("row", "col"):
                r["i"] = rng.randrange(st["b"]["m" if x == "row" else "n"])
            return r
        op = rng.choice(["seta", "setb", "text", "text", "text2", "text2", "read1", "read2", "read1", "read2", "write", "write", "write", "round", "fmt", "resetfmt", "del", "dir", "unread", "scal", "wbad", "emit", "emit", "emitx", "index"])
        name = ch(rng.choice(["", "", "A", "nm"]))
        w = rng.randrange(24)
        if op == "seta":
            return dict(op=op, i=1, q=[value(rng, t) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 11]))])
        if op == "setb":
            m, n = rng.choice([(0, 0), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (2, 2), (4, 3), (11, 1)])
            return dict(op=op, i=1, m=dict(m=m, n=n, d=[value(rng, t) for _ in range(m * n)]))
        if op == "text":
            return dict(op="text", i=i, x=ch(text1(rng, t)))
        if op == "text2":
            return dict(op="text", i=i, x=ch(text2(rng, t)))
        if op in ("read1", "read2"):
            return dict(op=op, i=i, w=w)
        if op == "write":
            return dict(op=op, i=i, src=src(), name=name, w=w)
        if op == "round":
            return dict(op="write", i=i, src=dict(k=rng.choice(["a", "b", "b"])), name=[], w=w)
        if op == "fmt":
            return dict(op=op, i=i, g=fmt(rng), w=w)
        if op in ("resetfmt", "del", "dir"):
            return dict(op=op, i=i, w=w)
        if op == "unread":
            return dict(op=op, i=i, w=w)
        if op == "scal":
            return dict(op=op, i=i, x=ch(text1(rng, t)), n=rng.randint(1, 6))
        if op == "wbad":
            return dict(op=op, i=i, src=src())
        if op == "emit":
            ss = [src()]
            if rng.random() < .25:
                ss, name = ss + [dict(k="a")], []
            return dict(op=op, i=i, srcs=ss, name=name, w=w)
        if op == "emitx":
            n = 1 if name else rng.randint(1, 3)
            return dict(op=op, i=i, q=[value(rng, t) for _ in range(n)], name=name, w=w)
        return dict(op="index", i=i, q=[inum(rng.randint(-2**40, 2**40)) for _ in range(rng.randint(0, 4))])
    return gen


def roundtrips(types):
    """set, write, read, write again: the path on which texts come from the library itself"""
    def gen(rng, obs, k):
        if k == 0:
            return dict(op="init", t=rng.choice(types), i=1)
        t = obs["t"]["t"]
        two = (k - 1) // 4 % 2
        j = (k - 1) % 4
        w = rng.randrange(24)
        if j == 0:
            if two:
                m, n = rng.choice([(1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 2), (9, 2), (2, 9)])
                return dict(op="setb", i=1, m=dict(m=m, n=n, d=[finite(rng, t) for _ in range(m * n)]))
            return dict(op="seta", i=1, q=[finite(rng, t) for _ in range(rng.choice([0, 1, 7, 8, 9, 15, 16, 17]))])
        if j == 1:
            return dict(op="write", i=1, src=dict(k="b" if two else "a"), name=[], w=w)
        if j == 2:  # something else is in the target
            return dict(op="setb", i=1, m=dict(m=1, n=2, d=[inum(1), inum(1)])) if two else dict(op="seta", i=1, q=[inum(1)] * rng.randint(0, 3))
        return dict(op="read2" if two else "read1", i=1, w=w)
    return gen


ALPH = {"int": "1-x \n", "uint": "1+x \n", "bool": "10x \n", "double": "1.-e \n"}


def C15(ctx):
    q = ctx.quick
    pairs = dict(io_int=(["int", "bool"], "Unaligned"), io_double=(["double", "uint"], "Aligned"), io_long=(["long", "float"], "Aligned"), io_ld=(["ld", "ulong"], "Unaligned"), io_quad=(["quad"], "Unaligned"))
    if not q:
        pairs.update(io_int_al=(["int", "ulong", "ld"], "Aligned"), io_double_un=(["double", "float", "long"], "Unaligned"))
    bins = binaries(ctx, pairs)
    alphas = [("int", ALPH["int"], 4 if q else 6), ("int", "1 \n", 6 if q else 9), ("double", ALPH["double"], 4 if q else 6), ("double", "1.e5-", 4 if q else 6), ("bool", ALPH["bool"], 4 if q else 5), ("uint", ALPH["uint"], 4 if q else 5)]
    props = ["Agreed", "AllOrNothing"]
    for n, (t, al, size) in enumerate(alphas):
        vec = enumerate_spec(ctx, "IO", dict(Type_='"%s"' % t, Alphabet="{%s}" % ", ".join(str(ord(c)) for c in al), MaxText=size), invariants=["Shaped", "Padded"], properties=props, name="IO-%d" % n, timeout=max(60, ctx.left()))
        ctx.log("texts over %r: %d readings" % (al, len(vec)))
        for v in vec:
            ctx.op("%s %s%s" % (v["c"]["op"], t, "!" if v["o"]["k"] == "err" else ""))
        for name, (types, _) in pairs.items():
            if t in types and name in bins:
                replay(ctx, bins[name], vec, name, variants=6)
    consts = dict(Type_='"int"', Alphabet="{}", MaxText=0)
    for name, (types, _) in pairs.items():
        if name in bins:
            conform(ctx, bins[name], "IO", generator(types), 24 if q else 160, 40, name, consts, step="Legal(s, Trace[l].c, Trace[l].o, Trace[l].t) = TRUE /\\ s' = Trace[l].t", vars_init='Start("int")', well=numbers)
            conform(ctx, bins[name], "IO", roundtrips(types), 10 if q else 80, 25, name, consts, step="Legal(s, Trace[l].c, Trace[l].o, Trace[l].t) = TRUE /\\ s' = Trace[l].t", vars_init='Start("int")', well=numbers)
            ctx.log("histories on", name)
    ctx.assumptions += ["words that only make sense as several numbers written together, unsigned words with a minus sign, lines of blanks between matrix rows and decimals that round to zero are given no meaning",
                        "spacing of written text is not specified"]


CHECKS = {"C15": C15}
