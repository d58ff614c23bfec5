"""C13 and C14: strict scalars and scalar math (spec/Scalar.tla, spec/Math.tla)."""
import fractions, math
from harness import *

INTS = {"int": (32, True), "long": (64, True), "uint": (32, False), "ulong": (64, False)}
FLTS = {"float": (24, -149, 128), "double": (53, -1074, 1024), "ld": (64, -16445, 16384), "quad": (113, -16494, 16384)}
ALL = ["bool"] + list(INTS) + ["float", "double", "ld"]
CMP = ["==", "equal", "!=", "<", "<=", ">", ">="]
IOP = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]
FOP = ["+", "-", "*", "/"]


def num(neg, m, e=0):
    if m == 0:
        return dict(k="num", s=int(neg), m=[], e=0)
    while m % 2 == 0:
        m //= 2
        e += 1
    d = []
    while m:
        d.append(m % 4096)
        m //= 4096
    return dict(k="num", s=int(neg), m=d, e=e)


def inum(n):
    return num(n < 0, abs(n))


def rand_value(rng, t, near=None):
    """A value of type t (an operand; nothing is expected of it here)."""
    if t == "bool":
        return inum(rng.randint(0, 1))
    if t in INTS:
        w, sg = INTS[t]
        lo, hi = (-2**(w - 1), 2**(w - 1) - 1) if sg else (0, 2**w - 1)
        k = rng.random()
        n = rng.randint(-9, 9) if k < .4 else rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, w)) if k < .8 else rng.choice([lo, hi, lo + 1, hi - 1, 2**rng.randint(0, w - 1) - rng.randint(0, 1)])
        return inum(min(hi, max(lo, n if sg else abs(n))))
    p, low, top = FLTS[t]
    k = rng.random()
    if k < .03:
        return dict(k="nan", s=0, m=[], e=0)
    if k < .06:
        return dict(k="inf", s=rng.randint(0, 1), m=[], e=0)
    if k < .4:
        return num(rng.random() < .5, rng.randint(0, 40), rng.randint(-3, 2))
    if k < .95 or t in ("ld", "quad"):
        return num(rng.random() < .5, rng.getrandbits(rng.randint(1, p)), rng.randint(-p - 10, 10))
    return num(rng.random() < .5, rng.getrandbits(rng.randint(1, p)), rng.choice([low, low + 1, top - p, top - p - 3]))


def rand_session(rng, length, types=ALL):
    t = rng.choice(types)
    cs = [dict(op="set", t=t, y=rand_value(rng, t))]
    for _ in range(length):
        op = rng.choice(["un", "bin", "bin", "rbin", "comp", "comp", "comp", "self", "conv", "const", "set", "val"])
        y = rand_value(rng, t)
        if op == "un":
            f = rng.choice(["!"] if t == "bool" else ["+", "++", "p++", "--", "p--"] + ([] if t in ("uint", "ulong") else ["-"]) + (["~"] if t in INTS else []))
            c = dict(op=op, f=f)
        elif op in ("bin", "rbin", "comp", "self"):
            ops = (["^", "&&", "||"] if t == "bool" else IOP if t in INTS else FOP) + (CMP if "bin" in op else [])
            if t == "bool" and op in ("comp", "self"):
                continue
            f = rng.choice(ops)
            if f in ("<<", ">>") and rng.random() < .7:
                y = inum(rng.randint(-1 if t in ("int", "long") else 0, INTS[t][0] - 1))
            c = dict(op=op, f=f, y=y) if op != "self" else dict(op=op, f=f)
        elif op == "const":
            c = dict(op=op, f=rng.choice(["default", "Zero", "One"] + ([] if t == "bool" else ["Thousand", "Million", "Billion"]) + ([] if t in ("bool", "uint", "ulong") else ["NegOne"])))
        elif op == "conv":
            t = rng.choice(types)
            c = dict(op=op, to=t)
        elif op == "set":
            t = rng.choice(types)
            c = dict(op=op, t=t, y=rand_value(rng, t))
        else:
            c = dict(op=op)
        cs.append(c)
    return cs


def run_sessions(ctx, bins, count, length, spec="Scalar", const=None, types=ALL):
    """Commands whose result the wrapped type does not define are left out: the specification
    says which, so histories are first cut to the defined commands."""
    sess = [rand_session(ctx.rng, length, types) for _ in range(count)]
    const = const or dict(Types_="{}", Depth=1)
    out = evaluate(ctx, spec, "Session", sess, const, variables=("s", "last"), chunk=40)
    vec = []
    for cs, os in zip(sess, out):
        st = None
        for c, r in zip(cs, os):
            if c["op"] == "conv" and r["o"]["k"] == "undef":
                break               # later commands were drawn for another type
            if r["o"]["k"] == "undef":
                ctx.count("undefined_commands_skipped")
                continue
            v = dict(c=c, o=r["o"], t=r["t"])
            if st is None:
                v["s"] = dict(t="bool", v=inum(0))
            else:
                v["s"] = st
            st = r["t"]
            ctx.op(c["op"] + " " + c.get("f", "") + ("!" if r["o"]["k"] == "err" else ""))
            vec.append(v)
    bad = 0
    for n in bins:
        bad += replay(ctx, bins[n], vec, n, variants=42)
    ctx.count("traces_validated_against_impl", count)
    ctx.log("%d sessions, %d steps" % (count, len(vec)))
    return vec


def literal_inputs(rng, count):
    ins = []
    edge = {"_si": [0, 1, 2**31 - 1, 2**31], "_sl": [0, 1, 2**63 - 1, 2**63], "_sui": [0, 2**31, 2**32 - 1], "_sul": [0, 2**63, 2**64 - 1]}
    for sfx, vs in edge.items():
        for v in vs + [rng.randrange(1, min(vs[-2] + 1, 2**63)) for _ in range(count // 4)]:
            ins.append(dict(suffix=sfx, digits=[int(x) for x in str(v)], frac=[]))
    for sfx in ("_sf", "_sd", "_sl."):
        for a, b in [("0", "0"), ("1", "0"), ("0", "1"), ("3", "14159265358979323846"), ("16777217", "0"), ("9007199254740993", "0"), ("0", "000000001")] + \
                [(str(rng.randrange(10**rng.randint(1, 15))), "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 12)))) for _ in range(count)]:
            ins.append(dict(suffix=sfx, digits=[int(x) for x in a], frac=[int(x) for x in b]))
    for a, b in [("0", ""), ("7", ""), ("0", "0"), ("0", "1"), ("0", "5"), ("0", "75"), ("0", "000000001"), ("1", "0"), ("3", "14159265358979323846264338327950288419716939937510"), ("10384593717069655257060992658440193", "")] + \
            [(str(rng.randrange(10**rng.randint(1, 36))), "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 2, 12, 36])))) for _ in range(count)] + \
            [("0", "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 34)))) for _ in range(count)]:
        ins.append(dict(suffix="_sq", digits=[int(x) for x in a], frac=[int(x) for x in b], base=10))
    for k in range(8):
        ins.append(dict(suffix="_sq", digits=[0, k], frac=[], base=8))
    for k in range(3):
        ins.append(dict(suffix="_sq", digits=[0] + [rng.randrange(8) for _ in range(1 + k)], frac=[], base=8))
        ins.append(dict(suffix="_sq", digits=[rng.randrange(2) for _ in range(1 + 3 * k)], frac=[], base=2, prefix=["0b", "0B"][k % 2]))
    return ins


def literal_text(i, upper=False):
    if "text" in i:
        return i["upper" if upper else "text"]
    s = i["suffix"].rstrip(".")
    if i.get("prefix"):
        return i["prefix"] + "".join(map(str, i["digits"])) + (s.upper() if upper else s)
    d = "".join(map(str, i["digits"]))
    if i["frac"]:
        d += "." + "".join(map(str, i["frac"]))
    return d + (s.upper() if upper else s)


def literals(ctx):
    ins = literal_inputs(ctx.rng, 8 if ctx.quick else 60)
    want = evaluate(ctx, "Scalar", "Literal", ins, dict(Types_="{}", Depth=1), variables=("s", "last"))
    quad = lambda i: i["suffix"] == "_sq"
    good = [(i, w) for i, w in zip(ins, want) if w["k"] == "ok" and not quad(i)]
    quads = [(i, w) for i, w in zip(ins, want) if quad(i)]
    rej = [i for i, w in zip(ins, want) if w["k"] == "err" and not quad(i)]
    cs = [dict(f=f, t=t) for t in ("float", "double", "ld", "quad") for f in ("pi", "e", "sqrt2", "epsilon")]
    for c, w in zip(cs, evaluate(ctx, "Scalar", "Constant", cs, dict(Types_="{}", Depth=1), variables=("s", "last"))):
        c.update(suffix="_sq" if c["t"] == "quad" else "", text="constants::%s<%s>" % (c["f"], dict(ld="long double", quad="float128").get(c["t"], c["t"])),
                 upper="constants::%s_s%s" % (c["f"], dict(float="f", double="d", ld="ld", quad="q")[c["t"]]))
        (quads if c["t"] == "quad" else good).append((c, w))
    src, src4 = ctx.path("literals.cpp"), ctx.path("quads.cpp")
    # two spellings of each literal: one observed at run time, one forced through constant evaluation
    with open(src, "w") as f:
        f.write('#include "bignum.hpp"\nusing namespace spp;\nint main() {\n')
        for k, (i, _) in enumerate(good):
            f.write("   { auto x = %s; constexpr auto y = %s; std::puts((exact(x) == exact(y) ? typed(x) : std::string(\"\\\"spellings differ\\\"\")).c_str()); }\n" % (literal_text(i), literal_text(i, True)))
        f.write("}\n")
    with open(src4, "w") as f:
        f.write('#include "bignum.hpp"\nusing namespace spp;\nint main() {\n')
        for i, _ in quads:
            f.write("   try { auto x = %s; auto y = %s; std::puts((exact(x) == exact(y) ? typed(x) : std::string(\"\\\"spellings differ\\\"\")).c_str()); } catch(const StrictException&) { std::puts(err().c_str()); }\n" % (literal_text(i), literal_text(i, True)))
        f.write("}\n")
    bins = build(ctx, {"literals": (src, [], ["-O0", "cxx=clang++"]), "quads": (src4, ["STRICT_QUAD_PRECISION"], ["-O0", "nosan", "-lquadmath"])})
    for name, some in (("literals", good), ("quads", quads)):
        if name not in bins:
            continue
        r = run([bins[name]])
        got = r.stdout.decode().splitlines()
        for k, (i, w) in enumerate(some):
            obs = json.loads(got[k]) if k < len(got) else dict(crash=crash_summary(r.stderr.decode(errors="replace")))
            if obs != w:
                ctx.violation("literal %s: expected %s observed %s" % (literal_text(i), jcanon(w), jcanon(obs)), dict(kind="literal", text=literal_text(i), expected=w, observed=obs))
    # a literal whose value the type cannot hold has to be refused by the compiler
    def one(i):
        p = ctx.path("reject.cpp")
        open(p, "w").write("#include <strictpp/strict.hpp>\nusing namespace spp;\nint main() { auto x = %s; (void)x; }\n" % literal_text(i))
        return i, run(["clang++", "-std=gnu++20", "-w", "-fsyntax-only", "-DSTRICT_ERROR_EXCEPTIONS", "-I" + REPO, p])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for i, r in ex.map(one, rej):
            if r.returncode == 0:
                ctx.violation("literal %s is accepted although its value does not fit" % literal_text(i), dict(kind="literal", text=literal_text(i)))
    ctx.count("literals_and_constants", len(ins) + len(cs))


def named(ctx, bins):
    rng = ctx.rng
    ins = []
    n = 6 if ctx.quick else 60
    for f in ["Low", "High", "Start", "End", "Incr", "Value"]:
        for t in ALL:
            ins += [dict(f=f, t=t, y=rand_value(rng, t), terms=[]) for _ in range(n)]
    for f in ["First", "Endmost", "Size", "Count", "Pos", "Stride", "Index", "Rows", "Cols", "ImplicitInt", "ImplicitNonNegInt", "ImplicitIntStatic"]:
        for t in ("int", "long"):
            ins += [dict(f=f, t=t, y=inum(k), terms=[]) for k in (-1, 0, 1)] + [dict(f=f, t=t, y=rand_value(rng, t), terms=[]) for _ in range(n)]
    ins += [dict(f="Seed", t="uint", y=rand_value(rng, "uint"), terms=[]) for _ in range(n)] + [dict(f="ImplicitBool", t="bool", y=inum(k), terms=[]) for k in (0, 1)]
    for f in ("last", "int"):
        ins += [dict(f=f, t="long", y=inum(0), terms=[dict(sg=rng.choice("+-"), y=inum(rng.randint(-50, 50))) for _ in range(rng.randint(0, 5))]) for _ in range(4 * n)]
    want = evaluate(ctx, "Scalar", "Named", ins, dict(Types_="{}", Depth=1), variables=("s", "last"))
    vec = [dict(c=dict(i, op="named"), o=w) for i, w in zip(ins, want)]
    for b in bins:
        replay(ctx, bins[b], vec, b, variants=6)


def c13(ctx):
    q = ctx.quick
    ctx.assumptions += ["operations without a defined result in the wrapped type (signed overflow, shifts by the width or more, float-to-integer conversions out of range) are never asked for"]
    jobs = {"scalar-clang": ("scalar.cpp", [], ["-O0", "cxx=clang++"]), "scalar-gcc": ("scalar.cpp", [], ["-O1"])}
    if not q:
        jobs["scalar-gcc-O2"] = ("scalar.cpp", [], ["-O2", "nosan"])
        jobs["scalar-clang-O3"] = ("scalar.cpp", [], ["-O3", "cxx=clang++", "nosan"])
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        vec = []
        for ty in ['"bool", "int", "uint"', '"long", "ulong"', '"float", "double"', '"ld"']:
            vec += enumerate_spec(ctx, "Scalar", dict(Types_="{%s}" % ty, Depth=1 if q else 2), ["Typed", "Laws"], ["ResultTyped", "Reported", "Rejected"])
        ctx.log("%d enumerated transitions" % len(vec))
        literals(ctx)
        bins = fb.result()
    for v in vec:
        ctx.op("%s %s" % (v["c"]["op"], v["c"].get("f", v["c"].get("to"))) + ("!" if v["o"]["k"] == "err" else ""))
    for n in bins:
        replay(ctx, bins[n], vec, n, variants=42)
    for v in vec[::max(1, len(vec) // 6)]:
        ctx.sample(v)
    named(ctx, bins)
    vec = run_sessions(ctx, bins, 200 if q else 4000, 30)


KINDS3 = list(INTS) + ["float", "double", "ld"]


def same_zero(x):
    """Zeros of either sign are equal numbers."""
    if isinstance(x, dict) and x.get("k") == "num" and x.get("m") == []:
        return dict(x, s=0)
    return x


def math_judge(v, obs):
    a, b = v["o"], obs["o"]
    return isinstance(b, dict) and a["k"] == b["k"] and [same_zero(x) for x in a["v"]] == [same_zero(x) for x in b["v"]]


def exact_questions(ctx):
    rng, q = ctx.rng, ctx.quick
    ins = []
    sets = {}
    for t in KINDS3:
        p = 32 if t in INTS else FLTS[t][0]
        base = [inum(n) for n in (0, 1, 2, 5)] + ([num(0, 1, -1), num(0, 7, -2), num(1, 7, -2), num(1, 5, -1), num(0, 2**p - 1, -p), num(1, 2**p - 1, 0), num(0, 1, -40), dict(k="inf", s=0, m=[], e=0), dict(k="inf", s=1, m=[], e=0), dict(k="nan", s=0, m=[], e=0), num(1, 0)] if t in FLTS else [])
        if t not in ("uint", "ulong"):
            base += [inum(n) for n in (-1, -2, -5)]
        if t in INTS:
            w, sg = INTS[t]
            hi = 2**(w - 1) - 1 if sg else 2**w - 1
            base += [inum(hi), inum(hi - 1), inum(46340), inum(46341)] + ([inum(-hi), inum(-hi - 1)] if sg else [])
        sets[t] = base
        many = base + [rand_value(rng, t) for _ in range(20 if q else 300)]
        for f in ["signs", "abss", "squares", "cubes"] + (["invs", "sqrts", "floors", "ceils", "isinfs", "isnans", "isfinites"] if t in FLTS else []):
            ins += [dict(f=f, t=t, a=[x]) for x in many]
        pairs = [(x, y) for x in base for y in base] + [(rand_value(rng, t), rand_value(rng, t)) for _ in range(40 if q else 600)]
        for f in ["mins", "maxs"]:
            ins += [dict(f=f, t=t, a=[x, y]) for x, y in pairs]
        trip = [(rng.choice(many), rng.choice(base), rng.choice(base)) for _ in range(250 if q else 3000)] + [(x, y, z) for x in base[:5] for y in base[:5] for z in base[:5]]
        for f in ["clamps", "in_open", "in_closed"] + (["fmas"] if t in FLTS else []):
            ins += [dict(f=f, t=t, a=list(z)) for z in trip]
        if t in FLTS:
            ins += [dict(f="fmas", t=t, a=[rand_value(rng, t) for _ in range(3)]) for _ in range(60 if q else 600)]
        if t in INTS:
            ps = [(x, inum(k)) for x in base[:8] for k in list(range(0, 12)) + [31, 32, 63, 64, 65, 1000, 2**31 - 1]] + [(inum(2), inum(k)) for k in range(70)]
            ps += [(inum(rng.randint(-20 if sg else 0, 20)), inum(rng.randint(0, 20))) for _ in range(60)]
            if sg:
                ps += [(x, inum(k)) for x in base[:6] for k in (-1, -2, -2**31)]
            ins += [dict(f="ipows", t=t, a=[x, y]) for x, y in ps]
    ins += [dict(f="factorial", t="long", a=[inum(n)]) for n in list(range(-3, 22))]
    ins += [dict(f="binom_coeff", t="long", a=[inum(n), inum(k)]) for n in range(0, 72) for k in range(0, n + 2) if not q or n < 14 or (n * 7 + k) % 5 == 0 or abs(2 * k - n) < 3 or k < 2]
    ins += [dict(f="binom_coeff", t="long", a=[inum(n), inum(k)]) for n, k in [(-1, 0), (3, -1), (-2, -1), (5, 6), (100, 3), (1000, 2), (5000, 4998)]]
    return ins


def near_questions(ctx):
    rng, q = ctx.rng, ctx.quick
    cs = []
    n = 14 if q else 250

    def fl(t, lo, hi, neg=True):
        p = FLTS[t][0]
        return num(neg and rng.random() < .5, rng.randrange(max(1, int(lo * 2**20)), int(hi * 2**20) + 1), -20) if rng.random() < .6 else num(neg and rng.random() < .5, 2**(p - 1) + rng.getrandbits(p - 1), rng.randint(-3, 2) - (p - 1))

    for t in KINDS3[len(INTS):]:
        z = inum(0)
        for _ in range(n):
            for f in ("exps", "sins", "coss", "tans"):
                cs.append(dict(f=f, t=t, a=[fl(t, 0.001, 8), z]))
            for f in ("logs", "log2s", "log10s"):
                cs.append(dict(f=f, t=t, a=[fl(t, 0.01, 300, False), z]))
            cs.append(dict(f="cbrts", t=t, a=[fl(t, 0.01, 300), z]))
            cs.append(dict(f="pows", t=t, a=[fl(t, 0.1, 6, False), num(rng.random() < .4, rng.randint(0, 15), -1)]))
            for f in ("pows_int", "fast_pows_int"):
                cs.append(dict(f=f, t=t, a=[fl(t, 0.3, 3) if rng.random() < .5 else inum(rng.choice([-5, -3, -2, -1, 1, 2, 3, 7])), inum(rng.choice(list(range(-12, 13)) + [17, 20]))]))
            for f in ("two_sums", "two_prods"):
                p = FLTS[t][0]
                cs.append(dict(f=f, t=t, a=[num(rng.random() < .5, rng.getrandbits(rng.randint(1, p)), rng.randint(-30, 30)) for _ in range(2)]))
            cs.append(dict(f="pow_prods", t=t, a=[fl(t, 0.3, 3), inum(rng.randint(0, 13))]))
        for k in range(-10, 11):
            cs.append(dict(f="log2s", t=t, a=[num(0, 1, k), z]))
            if k > -5:
                cs.append(dict(f="exps_int", t=t, a=[inum(k - 2), z]))
        for k in range(0, 16):
            cs.append(dict(f="pow_prods", t=t, a=[num(k % 3 == 1, 2**FLTS[t][0] - 12345, -FLTS[t][0]), inum(k)]))
        cs.append(dict(f="pow_prods", t=t, a=[inum(2), inum(-1)]))
        for k in (-7, -1, 0, 1, 2, 3, 63, 64, 65, 127):
            cs.append(dict(f="fast_pows_int", t=t, a=[inum(rng.choice([2, -2])), inum(k)]))
    return cs


def c14(ctx):
    q = ctx.quick
    ctx.assumptions += ["minimum, maximum and sign of NaN are not asked for, nor integer results that do not fit", "zeros of either sign count as the same number",
                        "transcendental functions are accepted within 16 units in the last place of an enclosure computed from their series"]
    jobs = {"math-clang": ("math.cpp", [], ["-O0", "cxx=clang++"]), "math-gcc": ("math.cpp", [], ["-O2"])}
    const = dict(Types_="{}", Depth=1)
    var = ("s", "last")
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        rng = ctx.rng
        laws = [dict(t=t, x=rand_value(rng, t), y=rand_value(rng, t), n=rng.randint(0, 70), k=rng.randint(0, 70)) for t in KINDS3 for _ in range(12 if q else 100)]
        if not all(evaluate(ctx, "Math", "Lawful", laws, const, variables=var, chunk=10)):
            raise CheckError("a law of Math.tla does not hold")
        ins = exact_questions(ctx)
        want = evaluate(ctx, "Math", "Fn", ins, const, variables=var)
        cons = [dict(f=f, t=t, a=[]) for f in ("epsilon", "pi", "e", "sqrt2") for t in KINDS3[len(INTS):]]
        want += evaluate(ctx, "Math", "Const", cons, const, variables=var)
        vec = [dict(c=i, o=w) for i, w in zip(ins + cons, want) if w["k"] != "undef"]
        ctx.log("%d exact questions, %d of them without a defined result" % (len(want), len(want) - len(vec)))
        bins = fb.result()
    for v in vec:
        ctx.op(v["c"]["f"] + " " + v["c"]["t"] + ("!" if v["o"]["k"] == "err" else ""))
    for n in bins:
        replay(ctx, bins[n], vec, n, judge=math_judge, variants=2)
    for v in vec[::max(1, len(vec) // 6)]:
        ctx.sample(v)
    near = near_questions(ctx)
    for c in near:
        ctx.op(c["f"] + " " + c["t"])
    adjudicate(ctx, bins, "Math", "Accept", near, "math", const, var, well=lambda o: isinstance(o["v"], list))
    ctx.log("%d bounded questions" % len(near))


CHECKS = {"C13": c13, "C14": c14}
