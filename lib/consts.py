"""C19: constant evaluation. Programs whose outcome the specifications determine are evaluated
by the compiler (static_assert) and at run time; a run the specification rejects must not be a
constant expression and must be rejected at run time."""
import random as pyrandom
from harness import *
import exprs, fixed, texts

# not usable in constant evaluation before C++26 (std::pow and the like) or not declared constexpr
NOT_CONST = re.compile(r"\b(exp|log|log2|log10|sqrt|cbrt|sin|cos|tan|pow|pow_int|two_prod|pow_prod|floors|norm2|norm2_scaled|norm_lp|norm_lp_scaled|all_finite|has_inf|has_nan|blas_array|unusual)\(")


class ConstMixin:
    def decls(self):
        out = []
        for i, v in enumerate(self.vars):
            T, d = exprs.CT[v["t"]], v["sh"].d
            if v["kind"] == "fixed":
                out.append("FixedArray%dD<%s, %s> v%d; fill(v%d, V[%d]);" % (d, T, ", ".join(map(str, v["sh"].pin)), i, i, i))
            elif v["kind"] == "own":
                out.append("auto v%d = load%d<%s>(V[%d]);" % (i, d, T, i))
            else:
                out.append("auto m%d = load%d<%s>(V[%d]);" % (i, d, T, i))
                out.append({"const": "const auto& v%d = m%d;", "attach": "auto v%d = m%d(" + ("place::all" if d == 1 else "place::all, place::all") + ");",
                            "cattach": "auto v%d = std::as_const(m%d).view" + "1D();" if d == 1 else "auto v%d = std::as_const(m%d).rows(place::all);"}[v["kind"]] % (i, i))
        return " ".join(out)


class ConstProg(ConstMixin, exprs.Prog):
    def source(self):
        return super().source().replace("static std::string prog%d(const J& c)" % self.num, "constexpr bool prog%d(const J& c, const J& want)" % self.num).replace("look(c, ", "look(c, want, ")


class ConstAsk(ConstMixin, exprs.AskProg):
    def source(self):
        b = self.body
        if self.fin == "visit":
            b = "[&] { std::vector<double> s; for_each(r, [&s](auto x) { s.push_back(scaled(x)); }); return s; }()"
        return """constexpr bool prog%d(const J& c, const J& want) {
   const J& V = c["v"]; const J& P = c["p"]; (void)P; (void)V;
   %s
   auto&& r = %s;
   return matches(want, %s);
}
""" % (self.num, self.decls(), self.root.cpp if self.root.owner else "(" + self.root.cpp + ")", b)


class Case:
    """One call of a constexpr function with literal data."""
    def __init__(self, fn, arg, want, rejected, desc):
        self.fn, self.rejected, self.desc = fn, rejected, desc
        self.call = fn + "()" if arg is None else '%s(J::of(R"(%s)"), J::of(R"(%s)"))' % (fn, jcanon(arg), jcanon(want))

    def static(self):
        if self.rejected:
            return "static_assert(!constant<[] { return %s; }>);" % self.call
        return "static_assert(%s);" % self.call


def swap_class(mod_make, cls, base):
    """Makes programs of class cls with the generator of the run-time check."""
    def f(*a):
        old = getattr(exprs, base)
        setattr(exprs, base, cls)
        try:
            return mod_make(*a)
        finally:
            setattr(exprs, base, old)
    return f


def expression_cases(ctx, nprog, nask, runs):
    progs = []
    for structural in (False, True):
        progs += [p for p in swap_class(exprs.make, ConstProg, "Prog")(ctx, nprog, structural, 2) if not NOT_CONST.search(p.source())]
    asks = [p for p in swap_class(exprs.asks, ConstAsk, "AskProg")(ctx, nask) if not NOT_CONST.search(p.source()) and "near1" not in p.body and p.fin not in ("polyp", "gpoly")]
    units = []
    for i, p in enumerate(progs + asks):
        p.num = i
    ins = [(p, p.run(ctx.rng)) for p in progs for _ in range(runs)]
    res = evaluate(ctx, "Expr", "Program", [dict(e=r.ast, v=r.v, w=r.w) for _, r in ins], timeout=ctx.left())
    cases = {p.num: [] for p in progs + asks}
    for (p, r), x in zip(ins, res):
        x = x if isinstance(x, list) else [x]
        ks = [y["k"] for y in x]
        if "skip" in ks:
            continue
        err = "err" in ks
        want = 0 if err else [[x[0]["d"], x[0]["m"], x[0]["n"]], x[1]["x"], x[2]["x"]]
        cases[p.num].append(Case("prog%d" % p.num, dict(p=r.p, v=r.v, w=r.w), want, err, p.root.cpp))
    ins = [(p, p.run(ctx.rng)) for p in asks for _ in range(runs)]
    res = evaluate(ctx, "Expr", "Ask", [dict(e=r.ast, q=r.q, v=r.v) for _, r in ins], timeout=ctx.left())
    for (p, r), x in zip(ins, res):
        if x["k"] == "skip":
            continue
        cases[p.num].append(Case("prog%d" % p.num, dict(p=r.p, v=r.v), 0 if x["k"] == "err" else x["v"], x["k"] == "err", p.body + " of " + p.root.cpp))
    for p in progs + asks:
        for k in p.kinds:
            ctx.op(k)
        if hasattr(p, "fin"):
            ctx.op("query " + p.fin)
        units.append((p.source(), cases[p.num]))
    return units


STEPS = ["-fconstexpr-steps=2000000000", "-fconstexpr-depth=4000"]
GSTEPS = ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=1000000", "-fconstexpr-depth=4000"]


class Evaluator:
    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = ctx.path("constant")
        os.makedirs(self.dir)
        h = os.path.join(self.dir, "all.hpp")
        open(h, "w").write('#include "%s/drivers/constant.hpp"\n' % VERIF)
        base = ["-std=gnu++20", "-w", "-DSTRICT_ERROR_EXCEPTIONS", "-I" + REPO]
        self.clang = ["clang++"] + base + STEPS + ["-include-pch", h + ".pch", "-ferror-limit=0", "-fno-color-diagnostics", "-fno-caret-diagnostics", "-fconstexpr-backtrace-limit=3"]
        self.gcc = [CXX] + base + GSTEPS + ["-include", h, "-fsyntax-only", "-fmax-errors=0"]
        for cmd in (["clang++"] + base + STEPS + ["-x", "c++-header", h, "-o", h + ".pch"], [CXX] + base + GSTEPS + ["-x", "c++-header", h, "-o", h + ".gch"]):
            r = run(cmd, timeout=200)
            if r.returncode:
                raise CheckError("the headers do not compile:\n" + r.stderr.decode(errors="replace")[:3000])

    def file(self, name, units, body):
        p = os.path.join(self.dir, name + ".cpp")
        lines = [u[0].replace("\n", " ") for u in units]
        where = {}
        for u in units:
            for c in u[1]:
                where[len(lines) + 1] = c
                lines.append(body(c))
        open(p, "w").write("\n".join(lines) + "\n")
        return p, where

    def failing(self, cmd, name, units):
        """cases whose static_assert the compiler does not accept"""
        p, where = self.file(name, units, lambda c: c.static())
        t = time.time()
        r = run(cmd + [p], timeout=max(30, self.ctx.left()))
        err = r.stderr.decode(errors="replace")
        bad = {}
        stray = []
        for l in err.splitlines():
            m = re.match(r"^(.*?):(\d+):\d+: (fatal )?error: (.*)", l)
            if not m:
                continue
            c = where.get(int(m.group(2))) if m.group(1).endswith(name + ".cpp") else None
            if c:
                bad.setdefault(c, m.group(4))
            else:
                stray.append(l)
        if "internal compiler error" in err or r.returncode < 0:
            raise CheckError("the compiler fails on generated programs:\n" + err[:2000])
        if r.returncode and (stray or not bad):
            return None, "\n".join(stray or [err])[:1500]
        return bad, ""

    def runtime(self, name, units):
        p, where = self.file(name + "r", units, lambda c: "static bool call%d() { return %s; }" % (id(c), c.call))
        ids = list(where.values())
        open(p, "a").write("int main() {\n" + "".join("   at_run_time(%d, %s, call%d);\n" % (i, "true" if c.rejected else "false", id(c)) for i, c in enumerate(ids)) + "   return failures != 0;\n}\n")
        exe = os.path.join(self.dir, name + ".exe")
        r = run(self.clang + ["-O0", "-fsanitize=undefined", "-fno-sanitize-recover=all", p, "-o", exe], timeout=max(30, self.ctx.left()))
        if r.returncode:
            return None, r.stderr.decode(errors="replace")[:1500]
        r = run([exe], timeout=max(30, self.ctx.left()))
        os.unlink(exe)
        out = r.stdout.decode(errors="replace").splitlines()
        if r.returncode not in (0, 1):
            return None, "the program ended with %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[:800])
        return {ids[int(l.split()[0])]: l.split(None, 1)[1] for l in out}, ""


def decide(ctx, units):
    ev = Evaluator(ctx)
    units = [u for u in units if u[1]]
    ctx.rng.shuffle(units)
    n = max(1, min(NCPU * 3, len(units)))
    shards = [units[i::n] for i in range(n)]
    cases = [c for u in units for c in u[1]]
    src = {c: u[0] for u in units for c in u[1]}
    ctx.log("%d functions, %d cases, %d to be rejected" % (len(units), len(cases), sum(c.rejected for c in cases)))

    def one(i):
        bad, why = ev.failing(ev.clang + ["-fsyntax-only"], "shard%d" % i, shards[i])
        if bad is None:
            raise CheckError("generated programs do not compile:\n" + why)
        rt, why = ev.runtime("shard%d" % i, shards[i])
        return bad, rt, why
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, range(n)))
    doubt = [c for bad, _, _ in res for c in bad]
    ctx.log("%d cases to confirm with the other compiler" % len(doubt))
    said = {c: w for bad, _, _ in res for c, w in bad.items()}

    def again(c):
        bad, why = ev.failing(ev.gcc, "one%d" % id(c), [(src[c], [c])])
        return c, (bad or {}).get(c) if bad is not None else why
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for c, w in ex.map(again, doubt[:200]):
            if w:
                ctx.violation("constant evaluation of %s %s (%s)" % (c.call[:400], "succeeds but must not be a constant expression" if c.rejected else "does not give the specified result", said[c][:200]),
                              dict(kind="constant", program=src[c], call=c.call, rejected=c.rejected, why=c.desc[:300]))
    for bad, rt, why in res:
        if rt is None:
            ctx.violation("at run time a generated program " + why, dict(kind="runtime", why=why))
            continue
        for c, got in rt.items():
            ctx.violation("at run time %s gives %s, expected %s" % (c.call[:400], got, "rejected" if c.rejected else "true"), dict(kind="runtime", program=src[c], call=c.call, rejected=c.rejected))
    ctx.count("functions", len(units))
    ctx.count("constant_evaluations", len(cases))
    ctx.count("requests_that_must_not_be_constant", sum(c.rejected for c in cases))
    ctx.count("traces_validated_against_impl", 2 * len(cases))
    for u in units[:: max(1, len(units) // 6)]:
        ctx.sample(dict(function=u[0], call=u[1][0].call[:600], rejected=u[1][0].rejected))


class Part:
    """the check's context with random choices of its own"""
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng

    def __getattr__(self, k):
        return getattr(self.ctx, k)


def c19(ctx):
    q = ctx.quick
    ctx.assumptions += ["a case counts against the code only when clang and g++ both refuse it", "results that are not numbers are left to the compilers' own rules",
                        "aligned arrays and attached memory are outside constant evaluation by nature (they need casts the language excludes)"]
    def part(name, f):
        return f(Part(ctx, pyrandom.Random("%d %s" % (ctx.seed, name))))
    parts = [("expressions", lambda c: expression_cases(c, 70 if q else 400, 110 if q else 600, 6 if q else 20)),
             ("1D", lambda c: texts.array_histories(c, 1, 40 if q else 300, 6 if q else 12)),
             ("2D", lambda c: texts.array_histories(c, 2, 40 if q else 300, 6 if q else 12)),
             ("scalars", lambda c: texts.scalar_histories(c, 60 if q else 600, 25)),
             ("math", lambda c: texts.math_cases(c, texts.CONST_MATH, 200 if q else 1500))]
    confs = [n for n in fixed.CONF if n not in ("f1-16", "f2-34", "f1-7")]
    parts += [(n, lambda c, n=n: texts.array_histories(c, n, 13 if q else 80, 5 if q else 12)) for n in (ctx.rng.sample(confs, 3) if q else confs)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        units, *seqs = ex.map(lambda p: part(*p), parts)
    units += [(x.source(), [Case(x.name, None, None, x.rejected, x.name)]) for l in seqs for x in l]
    decide(ctx, units)


CHECKS = {"C19": c19}
