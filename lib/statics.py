"""C18: which programs are well-formed (spec/Static.tla)."""
import random as pyrandom
from harness import *

ALLE = ["int", "long", "unsigned", "unsigned long", "float", "double", "long double", "bool"]

PRELUDE = r'''
template <class T> T&& obj();
template <class T> spp::Strict<T> val();
template <class T> void take(T);
struct Yes { auto operator()(auto) const { return spp::true_sb; } };
struct Red { auto operator()(auto const& r) const { return r.un(0); } };
template <class E> using own1_0 = spp::Array1D<E>;
template <class E> using own1_1 = spp::Array1D<E, spp::Aligned>;
template <class E> using own2_0 = spp::Array2D<E>;
template <class E> using own2_1 = spp::Array2D<E, spp::Aligned>;
template <class E> using fix1_0 = spp::FixedArray1D<E, 3>;
template <class E> using fix1_1 = spp::FixedArray1D<E, 2, spp::Aligned>;
template <class E> using fix2_0 = spp::FixedArray2D<E, 3, 3>;
template <class E> using fix2_1 = spp::FixedArray2D<E, 2, 1, spp::Aligned>;
#define VIEWS(pre, C) \
  template <class E> using pre##1_0 = decltype(obj<C own1_0<E>&>()(spp::place::all)); \
  template <class E> using pre##1_1 = decltype(obj<C own1_1<E>&>()(spp::seqN{0, 1})); \
  template <class E> using pre##1_2 = decltype(obj<C own2_0<E>&>().row(0)); \
  template <class E> using pre##1_3 = decltype(obj<C fix1_0<E>&>()({0, 1})); \
  template <class E> using pre##1_4 = decltype(obj<C own1_0<E>&>()(spp::place::even)(spp::seq{0, 1})); \
  template <class E> using pre##2_0 = decltype(obj<C own2_0<E>&>()(spp::place::all, spp::place::even)); \
  template <class E> using pre##2_1 = decltype(obj<C own1_0<E>&>().view2D(1, 1)); \
  template <class E> using pre##2_2 = decltype(obj<C fix2_0<E>&>().rows({0, 1})); \
  template <class E> using pre##2_3 = decltype(obj<C own2_1<E>&>().block(0, 0, 1, 1)); \
  template <class E> using pre##2_4 = decltype(obj<C own2_0<E>&>().cols(spp::seqN{0, 1})(spp::place::all, {0, 1}));
VIEWS(view, )
VIEWS(cview, const)
template <class E> using view1_5 = decltype(spp::attach1D(obj<E*&>(), 3));
template <class E> using view2_5 = decltype(spp::attach2D(obj<E*&>(), 3, 2));
template <class E> using cview1_5 = decltype(spp::attach1D(obj<const E*&>(), 3));
template <class E> using cview2_5 = decltype(spp::attach2D(obj<const E*&>(), 3, 2));
struct First2 { auto operator()(auto x, auto) const { return x; } };
struct Less { auto operator()(auto x, auto y) const { return x < y; } };
struct Zap { template <class E> void operator()(spp::Strict<E>& x) const { x = spp::Strict<E>{}; } };
struct Same { auto operator()(auto x) const { return x; } };
template <class E> using expr1_0 = decltype(spp::generate(obj<own1_0<E>&>(), Same{}));
template <class E> using expr2_0 = decltype(spp::generate(obj<own2_0<E>&>(), Same{}));
template <class E> using expr1_1 = decltype(spp::const1D(3, val<E>()));
template <class E> using expr2_1 = decltype(spp::const2D(3, 2, val<E>()));
template <class E> using expr1_2 = decltype(spp::merge(obj<own1_0<E>&>(), obj<const own1_0<E>&>()));
template <class E> using expr2_2 = decltype(spp::transpose(obj<own2_0<E>&>()));
template <class E> using expr1_3 = decltype(obj<own1_0<E>&>() + obj<own1_0<E>&>());
template <class E> using expr2_3 = decltype(obj<own2_0<E>&>() * obj<const own2_1<E>&>());
'''
VARIANTS = {"own": 2, "fix": 2, "view": 6, "cview": 6, "expr": 4}

UN = {
    "slice_all": "{x}(place::all)", "slice_even": "{x}(place::even)", "slice_seq": "{x}(seq{{0, 1}})", "slice_seqN": "{x}(seqN{{0, 1}})", "slice_list": "{x}({{0, 1}})",
    "slice_vec": "{x}(std::vector<ImplicitInt>(1))", "slice_excl": "{x}(place::complement(std::vector<ImplicitInt>(1)))",
    "in_closed": "in_closed_range({x}, {s}, {s})", "in_open": "in_open_range({x}, Low{{{s}}}, High{{{s}}})", "in_cond": "in_cond_range({x}, Yes{{}})",
    "block2": "{x}.block(0, 0, 0, 0)", "blockN2": "{x}.blockN(0, 0, 1, 1)", "rows_all": "{x}.rows(place::all)", "cols_all": "{x}.cols(place::all)", "rows_list": "{x}.rows({{0, 1}})",
    "cols_list": "{x}.cols({{0, 1}})", "rows_seq": "{x}.rows(seq{{0, 0}})", "cols_seqN": "{x}.cols(seqN{{0, 1}})",
    "sl_ss": "{x}(place::all, place::odd)", "sl_sl": "{x}(place::all, {{0, 1}})", "sl_ls": "{x}({{0, 1}}, place::all)", "sl_ll": "{x}({{0, 1}}, {{0, 1}})",
    "row": "{x}.row(0)", "row_last": "{x}.row(last)", "col": "{x}.col(0)", "col_last": "{x}.col(last)", "diag": "{x}.diag()", "diag_k": "{x}.diag(1)",
    "view1D": "{x}.view1D()", "view2D": "{x}.view2D(1, 1)",
    "RowIt": "RowIt{{{x}}}", "ColIt": "ColIt{{{x}}}", "data": "{x}.data()", "blas_data": "{x}.blas_data()",
    "un_minus": "(-{x})", "un_plus": "(+{x})", "un_abs": "abs({x})", "un_not": "(~{x})", "un_lnot": "(!{x})", "un_pow": "pow({x}, {s})", "un_pow_int": "pow_int({x}, 2)",
    "un_fast_pow": "fast_pow_int({x}, 2)", "un_inv": "inv({x})", "cast_double": "array_cast<double>({x})", "cast_int": "array_cast<int>({x})",
    "exclude": "exclude({x}, 0)", "exclude_named": "exclude({x}, Pos{{0}}, Count{{1}})", "exclude_last": "exclude({x}, last)", "row_broadcast": "row_broadcast({x})",
    "col_broadcast": "col_broadcast({x})", "merge_xs": "merge({x}, {s})", "merge_sx": "merge({s}, {x})", "merge_ssx": "merge({s}, {s}, {x})", "merge_xss": "merge({x}, {s}, {s})",
    "transpose": "transpose({x})", "row_reduce": "row_reduce({x}, Red{{}})", "col_reduce": "col_reduce({x}, Red{{}})",
    "size": "{x}.size()", "eq_self": "({x} == {x})", "range_check": "none_of({x}, {s})", "sum": "sum({x})", "max": "max({x})", "has_zero": "has_zero({x})", "norm_inf": "norm_inf({x})",
    "mean": "mean({x})", "fill": "({x} = {s})", "add_fill": "({x} += {s})", "mul_fill": "({x} *= {s})", "mod_fill": "({x} %= {s})", "shl_fill": "({x} <<= {s})", "xor_fill": "({x} ^= {s})",
    "sort_algo": "sort_increasing({x})", "sort_down": "sort_decreasing({x})", "sort_by": "sort({x}, Less{{}})", "rand": "random({x})", "rand_not0": "random_not0({x})",
    "rand_low": "random({x}, Low{{{s}}}, High{{{s}}})", "semi_rand": "semi_random({x})", "shuffle": "shuffle({x})", "each_write": "for_each({x}, Zap{{}})", "gen": "spp::generate({x}, Same{{}})", "lval": "{x}.lval()", "as_const": "std::as_const({x})", "move": "std::move({x})", "eval": "{x}.eval()", "it_put": "(*{x} = {s})", "it_at_put": "({x}[0] = {s})",
}
for n in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend"):
    UN[n] = "{x}." + n + "()"
for n in ("sqrt", "exp", "sin", "cbrt", "log", "cos", "tan", "log2", "log10"):
    UN["un_" + n] = n + "({x})"
SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "shl": "<<", "shr": ">>", "and": "&", "or": "|", "xor": "^", "land": "&&", "lor": "||"}
for n, o in SYM.items():
    UN[n + "_s"] = "({x} " + o + " {s})"
    UN["s_" + n] = "({s} " + o + " {x})"
BIN = {n: "({x} " + o + " {y})" for n, o in SYM.items()}
BIN.update({"gen2": "spp::generate({x}, {y}, First2{{}})", "two_prod": "two_prod({x}, {y})", "pow_prod": "pow_prod({x}, {y})", "matvec_prod": "matvec_prod({x}, {y})", "tensor_prod": "tensor_prod({x}, {y}).un(0, 0)", "merge": "merge({x}, {y})",
            "merge3": "merge({x}, obj<own1_0<{e}>&>(), {y})", "merge_h": "merge_horizontal({x}, {y})", "merge_v": "merge_vertical({x}, {y})",
            "merge_h3": "merge_horizontal({x}, obj<own2_0<{e}>&>(), {y})", "eq": "({x} == {y})", "ne": "({x} != {y})", "dot": "dot_prod({x}, {y})", "set": "({x} = {y})", "new": "own{d}_0<{e}>({y})",
            "set_add": "({x} += {y})", "set_mul": "({x} *= {y})", "set_div": "({x} /= {y})", "set_mod": "({x} %= {y})", "set_shl": "({x} <<= {y})", "set_and": "({x} &= {y})"})
SC = {"s_eq": "({x} == {y})", "s_ne": "({x} != {y})", "s_set": "({x} = {y})", "s_init": "take<Strict<{t}>>({y})", "s_brace": "Strict<{t}>{{{y}}}", "s_arg": "Value<{t}>{{{y}}}", "s_lt": "({x} < {y})",
      "s_ge": "({x} >= {y})", "s_castto": "strict_cast<{u}>({x})", "s_castget": "{x}.{getter}()", "s_mins": "mins({x}, {y})", "s_maxs": "maxs({x}, {y})", "s_pows": "pows({x}, {y})", "s_hypots": "hypots({x}, {y})", "s_sqrts": "({x} - sqrts({y}))", "s_fmas": "fmas({x}, {y}, {x})"}
for n, o in SYM.items():
    SC["s_c" + n] = "({x} " + o + "= {y})"
    SC["s_s" + n] = "({x} " + o + " {y})"
PL = {"p_brace": "Strict<{t}>{{{y}}}", "p_paren": "Strict<{t}>({y})", "p_init": "take<Strict<{t}>>({y})", "p_set": "({x} = {y})", "p_add": "({x} + {y})", "p_radd": "({y} + {x})", "p_eq": "({x} == {y})",
      "p_to": "take<{u}>({x})", "p_cast": "static_cast<{u}>({x})", "p_arg": "maxs({x}, {y})", "p_cadd": "({x} += {y})"}
AR = {"as_add": "({x} + {y})", "as_radd": "({y} + {x})", "as_fill": "({x} = {y})", "as_cadd": "({x} += {y})", "as_put": "({x}[0] = {y})", "as_ctor": "own1_0<{t}>(2, {y})", "as_list": "own1_0<{t}>{{{y}, {y}}}",
      "as_setlist": "({x} = {{{y}, {y}}})", "as_insert": "{x}.insert(0, {y})", "as_merge": "merge({x}, {y})", "as_find": "none_of({x}, {y})", "as_pow": "pow({x}, {y})"}

IX = {"i_get": "obj<own1_0<{t}>&>()[{y}]", "i_at": "obj<view1_1<{t}>&>().at({y})", "i_un": "obj<cview1_0<{t}>&>().un({y})", "i_row": "obj<own2_0<{t}>&>().row({y})",
      "i_col": "obj<view2_2<{t}>&>().col({y})", "i_get2": "obj<own2_0<{t}>&>()(0, {y})", "i_un2": "obj<fix2_0<{t}>&>().un({y}, 0)", "i_size": "own1_0<{t}>({y})", "i_size2": "own2_0<{t}>({y}, 2)",
      "i_resize": "obj<own1_0<{t}>&>().resize({y})", "i_pos": "Pos{{{y}}}", "i_rows": "own2_0<{t}>(Rows{{{y}}}, Cols{{2}})", "i_cols": "Cols{{{y}}}", "i_seqN": "seqN{{0, {y}}}",
      "i_seq": "seq{{{y}, 3}}", "i_exclude": "exclude(obj<own1_0<{t}>&>(), {y})", "i_irange": "irange({y})", "i_block": "obj<own2_0<{t}>&>().block(0, 0, {y}, 1)", "i_const": "const1D({y}, val<{t}>())",
      "i_remove": "obj<own1_0<{t}>&>().remove({y})", "i_insert": "obj<own1_0<{t}>&>().insert({y}, val<{t}>())", "i_list": "obj<own1_0<{t}>&>()({{0, {y}}})", "i_diag": "obj<own2_0<{t}>&>().diag({y})",
      "i_view2D": "obj<own1_0<{t}>&>().view2D({y}, 1)", "i_pow_int": "pows_int(val<double>(), {y})", "i_factorial": "factorial({y})", "i_seed": "Seed{{{y}}}", "i_flag": "take<ImplicitBool>({y})"}
GETTER = {"bool": "sb", "int": "si", "long": "sl", "unsigned": "sui", "unsigned long": "sul", "float": "sf", "double": "sd", "long double": "sld"}


def render1(op, x, d, e, prev):
    s = "val<%s>()" % e
    if op in ("get", "get_at", "get_un", "put", "put_at", "put_un"):
        g = {"get": ("%s[0]", "%s(0, 0)"), "get_at": ("%s.at(0)", "%s.at(0, 0)"), "get_un": ("%s.un(0)", "%s.un(0, 0)")}["get" + op[3:]][d - 1] % x
        return "(%s = %s)" % (g, s) if op.startswith("put") else g
    if op == "ptr_put":
        return "(%s[0] = %s)" % (x, s if prev == "data" else "static_cast<%s>(0)" % e)
    if op == "irange":
        return ("irange(%s)" if d == 1 else "irange_col(%s)") % x
    if op == "assign_list":
        return "(%s = %s)" % (x, "{%s, %s}" % (s, s) if d == 1 else "{{%s, %s}, {%s, %s}}" % (s, s, s, s))
    if op == "resize":
        return x + (".resize(3)" if d == 1 else ".resize(3, 3)")
    if op == "reassign":
        return x + ".resize_and_assign(obj<own%d_0<%s>&>())" % (d, e)
    return UN[op].format(x=x, s=s)


def typ(t, variant):
    v = variant % VARIANTS[t["k"]]
    if t["k"] == "expr" and v == 3 and t["e"] == "bool" or t["k"] in ("view", "cview") and v == 5 and t["e"] == "bool":
        v = 0
    return "%s%s%d_%d<%s>%s" % ("const " if t["c"] else "", t["k"], t["d"], v, t["e"], "&" if t["v"] == "l" else "&&")


def walk_expr(root, ops, states):
    """the C++ expression that applies ops one after the other to X_"""
    x = "X_"
    for i, op in enumerate(ops):
        st = states[i]
        x = render1(op, x, st["d"], st["e"], ops[i - 1] if i else None)
    return x


class Row:
    def __init__(self, types, code, accept, desc):
        self.types, self.code, self.accept, self.desc = types, code, accept, desc

    def line(self, n):
        t = self.types + ["int&"] * (2 - len(self.types))
        if self.accept:
            return "void u%d(%s x, %s y) { using X = %s; using Y = %s; (void)(%s); }" % (n, t[0], t[1], t[0], t[1], self.code)
        return "template <class X, class Y> concept c%d = requires(X&& x, Y&& y) { %s; }; static_assert(!c%d<%s, %s>);" % (n, self.code, n, t[0], t[1])

    def single(self):
        t = self.types + ["int&"] * (2 - len(self.types))
        return "void u(%s x, %s y) { using X = %s; using Y = %s; (void)(%s); }" % (t[0], t[1], t[0], t[1], self.code)


HEAD = "using namespace spp;\n#define X_ static_cast<X&&>(x)\n#define Y_ static_cast<Y&&>(y)\n"


class Compiler:
    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = ctx.path("static")
        os.makedirs(self.dir)
        h = os.path.join(self.dir, "all.hpp")
        with open(h, "w") as f:
            f.write("#include <strictpp/strict.hpp>\n#include <vector>\n" + PRELUDE)
        base = ["-std=gnu++20", "-w", "-DSTRICT_ERROR_EXCEPTIONS", "-I" + REPO]
        self.clang = ["clang++"] + base + ["-include-pch", h + ".pch", "-fsyntax-only", "-ferror-limit=0", "-fshow-overloads=best", "-fno-caret-diagnostics", "-fno-color-diagnostics"]
        self.gcc = [CXX] + base + ["-include", h, "-fsyntax-only"]
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(run, ["clang++"] + base + ["-x", "c++-header", h, "-o", h + ".pch"], timeout=120)
            b = ex.submit(run, [CXX] + base + ["-x", "c++-header", h, "-o", h + ".gch"], timeout=120)
            for r in (a.result(), b.result()):
                if r.returncode:
                    raise CheckError("the headers do not compile:\n" + r.stderr.decode(errors="replace")[:3000])

    def shard(self, rows, k):
        """indices of the rows on which clang does not agree"""
        p = os.path.join(self.dir, "shard%d.cpp" % k)
        with open(p, "w") as f:
            f.write(HEAD)
            for i, r in enumerate(rows):
                f.write(r.line(i) + "\n")
        off = HEAD.count("\n") + 1
        r = run(self.clang + [p], timeout=600)
        err = r.stderr.decode(errors="replace")
        bad = {int(m) - off for m in re.findall(r"shard%d\.cpp:(\d+):" % k, err)}
        if r.returncode and not bad or r.returncode < 0 or " fatal error: " in err:
            raise CheckError("clang fails on a generated program:\n" + err[:2000])
        return {b for b in bad if 0 <= b < len(rows)}

    def accepted(self, row, k):
        p = os.path.join(self.dir, "one%d.cpp" % k)
        with open(p, "w") as f:
            f.write(HEAD + row.single() + "\n")
        r = run(self.gcc + [p], timeout=300)
        os.unlink(p)
        err = r.stderr.decode(errors="replace")
        if "internal compiler error" in err:
            raise CheckError("g++ fails on a generated program:\n" + row.single() + err[:2000])
        return r.returncode == 0, err


def decide(ctx, rows):
    comp = Compiler(ctx)
    rng = pyrandom.Random(ctx.seed)
    rows = list(rows)
    rng.shuffle(rows)
    n = max(NCPU, len(rows) // 500)
    shards = [rows[i::n] for i in range(n)]
    doubt = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for sh, bad in zip(shards, ex.map(lambda a: comp.shard(a[1], a[0]), enumerate(shards))):
            doubt += [sh[b] for b in bad]
        ctx.log("%d programs, %d to decide one by one" % (len(rows), len(doubt)))
        for row, (ok, err) in zip(doubt, ex.map(lambda a: comp.accepted(a[1], a[0]), enumerate(doubt))):
            if ok != row.accept:
                first = [l for l in err.splitlines() if "error" in l][:1]
                ctx.violation("the program %s with operands %s %s%s" % (
                    row.code, ", ".join(row.types), "is accepted but must be rejected" if ok else "is rejected but must be accepted", ": " + first[0][:300] if first else ""),
                    dict(kind="program", program=row.single(), accepted=ok, expected=row.accept, why=row.desc))
    ctx.count("programs", len(rows))
    ctx.count("programs_rejected_as_specified", sum(not r.accept for r in rows))
    ctx.count("programs_decided_one_by_one", len(doubt))
    ctx.count("traces_validated_against_impl", len(rows))
    for r in rows[:8]:
        ctx.sample(dict(program=r.code, operands=r.types, accepted=r.accept))


def c18(ctx):
    q = ctx.quick
    rng = pyrandom.Random(ctx.seed)
    elts = ["int", "double", "bool"] + [rng.choice(["long", "unsigned", "float"])] if q else ALLE
    const = {"Elts": "{" + ", ".join('"%s"' % e for e in elts) + "}"}
    ctx.assumptions += ["changing a temporary array that owns its elements is left open", "references to single elements of a temporary are not followed", ".lval() is the explicit way to keep a temporary"]
    trans = enumerate_spec(ctx, "Static", const, ["Sound", "NamedIsBetter", "MixSymmetric"], ["ConstStays", "TemporariesEnd"],
                           emit="[s |-> x, c |-> last'.c, a |-> last'.a, t |-> x']")
    graph = {}
    for v in trans:
        graph.setdefault(jcanon(v["s"]), {})[v["c"]["op"]] = (v["a"], v["t"])
    ctx.log("%d terms" % len(graph))
    rows = []
    roots = [json.loads(k) for k in graph if json.loads(k)["k"] in VARIANTS]
    ctx.count("terms", len(roots))
    # every operation on every term
    for t in roots:
        for op, (a, _) in graph[jcanon(t)].items():
            variants = range(VARIANTS[t["k"]]) if not q else [rng.randrange(12)]
            for w in variants:
                rows.append(Row([typ(t, w)], render1(op, "X_", t["d"], t["e"], None), a, [op]))
    # programs of several operations
    for _ in range(3000 if q else 30000):
        t = rng.choice(roots)
        st, ops, states, ok = t, [], [], True
        for _ in range(rng.randint(2, 4)):
            nxt = graph.get(jcanon(st), {})
            go = [o for o, (a, u) in nxt.items() if a and u["k"] != "none"]
            last_one = len(ops) >= 1 and (rng.random() < .45 or not go)
            if not nxt:
                break
            op = rng.choice(sorted(nxt) if last_one or not go else sorted(go))
            ops.append(op)
            states.append(st)
            ok, st = nxt[op]
            if not ok or last_one or st["k"] == "none":
                break
        if len(ops) > 1:
            rows.append(Row([typ(t, rng.randrange(12))], walk_expr(t, ops, states), ok, ops))
    # two operands, scalars
    two = []
    const = {"Elts": "{" + ", ".join('"%s"' % e for e in ALLE) + "}"}
    every = [dict(t, e=e) for t in roots if t["e"] == "int" for e in ALLE]
    ops2, opss, opsp, opsa, opsi = evaluate_sets(ctx, const)
    for _ in range(2500 if q else 25000):
        t, u, op = rng.choice(every), rng.choice(every), rng.choice(ops2)
        if rng.random() < .8:
            cand = [r for r in every if (r["d"] == t["d"]) == (op != "matvec_prod") and (r["e"] == t["e"] or rng.random() < .04)]
            u = rng.choice(cand)
        if t["k"] in ("own", "fix") and t["v"] == "r" and op.startswith("set"):
            continue
        two.append(dict(f="two", op=op, t=t, u=u))
    one_each = [dict(f=f, op=op, t=t, u=u) for f, ops in (("s", opss), ("p", opsp), ("a", opsa)) for op in ops for t in ALLE for u in ALLE
                if not (op in ("s_lt", "s_ge") and t == u == "bool")]
    two += one_each if len(one_each) < 2500 or not q else rng.sample(one_each, 2500)
    for op in opsi:
        for u in ALLE:
            for strict in (0, 1):
                two.append(dict(f="i", op=op, t=rng.choice(ALLE), u=u, strict=strict))
    for e in ALLE:  # plain numbers are never taken for scalars of an array
        for op in AR:
            rows.append(Row(["own1_0<%s>&" % e, e + "&"], AR[op].format(x="X_", y="Y_", t=e), False, [op, "plain"]))
    ans = evaluate(ctx, "Static", "Ask", two, const, extra="""Ask(q) == CASE q.f = "two" -> Accepts2(q.op, q.t, q.u) [] q.f = "s" -> AcceptsS(q.op, q.t, q.u)
       [] q.f = "i" -> AcceptsI(q.op, q.u) [] q.f = "p" -> AcceptsP(q.op, q.t, q.u) [] q.f = "a" -> AcceptsA(q.op, q.t, q.u)""", variables=("x", "last"))
    for g, a in zip(two, ans):
        op, t, u = g["op"], g["t"], g["u"]
        if g["f"] == "two":
            rows.append(Row([typ(t, rng.randrange(12)), typ(u, rng.randrange(12))], BIN[op].format(x="X_", y="Y_", e=t["e"], d=t["d"]), a, [op]))
        elif g["f"] == "i":
            y = "Strict<%s>&" % u if g["strict"] else u + "&"
            rows.append(Row([y, y], IX[op].format(y="Y_", t=t), a, [op]))
        else:
            table, x, y = {"s": (SC, "Strict<%s>&" % t, "Strict<%s>&" % u), "p": (PL, "Strict<%s>&" % t, u + "&"), "a": (AR, "own1_0<%s>&" % t, "Strict<%s>&" % u)}[g["f"]]
            rows.append(Row([x, y], table[op].format(x="X_", y="Y_", t=t, u=u, getter=GETTER[u]), a, [op]))
    for r in rows:
        ctx.op(r.desc[-1] + ("" if r.accept else "!"))
    decide(ctx, rows)


def evaluate_sets(ctx, const):
    r = evaluate(ctx, "Static", "SetOf", [1], const, extra="SetOf(q) == [a |-> Ops2, b |-> OpsS, c |-> PlainOps, d |-> ArrS, e |-> OpsI]", variables=("x", "last"))[0]
    return [sorted(r[k]) for k in "abcde"]


CHECKS = {"C18": c18}
