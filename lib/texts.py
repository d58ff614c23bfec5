"""Commands of Arr1, Arr2, Fixed, Scalar and Math as C++ source, for evaluation by the compiler (C19)."""
from harness import *
import arrays, fixed, scalars

TYPES = ["int", "long", "unsigned", "unsigned long", "float", "double", "long double"]


class Seq:
    """One generated function: constexpr bool NAME()."""
    def __init__(self, name, lines, rejected, ops, head=""):
        self.name, self.lines, self.rejected, self.ops, self.head = name, lines, rejected, ops, head

    def source(self):
        return "%sconstexpr bool %s() {\n   %s\n   return true;\n}\n" % (self.head, self.name, "\n   ".join(self.lines))


def X(v):
    return "S{T(%d)}" % v


def L(xs):
    return "L{%s}" % ", ".join(X(v) for v in xs)


def LL(ll):
    return "LL{%s}" % ", ".join(L(r) for r in ll)


def I(rng, v):
    return rng.choice(["%d", "%dL", "Strict{%dL}", "Strict{%d}"]) % v


def ret(e, a):
    return "if(!self(%s, %s)) return false;" % (e, a)


def vals(rng, e, o):
    """a question with a single answer"""
    return "(void)(%s);" % e if o["k"] == "err" else "if(!is(%s, T(%d))) return false;" % (e, o["v"][0])


def eq_text(A, B, o):
    return "if(!truth(%s == %s, %d) || !truth(%s != %s, %d) || !truth(equal(%s, %s), %d) || !truth(same_size(%s, %s), %d)) return false;" % (A, B, o["v"][0], A, B, o["v"][1], A, B, o["v"][2], A, B, o["v"][3])


def sq(c, two=False):
    k = "2" if two else ""
    return "seqN{%d, %d, %d}" % (c["b" + k], c["n" + k], c["st" + k])


def text1(rng, c, o):
    op, i = c["op"], c["i"]
    A = "(*p%d)" % i
    B, C = ["(*p%d)" % c[k] if k in c else "" for k in "jk"]
    P = lambda k: I(rng, c[k])
    two = lambda a, b: rng.choice([a, b])
    if op == "new0":
        return "p%d.emplace();" % i
    if op == "new_n":
        return "p%d.emplace(%s);" % (i, two(P("n"), "Size{%d}" % c["n"]))
    if op == "new_nx":
        return "p%d.emplace(%s);" % (i, two("%s, %s" % (P("n"), X(c["x"])), "Size{%d}, Value{%s}" % (c["n"], X(c["x"]))))
    if op == "new_list":
        return "p%d.emplace(%s);" % (i, L(c["xs"]))
    if op == "new_iter":
        b = two("begin", "cbegin")
        return "{ A t(%s.%s() + %d, %s.%s() + %d); p%d.emplace(t); }" % (B, b, c["b"], B, b, c["e"], i)
    if op in ("new_copy", "new_conv"):
        return "{ A t(%s); p%d.emplace(t); }" % (B, i)
    if op == "new_eval":
        return "{ A t = %s.eval(); p%d.emplace(t); }" % (B, i)
    if op == "new_move":
        return "{ A t(std::move(%s)); p%d.emplace(std::move(t)); }" % (B, i)
    if op == "new_slice":
        return "{ A t(%s(%s)); p%d.emplace(t); }" % (two(B, "std::as_const(%s)" % B), sq(c), i)
    if op == "new_expr":
        return "{ A t = %s + %s; p%d.emplace(t); }" % (B, C, i)
    if op == "set_x":
        return ret("%s = %s" % (A, X(c["x"])), A)
    if op == "set_list":
        return ret("%s = %s" % (A, L(c["xs"])), A)
    if op in ("assign", "assign_conv"):
        return ret("%s = %s" % (A, B), A)
    if op == "assign_expr":
        return ret("%s = %s + %s" % (A, B, C), A)
    if op == "assign_slice":
        return ret("%s = std::as_const(%s)(%s)" % (A, B, sq(c)), A)
    if op == "move_assign":
        return ret("%s = std::move(%s)" % (A, B), A)
    if op == "swap":
        return "%s.swap(%s);" % (A, two(B, "std::move(%s)" % B))
    if op == "resize":
        return ret("%s.resize(%s%s)" % (A, P("n"), rng.choice(["", ", true", ", Strict{true}", ", ImplicitBool{true}"])), A)
    if op == "resize_fill":
        return ret("%s.resize(%s, false)" % (A, P("n")), A) + " %s = %s;" % (A, X(c["x"]))
    if op == "raa":
        return ret("%s.resize_and_assign(%s)" % (A, B), A)
    if op == "raa_move":
        return ret("%s.resize_and_assign(std::move(%s))" % (A, B), A)
    if op == "raa_expr":
        return ret("%s.resize_and_assign(%s + %s)" % (A, B, C), A)
    if op == "raa_slice":
        return ret("%s.resize_and_assign(%s(%s))" % (A, B, sq(c)), A)
    if op == "remove":
        return ret("%s.remove(%s)" % (A, two("%s, %s" % (P("p"), P("n")), "Pos{%d}, Count{%d}" % (c["p"], c["n"]))), A)
    if op == "remove1":
        return ret("%s.remove(%s)" % (A, two(P("p"), "Pos{%d}" % c["p"])), A)
    if op in ("remove_front", "remove_back"):
        return ret("%s.%s(%s)" % (A, op, "" if c["n"] == 1 and rng.random() < .4 else two(P("n"), "Count{%d}" % c["n"])), A)
    if op == "remove_last":
        return ret("%s.remove(%s)" % (A, "last" if c["p"] == 0 and rng.random() < .5 else "last - (%d)" % c["p"]), A)
    if op == "remove_list":
        return ret("%s.remove({%s})" % (A, ", ".join("%d" % x for x in c["xs"])) if c["xs"] else "%s.remove(std::vector<ImplicitInt>{})" % A, A) if len(c["xs"]) > 1 else ret("%s.remove(std::vector<ImplicitInt>{%s})" % (A, ", ".join("%d" % x for x in c["xs"])), A)
    if op == "insert":
        return ret("%s.insert(%s)" % (A, two("%s, %s" % (P("p"), X(c["x"])), "Pos{%d}, Value{%s}" % (c["p"], X(c["x"])))), A)
    if op == "insert_elem":
        return ret("%s.insert(%s, %s[%d])" % (A, P("p"), A, c["q"]), A)
    if op in ("insert_front", "insert_back"):
        return ret("%s.%s(%s)" % (A, op, two(X(c["x"]), "Value{%s}" % X(c["x"]))), A)
    if op == "insert_arr":
        return ret("%s.insert(%s, %s)" % (A, two(P("p"), "Pos{%d}" % c["p"]), rng.choice([B, B + "(place::all)", "+" + B])), A)
    if op in ("insert_arr_front", "insert_arr_back"):
        return ret("%s.%s(%s)" % (A, op[:6] + op[10:], two(B, B + "(place::all)")), A)
    if op == "insert_slice":
        return ret("%s.insert(%s, %s(%s))" % (A, P("p"), B, sq(c)), A)
    K = two(A, "std::as_const(%s)" % A)
    if op == "get":
        return vals(rng, two("%s[%s]", "%s.at(%s)") % (K, P("p")), o)
    if op == "get_last":
        return vals(rng, two("%s[last - (%d)]", "%s.at(last - (%d))") % (K, c["p"]), o)
    if op == "put":
        return two("%s[%s]", "%s.at(%s)") % (A, P("p")) + " = %s;" % X(c["x"])
    if op == "put_last":
        return two("%s[last - (%d)]", "%s.at(last - (%d))") % (A, c["p"]) + " = %s;" % X(c["x"])
    if op == "eq":
        return eq_text(A, B, o)
    return None


def text2(rng, c, o):
    op, i = c["op"], c["i"]
    A = "(*p%d)" % i
    B, C = ["(*p%d)" % c[k] if k in c else "" for k in "jk"]
    P = lambda k: I(rng, c[k])
    two = lambda a, b: rng.choice([a, b])
    part = lambda a: "%s(%s, %s)" % (a, sq(c), sq(c, True))
    if op == "new0":
        return "p%d.emplace();" % i
    if op == "new_mn":
        return "p%d.emplace(%s);" % (i, two("%s, %s" % (P("m"), P("n")), "Rows{%d}, Cols{%d}" % (c["m"], c["n"])))
    if op == "new_mnx":
        return "p%d.emplace(%s);" % (i, two("%s, %s, %s" % (P("m"), P("n"), X(c["x"])), "Rows{%d}, Cols{%d}, Value{%s}" % (c["m"], c["n"], X(c["x"]))))
    if op == "new_list":
        return "p%d.emplace(%s);" % (i, LL(c["ll"]))
    if op in ("new_copy", "new_conv"):
        return "{ A t(%s); p%d.emplace(t); }" % (B, i)
    if op == "new_eval":
        return "{ A t = %s.eval(); p%d.emplace(t); }" % (B, i)
    if op == "new_move":
        return "{ A t(std::move(%s)); p%d.emplace(std::move(t)); }" % (B, i)
    if op == "new_slice":
        return "{ A t(%s); p%d.emplace(t); }" % (part(two(B, "std::as_const(%s)" % B)), i)
    if op == "new_expr":
        return "{ A t = %s + %s; p%d.emplace(t); }" % (B, C, i)
    if op == "set_x":
        return ret("%s = %s" % (A, X(c["x"])), A)
    if op == "set_list":
        return ret("%s = %s" % (A, LL(c["ll"])), A)
    if op in ("assign", "assign_conv"):
        return ret("%s = %s" % (A, B), A)
    if op == "assign_expr":
        return ret("%s = %s + %s" % (A, B, C), A)
    if op == "assign_slice":
        return ret("%s = %s" % (A, part("std::as_const(%s)" % B)), A)
    if op == "move_assign":
        return ret("%s = std::move(%s)" % (A, B), A)
    if op == "swap":
        return "%s.swap(%s);" % (A, two(B, "std::move(%s)" % B))
    if op == "resize":
        return ret("%s.resize(%s, %s%s)" % (A, P("m"), P("n"), rng.choice(["", ", true", ", Strict{true}"])), A)
    if op == "resize_fill":
        return ret("%s.resize(%s, %s, false)" % (A, P("m"), P("n")), A) + " %s = %s;" % (A, X(c["x"]))
    if op == "raa":
        return ret("%s.resize_and_assign(%s)" % (A, B), A)
    if op == "raa_move":
        return ret("%s.resize_and_assign(std::move(%s))" % (A, B), A)
    if op == "raa_expr":
        return ret("%s.resize_and_assign(%s + %s)" % (A, B, C), A)
    if op == "raa_slice":
        return ret("%s.resize_and_assign(%s)" % (A, part(B)), A)
    if op in ("rem_rows", "rem_cols"):
        return ret("%s.remove_%s(%s)" % (A, op[4:], two("%s, %s" % (P("p"), P("n")), "Pos{%d}, Count{%d}" % (c["p"], c["n"]))), A)
    if op in ("rem_row", "rem_col"):
        return ret("%s.remove_%s(%s)" % (A, op[4:], two(P("p"), "Pos{%d}" % c["p"])), A)
    if op in ("rem_row_last", "rem_col_last"):
        return ret("%s.remove_%s(%s)" % (A, op[4:7], "last" if c["p"] == 0 and rng.random() < .5 else "last - (%d)" % c["p"]), A)
    if op in ("rem_rows_front", "rem_cols_front", "rem_rows_back", "rem_cols_back"):
        return ret("%s.remove_%s(%s)" % (A, op[4:], two(P("n"), "Count{%d}" % c["n"])), A)
    if op in ("rem_rows_list", "rem_cols_list"):
        return ret("%s.remove_%s(std::vector<ImplicitInt>{%s})" % (A, op[4:8], ", ".join("%d" % x for x in c["xs"])), A)
    if op in ("ins_rows", "ins_cols"):
        return ret("%s.insert_%s(%s, %s)" % (A, op[4:], two(P("p"), "Pos{%d}" % c["p"]), rng.choice([B, B + "(place::all, place::all)", "+" + B])), A)
    if op in ("ins_rows_front", "ins_cols_front", "ins_rows_back", "ins_cols_back"):
        return ret("%s.insert_%s(%s)" % (A, op[4:], two(B, "+" + B)), A)
    if op in ("ins_rows_slice", "ins_cols_slice"):
        return ret("%s.insert_%s(%s, %s)" % (A, op[4:8], P("p"), part(B)), A)
    if op in ("ins_row", "ins_col"):
        return "{ A1 x(%s); %s }" % (L(c["xs"]), ret("%s.insert_%s(%s, %s)" % (A, op[4:], two(P("p"), "Pos{%d}" % c["p"]), rng.choice(["x", "x(place::all)", "+x"])), A))
    if op in ("ins_row_front", "ins_row_back", "ins_col_front", "ins_col_back"):
        return "{ A1 x(%s); %s }" % (L(c["xs"]), ret("%s.insert_%s(%s)" % (A, op[4:], two("x", "x.view1D()")), A))
    if op in ("ins_row_of", "ins_col_of"):
        return ret("%s.insert_%s(%s, %s.%s(%s))" % (A, op[4:7], P("p"), two(B, "std::as_const(%s)" % B), op[4:7], P("q")), A)
    K = two(A, "std::as_const(%s)" % A)
    if op == "get":
        return vals(rng, two("%s(%s, %s)", "%s.at(%s, %s)") % (K, P("p"), P("q")), o)
    if op == "get_last":
        return vals(rng, two("%s(last - (%d), last - (%d))", "%s.at(last - (%d), last - (%d))") % (K, c["p"], c["q"]), o)
    if op == "put":
        return two("%s(%s, %s)", "%s.at(%s, %s)") % (A, P("p"), P("q")) + " = %s;" % X(c["x"])
    if op in ("row", "col", "row_last", "col_last"):
        e = "%s.%s(%s)" % (K, op[:3], P("p") if len(op) == 3 else "last - (%d)" % c["p"])
        return "{ auto r = %s; %s }" % (e, "(void)r;" if o["k"] == "err" else "if(!holds1(r, {%s})) return false;" % ", ".join("%d" % x for x in o["v"]))
    if op == "eq":
        return eq_text(A, B, o)
    return None


def text_fixed(dim, types):
    """types: the type of each slot (slots of the same type can be moved into each other)"""
    def text(rng, c, o):
        op, i = c["op"], c["i"]
        A = "(*p%d)" % i
        B, C = ["(*p%d)" % c[k] if k in c else "" for k in "jk"]
        two = lambda a, b: rng.choice([a, b])
        K = two(A, "std::as_const(%s)" % A)
        same = "j" in c and types[c["i"]] == types[c["j"]]
        part = lambda a: "%s(%s)" % (a, sq(c, True)) if dim == 1 else "%s(%s, %s)" % (a, sq(c), sq(c, True))
        at = lambda a: two("%s[%d]", "%s.at(%d)") % (a, c["q"]) if dim == 1 else two("%s(%d, %d)", "%s.at(%d, %d)") % (a, c["p"], c["q"])
        atl = lambda a: two("%s[last - (%d)]", "%s.at(last - (%d))") % (a, c["q"]) if dim == 1 else two("%s(last - (%d), last - (%d))", "%s.at(last - (%d), last - (%d))") % (a, c["p"], c["q"])
        lst = lambda: L(c["ll"][0]) if dim == 1 else LL(c["ll"])
        F = "A%d" % i
        if op == "new0":
            return two("p%d.emplace();" % i, "{ %s t; p%d.emplace(t); }" % (F, i))
        if op == "new_x":
            return "p%d.emplace(%s);" % (i, two(X(c["x"]), "Value{%s}" % X(c["x"])))
        if op == "new_list":
            return "p%d.emplace(%s);" % (i, lst())
        if op == "set_x":
            return ret("%s = %s" % (A, X(c["x"])), A)
        if op == "set_list":
            return ret("%s = %s" % (A, lst()), A)
        if op == "addx":
            return ret("%s += %s" % (A, X(c["x"])), A)
        if op == "sort":
            return two("sort_increasing(%s);" % A, "sort(%s, [](auto x, auto y) { return x < y; });" % A)
        if op == "sum":
            return "{ S r{}; for(auto x : std::as_const(%s)) r += x; if(!is(r, T(%d))) return false; }" % (A, o["v"][0])
        if op == "get":
            return vals(rng, at(K), o)
        if op == "get_last":
            return vals(rng, atl(K), o)
        if op == "put":
            return "%s = %s;" % (at(A), X(c["x"]))
        if op == "put_part_x":
            return two("%s = %s;" % (part(A), X(c["x"])), "{ auto s = %s; s = %s; }" % (part(A), X(c["x"])))
        if op == "get_part":
            return "{ auto r = %s; %s }" % (part(K), "(void)r;" if o["k"] == "err" else "if(!holds1(r, {%s})) return false;" % ", ".join("%d" % x for x in o["v"]))
        if op == "new_copy":
            return "{ %s t(%s); p%d.emplace(t); }" % (F, two(B, "std::as_const(%s)" % B), i)
        if op == "new_move":
            return "{ %s t(std::move(%s)); p%d.emplace(std::move(t)); }" % (F, B, i) if same else None
        if op == "new_iter":
            b = two("begin", "cbegin")
            return "{ %s t(%s.%s() + %d, %s.%s() + %d); p%d.emplace(t); }" % (F, B, b, c["b"], B, b, c["e"], i)
        if op == "new_part":
            return "{ %s t(%s); p%d.emplace(t); }" % (F, part(two(B, "std::as_const(%s)" % B)), i)
        if op == "new_sum":
            return "{ %s t(%s + %s); p%d.emplace(t); }" % (F, B, C, i)
        if op == "assign":
            return ret("%s = %s" % (A, two(B, "std::as_const(%s)" % B)), A)
        if op == "assign_part":
            return ret("%s = %s" % (A, part(two(B, "std::as_const(%s)" % B))), A)
        if op == "assign_sum":
            return ret("%s = %s + %s" % (A, B, C), A)
        if op == "put_part":
            return two("%s = %s;" % (part(A), B), "{ auto s = %s; s = %s; }" % (part(A), B))
        if op == "move":
            return ret("%s = std::move(%s)" % (A, B), A) if same else None
        if op == "swap":
            return "std::swap(%s, %s);" % (A, B) if same and i < 4 else None
        if op == "raa":
            return ret("%s.resize_and_assign(%s)" % (A, B), A) if i == 4 else None
        if op == "add":
            return ret("%s += %s" % (A, B), A)
        if op == "sub":
            return ret("%s -= std::as_const(%s)" % (A, B), A)
        if op == "dot":
            return vals(rng, "dot_prod(%s, %s)" % (A, B), o)
        if op == "eq":
            return eq_text(A, B, o)
        return None
    return text


def walks(ctx, spec, constants, extra, starts, gens, render, length, name):
    """Histories chosen by a generator, with outcomes and states from the specification; all are
    extended by one command per evaluation."""
    rng = ctx.rng
    hs = [dict(s=s, cur=s, steps=[], on=True, gen=g) for s, g in zip(starts, gens)]
    for k in range(length):
        todo = []
        for h in hs:
            if h["on"]:
                c = None
                for _ in range(60):
                    c = h["gen"](rng, dict(t=h["cur"]), 50 + k)
                    if c and c["op"] in ("init", "move_assign_abort"):
                        c = None
                    if c and len(json.dumps(c)) < 400:
                        break
                if c:
                    todo.append((h, c))
        res = evaluate(ctx, spec, "WalkStep", [dict(s=h["cur"], c=c) for h, c in todo], constants, extra=extra + "\nWalkStep(x) == Step(x.s, x.c)", variables=("s", "last"), timeout=ctx.left())
        for (h, c), r in zip(todo, res):
            t = render(h, c, r["o"])
            if t is None:
                continue
            ctx.op("%s %s%s" % (name, c["op"], "!" if r["o"]["k"] == "err" else ""))
            h["steps"].append(t)
            if r["o"]["k"] == "err":
                h["on"] = False
            h["cur"] = r["t"]
    return hs


def rows_list(q):
    return [q["d"][r * q["n"]:(r + 1) * q["n"]] for r in range(q["m"])]


def array_histories(ctx, which, count, length):
    rng = ctx.rng
    v = arrays.val

    def s1():
        return [[v(rng) for _ in range(rng.randint(0, 7))] for _ in range(3)]

    def s2():
        r = []
        for _ in range(3):
            m, n = rng.randint(1, 4), rng.randint(1, 4)
            r.append(dict(m=m, n=n, d=[v(rng) for _ in range(m * n)]))
        return r
    out = []
    h1 = [] if which != 1 else walks(ctx, "Arr1", dict(P=3, MaxLen=3, Vals="{1}", Tags="FALSE"), "", [s1() for _ in range(count)], [arrays.gen1(3, 12)] * count, lambda h, c, o: text1(rng, c, o), length, "1D")
    for k, h in enumerate(h1):
        t = rng.choice(TYPES)
        li = ["using T = %s; using S = Strict<T>; using L = std::initializer_list<S>; using A = Array1D<T>;" % t]
        li += ["std::optional<A> p%d(std::in_place, %s);" % (q, L(x)) for q, x in enumerate(h["s"])]
        li += h["steps"]
        if h["on"]:
            li += ["if(!holds1(*p%d, {%s})) return false;" % (q, ", ".join(map(str, x))) for q, x in enumerate(h["cur"])]
        out.append(Seq("one%d" % k, li, not h["on"], None))
    h2 = [] if which != 2 else walks(ctx, "Arr2", dict(P=3, MaxDim=3, Vals="{1}"), "", [s2() for _ in range(count)], [arrays.gen2(3, 6)] * count, lambda h, c, o: text2(rng, c, o), length, "2D")
    for k, h in enumerate(h2):
        t = rng.choice(TYPES)
        li = ["using T = %s; using S = Strict<T>; using L = std::initializer_list<S>; using LL = std::initializer_list<L>; using A = Array2D<T>; using A1 = Array1D<T>;" % t]
        li += ["std::optional<A> p%d(std::in_place, %s);" % (q, LL(rows_list(x))) for q, x in enumerate(h["s"])]
        li += h["steps"]
        if h["on"]:
            li += ["if(!holds2(*p%d, %d, %d, {%s})) return false;" % (q, x["m"], x["n"], ", ".join(map(str, x["d"]))) for q, x in enumerate(h["cur"])]
        out.append(Seq("two%d" % k, li, not h["on"], None))
    for n in [which] if which in fixed.CONF else []:
        cf_ = fixed.CONF[n]
        dim, f, hh = cf_[:3]
        types = [0, 0, 0, 2, 3]
        const, extra = fixed.constants(cf_)
        extra = extra.replace("<<0, 0, 1, 2, 3>>", "<<0, 0, 0, 2, 3>>")
        starts = []
        for _ in range(count):
            dyn = (1, rng.randint(0, 4)) if dim == 1 else (rng.randint(1, 3), rng.randint(1, 3))
            if rng.random() < .4:
                dyn = f
            starts.append([dict(m=m, n=q, d=[v(rng) for _ in range(m * q)]) for m, q in (f, f, f, hh, dyn)])
        rend = text_fixed(dim, types)
        hs = walks(ctx, "Fixed", const, extra, starts, [fixed.generator(cf_)] * len(starts), lambda h, c, o: rend(rng, c, o), length, "fixed")
        for k, h in enumerate(hs):
            t = rng.choice(TYPES if cf_[3] == "unsigned" else ["int", "long", "float", "double", "long double"])
            fx = lambda s: "FixedArray1D<T, %d>" % s[1] if dim == 1 else "FixedArray2D<T, %d, %d>" % s
            li = ["using T = %s; using S = Strict<T>; using L = std::initializer_list<S>; using LL = std::initializer_list<L>;" % t]
            li += ["using A%d = %s;" % (q, ty) for q, ty in enumerate([fx(f)] * 3 + [fx(hh), "Array%dD<T>" % dim])]
            for q, x in enumerate(h["s"]):
                ini = "" if not x["d"] else ", " + (L(x["d"]) if dim == 1 else LL(rows_list(x)))
                li.append("std::optional<A%d> p%d(std::in_place%s);" % (q, q, ini))
            li += h["steps"]
            if h["on"]:
                for q, x in enumerate(h["cur"]):
                    li.append("if(!holds1(*p%d, {%s})) return false;" % (q, ", ".join(map(str, x["d"]))) if dim == 1 else "if(!holds2(*p%d, %d, %d, {%s})) return false;" % (q, x["m"], x["n"], ", ".join(map(str, x["d"]))))
            out.append(Seq("%s_%d" % (n.replace("-", "_"), k), li, not h["on"], None))
    return out


CNAME = dict(bool="bool", int="int", long="long", uint="unsigned", ulong="unsigned long", float="float", double="double", ld="long double")


def value(t, v):
    """C++ source of an exact value, or None when it is not a number"""
    if v["k"] != "num":
        return None
    m = sum(d << (12 * q) for q, d in enumerate(v["m"]))
    if t == "bool":
        return "true" if m else "false"
    if t in scalars.INTS:
        n = (m << v["e"]) * (-1 if v["s"] else 1)
        sfx = dict(int="", long="L", uint="U", ulong="UL")[t]
        w, sg = scalars.INTS[t]
        if sg and n == -2**(w - 1):
            return "(-%d%s - 1)" % (2**(w - 1) - 1, sfx)
        return "%d%s" % (n, sfx) if n >= 0 else "(%d%s)" % (n, sfx)
    s = "0x%xp%d%s" % (m, v["e"], dict(float="F", double="", ld="L")[t])
    return "(-%s)" % s if v["s"] else s


def strict(t, v):
    x = value(t, v)
    return x and "Strict<%s>{%s}" % (CNAME[t], x)


METHOD = dict(bool="sb", int="si", long="sl", uint="sui", ulong="sul", float="sf", double="sd", ld="sld")


def scalar_histories(ctx, count, length):
    rng = ctx.rng
    sess = [scalars.rand_session(rng, length) for _ in range(count)]
    out = evaluate(ctx, "Scalar", "Session", sess, dict(Types_="{}", Depth=1), variables=("s", "last"), chunk=40, timeout=ctx.left())
    seqs = []
    for n, (cs, os) in enumerate(zip(sess, out)):
        cur, lines, k, rejected = None, [], 0, False
        for c, r in zip(cs, os):
            o, op, f = r["o"], c["op"], c.get("f")
            if op == "conv" and o["k"] == "undef":
                break
            if o["k"] == "undef":
                continue
            num = lambda z: z["k"] == "num"
            t = cur and cur["t"]
            if op != "set" and not num(cur["v"]) or "y" in c and not num(c["y"]) or not num(r["t"]["v"]) or o["k"] == "ok" and any(isinstance(z, dict) and not num(z) for z in o["v"]):
                # not a number: the compilers' own rules apply; go on from the state reached, when it is one
                if not num(r["t"]["v"]):
                    break
                k += 1
                lines.append("auto r%d = %s;" % (k, strict(r["t"]["t"], r["t"]["v"])))
                cur = r["t"]
                continue
            R = "r%d" % k
            y = "y" in c and strict(c.get("t") or t, c["y"])
            e = None
            if op == "set":
                k += 1
                lines.append("auto r%d = %s;" % (k, strict(c["t"], c["y"])))
            elif op == "un":
                e = "%s%s" % (R, f[1:]) if f[0] == "p" else f + R
            elif op in ("bin", "rbin"):
                a, b = (R, y) if op == "bin" else (y, R)
                e = "equal(%s, %s)" % (a, b) if f == "equal" else "%s %s %s" % (a, f, b)
            elif op in ("comp", "self"):
                e = "%s %s= %s" % (R, f, y if op == "comp" else R)
            elif op == "const":
                e = "Strict<%s>{}" % CNAME[t] if f == "default" else "%s<%s>" % (f, CNAME[t])
                lines.append("%s = %s;" % (R, e))
                e = R
            elif op == "val":
                e = "Strict<%s>{%s.val()}" % (CNAME[t], R)
            elif op == "conv":
                to = c["to"]
                e = rng.choice(["%s.%s()" % (R, METHOD[to]), "strict_cast<%s>(%s)" % (CNAME[to], R), "Strict<%s>{builtin_cast<%s>(%s.val())}" % (CNAME[to], CNAME[to], R)])
            ctx.op("scalar %s %s%s" % (op, f or c.get("to", ""), "!" if o["k"] == "err" else ""))
            if o["k"] == "err":
                lines.append("(void)(%s);" % e)
                rejected = True
                cur = r["t"]
                break
            if e and o["k"] == "ok" and o["v"]:
                ty, v = o["v"]
                if op == "conv":
                    k += 1
                    lines.append("auto r%d = %s;" % (k, e))
                    e = "r%d" % k
                lines.append("if(!is<%s>(%s, %s)) return false;" % (CNAME[ty], e, value(ty, v)))
            elif e:
                lines.append("(void)(%s);" % e)
            cur = r["t"]
            if op in ("comp", "self", "un"):
                lines.append("if(!is<%s>(r%d, %s)) return false;" % (CNAME[cur["t"]], k, value(cur["t"], cur["v"])))
        if lines:
            seqs.append(Seq("scalar%d" % n, lines, rejected, None))
    return seqs


CONST_MATH = {"signs", "abss", "mins", "maxs", "invs", "squares", "cubes", "clamps", "in_open", "in_closed", "ipows", "factorial", "binom_coeff"}
MATH23 = {"floors", "ceils", "isinfs", "isnans", "isfinites", "fmas"}


def math_cases(ctx, names, count):
    rng = ctx.rng
    ins = [i for i in scalars.exact_questions(ctx) if i["f"] in names and all(a["k"] == "num" for a in i["a"])]
    by = {}
    for i in ins:
        by.setdefault((i["f"], i["t"]), []).append(i)
    ins = [i for l in by.values() for i in rng.sample(l, min(len(l), max(2, count // len(by))))]
    want = evaluate(ctx, "Math", "Fn", ins, dict(Types_="{}", Depth=1), variables=("s", "last"), timeout=ctx.left())
    seqs = []
    for n, (i, o) in enumerate(zip(ins, want)):
        if o["k"] == "undef" or o["k"] == "ok" and o["v"][1]["k"] != "num":
            continue
        f, t = i["f"], i["t"]
        a = [strict(t, x) for x in i["a"]]
        if f in ("factorial", "binom_coeff"):
            a = [value("long", x) for x in i["a"]]
        if f in ("clamps", "in_open", "in_closed") and rng.random() < .5:
            a = ([a[0]] if f == "clamps" else ["Value{%s}" % a[0]]) + ["Low{%s}" % a[1], "High{%s}" % a[2]]
        e = "%s(%s)" % (f.replace("ipows", "pows"), ", ".join(a))
        ctx.op("math %s %s%s" % (f, t, "!" if o["k"] == "err" else ""))
        if o["k"] == "err":
            seqs.append(Seq("math%d" % n, ["(void)(%s);" % e], True, None))
        else:
            seqs.append(Seq("math%d" % n, ["if(!near_zero_is<%s>(%s, %s)) return false;" % (CNAME[o["v"][0]], e, value(*o["v"]))], False, None))
    return seqs
