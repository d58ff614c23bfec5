"""C01-C04: histories of resizable arrays (spec/Arr1.tla, spec/Arr2.tla)."""
import random
from harness import *

PROPS1 = ["RejectedLeavesNoTrace", "OnlyTouched", "SelfNoOp", "QueriesPure", "MoveEmpties"]
OWNERSHIP = {"init", "new_copy", "new_conv", "new_eval", "new_move", "new_expr", "new_slice", "new_iter", "assign", "assign_conv",
             "assign_expr", "assign_slice", "move_assign", "swap", "raa", "raa_move", "raa_expr", "raa_slice", "insert_arr",
             "insert_arr_front", "insert_arr_back", "insert_slice", "insert_elem", "ins_rows", "ins_cols", "ins_rows_front",
             "ins_cols_front", "ins_rows_back", "ins_cols_back", "ins_rows_slice", "ins_cols_slice", "ins_row_of", "ins_col_of"}
# what a trace step has to satisfy
STEP_VALID = 'IF r.o.k = "err" THEN s\' = Trace[l].t ELSE r.o = Trace[l].o /\\ r.t = Trace[l].t /\\ s\' = r.t'
STEP_REJECT = 'r.o.k = Trace[l].o.k /\\ (r.o.k = "err" => Trace[l].t = s) /\\ s\' = Trace[l].t'

CONFIGS = {
    "int": ["T_=int"],
    "double-aligned": ["T_=double", "AF_=Aligned", "OTHER_AF=Unaligned"],
    "unsigned": ["T_=unsigned", "AF_=Aligned", "OTHER_AF=Unaligned"],
    "longdouble": ["T_=long double"],
    "long-aligned": ["T_=long", "AF_=Aligned", "OTHER_AF=Unaligned"],
    "float": ["T_=float"],
}


def val(rng):
    return rng.choice([0, 1, 2, 3, rng.randint(0, 9), rng.randint(0, 999)])


def off(rng, n, p=0.12):
    """a position in 0..n-1, sometimes outside"""
    if n <= 0 or rng.random() < p:
        return rng.choice([-2, -1, n, n + 1, n + 7])
    return rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])


def ins_pos(rng, n):
    return rng.choice([-1, n + 1]) if rng.random() < 0.1 else rng.choice([0, n, rng.randint(0, n)])


def pick_list(rng, n):
    r = rng.random()
    if r < 0.75:
        return sorted(rng.sample(range(n), rng.randint(0, n))) if n else []
    xs = [rng.randint(-1, n) for _ in range(rng.randint(1, 4))]
    return xs if r < 0.9 else sorted(xs)


def slice_n(rng, n):
    """(start, count, stride) mostly valid for length n"""
    if rng.random() < 0.12:
        return rng.randint(-1, n + 1), rng.randint(-1, n + 2), rng.randint(-3, 3)
    if n == 0:
        return rng.randint(0, 3), 0, rng.randint(-3, 3)
    st = rng.choice([1, 1, 1, 2, 3, -1, -1, -2, 0])
    b = rng.randrange(n)
    mx = (n - 1 - b) // st + 1 if st > 0 else b // -st + 1 if st < 0 else 4
    return b, rng.randint(0, mx), st


def gen1(P, maxlen):
    def gen(rng, obs, k):
        if k == 0:
            return dict(op="init", n=P)
        st = obs["t"]
        if any(isinstance(x, str) for x in st):
            return None
        ln = [len(x) for x in st]
        if k <= P:
            return dict(op="new_list", i=k - 1, xs=[val(rng) for _ in range(rng.randint(0, 9))])
        i, j, m = rng.randrange(P), rng.randrange(P), rng.randrange(P)
        if rng.random() < 0.5:
            same = [q for q in range(P) if ln[q] == ln[i]]
            j = rng.choice(same)
        n = ln[i]
        big = n > maxlen
        w = rng.randrange(60)
        ops = ["new_n", "new_nx", "new_list", "new_iter", "new_copy", "new_conv", "new_eval", "new_move", "new_slice", "new_expr",
               "set_x", "set_list", "assign", "assign_conv", "assign_expr", "assign_slice", "move_assign", "swap", "resize", "resize",
               "resize_fill", "raa", "raa_move", "raa_expr", "raa_slice", "remove", "remove", "remove1", "remove_front", "remove_back",
               "remove_last", "remove_last", "remove_list", "remove_list", "insert", "insert", "insert_elem", "insert_front", "insert_back",
               "insert_arr", "insert_arr", "insert_arr_front", "insert_arr_back", "insert_slice", "insert_slice", "get", "get_last", "put", "put_last", "eq", "new0"]
        op = rng.choice(ops)
        if big:
            op = rng.choice(["remove", "remove_front", "remove_back", "resize", "remove_list", "new_n", "raa_slice"])
        c = dict(op=op, i=i, w=w)
        if op in ("new_n", "new_nx", "resize", "resize_fill"):
            c["n"] = rng.choice([-1, 0, 1, n, n + 1, max(0, n - 1), rng.randint(0, 12)])
        if op in ("new_nx", "set_x", "resize_fill", "insert", "insert_front", "insert_back", "put", "put_last"):
            c["x"] = val(rng)
        if op in ("new_list", "set_list"):
            c["xs"] = [val(rng) for _ in range(n if op == "set_list" and n <= 12 and rng.random() < 0.8 else rng.randint(0, 9))]
        if op in ("new_iter",):
            b, e = rng.randint(0, ln[j]), rng.randint(0, ln[j])
            c.update(j=j, b=min(b, e) if rng.random() < 0.9 else b, e=max(b, e) if rng.random() < 0.9 else e)
        if op in ("new_copy", "new_conv", "new_eval", "new_move", "assign", "assign_conv", "swap", "raa", "raa_move", "insert_arr", "insert_arr_front", "insert_arr_back", "eq"):
            c["j"] = j
        if op == "move_assign":
            if ln[i] != ln[j]:
                op = c["op"] = "swap"
            c["j"] = j
        if op in ("new_expr", "assign_expr", "raa_expr"):
            if max([abs(v) for x in st for v in x] + [0]) > 10 ** 6:
                return dict(op="set_x", i=i, x=1)
            same = [q for q in range(P) if ln[q] == ln[j]]
            c.update(j=j, k=rng.choice(same) if rng.random() < 0.85 else m)
        if op in ("new_slice", "assign_slice", "raa_slice", "insert_slice"):
            if op == "assign_slice" and i == j:
                j = (i + 1) % P
            b, q, stv = slice_n(rng, ln[j])
            if op == "assign_slice" and rng.random() < 0.6 and n <= ln[j]:
                b, q, stv = (0, n, 1) if rng.random() < 0.5 else (ln[j] - 1, n, -1)
            c.update(j=j, b=b, n=q, st=stv)
        if op == "remove":
            c["p"] = off(rng, n)
            c["n"] = rng.choice([-1, 0, n + 1]) if rng.random() < 0.12 else rng.randint(1, max(1, n - max(0, c["p"])))
        if op in ("remove1", "get", "put", "remove_last", "get_last", "put_last"):
            c["p"] = off(rng, n)
        if op in ("remove_front", "remove_back"):
            c["n"] = rng.choice([-1, 0, n + 1]) if rng.random() < 0.12 else rng.randint(1, max(1, n))
        if op == "remove_list":
            c["xs"] = pick_list(rng, n)
        if op in ("insert", "insert_elem", "insert_arr", "insert_slice"):
            c["p"] = ins_pos(rng, n)
        if op == "insert_elem":
            c["q"] = off(rng, n, 0.05)
        return c
    return gen


def gen2(P, maxdim):
    def gen(rng, obs, k):
        if k == 0:
            return dict(op="init", n=P)
        st = obs["t"]
        if any(isinstance(x, str) or isinstance(x["d"], str) for x in st):
            return None
        sh = [(x["m"], x["n"]) for x in st]

        def rows(m, n):
            return [[val(rng) for _ in range(n)] for _ in range(m)]
        if k <= P:
            m, n = rng.randint(1, 4), rng.randint(1, 4)
            return dict(op="new_list", i=k - 1, ll=rows(m, n))
        i, j, e = rng.randrange(P), rng.randrange(P), rng.randrange(P)
        m, n = sh[i]
        if rng.random() < 0.5:
            j = rng.choice([q for q in range(P) if sh[q] == sh[i]])
        ops = ["new_mn", "new_mnx", "new_list", "new_copy", "new_conv", "new_eval", "new_move", "new_slice", "new_expr", "set_x", "set_list",
               "assign", "assign_conv", "assign_expr", "assign_slice", "move_assign", "swap", "resize", "resize", "resize_fill", "raa", "raa_move",
               "raa_expr", "raa_slice", "rem_rows", "rem_cols", "rem_row", "rem_col", "rem_row_last", "rem_col_last", "rem_rows_front", "rem_cols_front",
               "rem_rows_back", "rem_cols_back", "rem_rows_list", "rem_cols_list", "ins_rows", "ins_cols", "ins_rows_front", "ins_rows_back",
               "ins_cols_front", "ins_cols_back", "ins_rows_slice", "ins_cols_slice", "ins_row", "ins_col", "ins_row", "ins_col", "ins_row_front",
               "ins_row_back", "ins_col_front", "ins_col_back", "ins_row_of", "ins_col_of", "get", "get_last", "put", "row", "col", "row_last", "col_last", "eq"]
        op = rng.choice(ops)
        if m > maxdim or n > maxdim:
            op = rng.choice(["rem_rows", "rem_cols", "resize", "rem_rows_list", "rem_cols_list", "new_mn"])
        if op.startswith("ins_rows") and not op.endswith("slice") and rng.random() < 0.6:
            j = rng.choice([q for q in range(P) if sh[q][1] == n])
        if op.startswith("ins_cols") and not op.endswith("slice") and rng.random() < 0.6:
            j = rng.choice([q for q in range(P) if sh[q][0] == m])
        c = dict(op=op, i=i, w=rng.randrange(60))
        if op in ("new_mn", "new_mnx", "resize", "resize_fill"):
            c["m"] = rng.choice([-1, 0, 1, m, m + 1, rng.randint(1, 5), rng.randint(1, 5)])
            c["n"] = rng.choice([-1, 0, 1, n, n + 1, rng.randint(1, 5), rng.randint(1, 5)])
            if rng.random() < 0.6:
                c["m"], c["n"] = max(1, c["m"]), max(1, c["n"])
            if op == "resize_fill" and m * n and rng.random() < 0.3:  # same size, other shape
                c["m"], c["n"] = n, m
        if op in ("new_mnx", "set_x", "resize_fill", "put"):
            c["x"] = val(rng)
        if op in ("new_list", "set_list"):
            mm, nn = (m, n) if op == "set_list" and rng.random() < 0.8 else (rng.randint(0, 4), rng.randint(0, 4))
            mm, nn = min(mm, 4), min(nn, 12)
            c["ll"] = rows(mm, nn)
            if mm and rng.random() < 0.12:
                q = rng.randrange(mm)
                c["ll"][q] = [val(rng) for _ in range(rng.randint(0, 5))]
        if op in ("new_copy", "new_conv", "new_eval", "new_move", "assign", "assign_conv", "swap", "raa", "raa_move", "eq") or op.startswith("ins_") and op not in ("ins_row", "ins_col", "ins_row_front", "ins_row_back", "ins_col_front", "ins_col_back"):
            c["j"] = j
        if op == "move_assign":
            if sh[i] != sh[j]:
                op = c["op"] = "swap"
            c["j"] = j
        if op in ("new_expr", "assign_expr", "raa_expr"):
            if max([abs(v) for x in st for v in x["d"]] + [0]) > 10 ** 6:
                return dict(op="set_x", i=i, x=1)
            same = [q for q in range(P) if sh[q] == sh[j]]
            c.update(j=j, k=rng.choice(same) if rng.random() < 0.85 else e)
        if op in ("new_slice", "assign_slice", "raa_slice", "ins_rows_slice", "ins_cols_slice"):
            if op == "assign_slice" and i == j:
                j = (i + 1) % P
            (b, q, s1), (b2, q2, s2) = slice_n(rng, sh[j][0]), slice_n(rng, sh[j][1])
            if rng.random() < 0.5:
                if op in ("assign_slice", "ins_cols_slice") and m <= sh[j][0]:
                    b, q, s1 = (0, m, 1) if rng.random() < 0.5 else (sh[j][0] - 1, m, -1)
                if op in ("assign_slice", "ins_rows_slice") and n <= sh[j][1]:
                    b2, q2, s2 = (0, n, 1) if rng.random() < 0.5 else (sh[j][1] - 1, n, -1)
            c.update(j=j, b=b, n=q, st=s1, b2=b2, n2=q2, st2=s2)
        d = m if "row" in op else n
        if op in ("rem_rows", "rem_cols"):
            c["p"] = off(rng, d)
            c["n"] = rng.choice([-1, 0, d + 1]) if rng.random() < 0.12 else rng.randint(1, max(1, d - max(0, c["p"])))
        if op in ("rem_row", "rem_col", "rem_row_last", "rem_col_last", "row", "col", "row_last", "col_last"):
            c["p"] = off(rng, d)
        if op in ("rem_rows_front", "rem_cols_front", "rem_rows_back", "rem_cols_back"):
            c["n"] = rng.choice([-1, 0, d + 1]) if rng.random() < 0.12 else rng.randint(1, max(1, d))
        if op in ("rem_rows_list", "rem_cols_list"):
            c["xs"] = pick_list(rng, d)
        if op.startswith("ins_"):
            c["p"] = ins_pos(rng, d)
        if op in ("ins_row", "ins_col", "ins_row_front", "ins_row_back", "ins_col_front", "ins_col_back"):
            l = n if "row" in op else m
            if l == 0 or rng.random() < 0.15:
                l = rng.randint(0, 5)
            c["xs"] = [val(rng) for _ in range(min(l, 30))]
        if op == "ins_row_of":
            j = rng.choice([q for q in range(P) if sh[q][1] == n])
            c.update(j=j, q=off(rng, sh[j][0], 0.08))
        if op == "ins_col_of":
            j = rng.choice([q for q in range(P) if sh[q][0] == m])
            c.update(j=j, q=off(rng, sh[j][1], 0.08))
        if op in ("get", "get_last", "put"):
            c.update(p=off(rng, m), q=off(rng, n))
        return c
    return gen


def only(gen, keep):
    """restricts a generator to some operations (with enough of the others to vary the states)"""
    def g(rng, obs, k):
        for _ in range(200):
            c = gen(rng, obs, k)
            if c is None or keep(c["op"]) or rng.random() < 0.04:
                return c
        return c
    return g


def judge_valid(v, obs):
    return obs["o"] == v["o"] and obs["t"] == v["t"]


def judge_reject(v, obs):
    return obs["o"]["k"] == v["o"]["k"] and (v["o"]["k"] == "ok" or obs["t"] == v["s"])


def vectors1(ctx, maxlen):
    v = enumerate_spec(ctx, "Arr1", dict(P=2, MaxLen=maxlen, Vals="{7}", Tags="TRUE"), ["TypeOK"], PROPS1, timeout=300)
    return v


def vectors1c(ctx, maxlen=2):
    return enumerate_spec(ctx, "Arr1", dict(P=2, MaxLen=maxlen, Vals="{1, 2}", Tags="FALSE"), ["TypeOK"], PROPS1, timeout=300)


def vectors2(ctx, maxdim):
    return enumerate_spec(ctx, "Arr2", dict(P=2, MaxDim=maxdim, Vals="{7}"), ["TypeOK"], PROPS1 + ["LastIsFromEnd"], timeout=600)


def configs(ctx, names):
    return {k: CONFIGS[k] for k in names}


def histories(ctx, which, keepvec, judge, step, keepop=None):
    """which: 1 or 2 (dimension)."""
    q = ctx.quick
    src, spec, consts = ("arr1.cpp", "Arr1", dict(P=3, MaxLen=3, Vals="{1}", Tags="FALSE")) if which == 1 else ("arr2.cpp", "Arr2", dict(P=3, MaxDim=3, Vals="{1}"))
    names = ["int", "double-aligned"] if q else ["int", "double-aligned", "unsigned", "longdouble", "long-aligned", "float"]
    if which == 1 and q:
        names.append("longdouble")
    jobs = {"%s-%s" % (spec, k): (src, CONFIGS[k], ["-O0"] if q or k != "int" else ["-O2"]) for k in names}
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        if which == 1:
            vec = vectors1(ctx, 4 if q else 6)
            if not q:
                vec += vectors1c(ctx)
        else:
            vec = vectors2(ctx, 2 if q else 3)
        bins = fb.result()
    vec = [v for v in vec if keepvec(v)]
    ctx.log("%d transitions of %s, drivers %s" % (len(vec), spec, sorted(bins)))
    for k in sorted(bins):
        replay(ctx, bins[k], vec, k, judge=judge, variants=60)
    for v in vec[:: max(1, len(vec) // 5)][:5]:
        ctx.sample(v)
    ctx.log("replayed")
    gen = gen1(3, 24) if which == 1 else gen2(3, 8)
    if keepop:
        gen = only(gen, keepop)
    for k in sorted(bins):
        conform(ctx, bins[k], spec, gen, 16 if q else 120, 150 if q else 300, k, consts, step=step)
    ctx.log("histories validated")


ASSUME = ["elements are opaque to structural operations (shapes are enumerated with one assignment of distinct elements; arbitrary contents are covered by the random histories)",
          "the in-bounds enumeration starts each transition from a state built element by element",
          "contents after resize without preservation are unspecified and are overwritten before being compared"]


def c01(ctx):
    ctx.assumptions += ASSUME
    histories(ctx, 1, lambda v: v["o"]["k"] == "ok", judge_valid, STEP_VALID)


def c02(ctx):
    ctx.assumptions += ASSUME
    histories(ctx, 2, lambda v: v["o"]["k"] == "ok", judge_valid, STEP_VALID)


def c03(ctx):
    ctx.assumptions += ASSUME
    histories(ctx, 1, lambda v: True, judge_reject, STEP_REJECT)
    histories(ctx, 2, lambda v: True, judge_reject, STEP_REJECT)


def c04(ctx):
    ctx.assumptions += ASSUME
    keep = lambda op: op in OWNERSHIP
    for d in (1, 2):
        histories(ctx, d, lambda v: v["c"]["op"] in OWNERSHIP and v["o"]["k"] == "ok", judge_valid, STEP_VALID, keep)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
