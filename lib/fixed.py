"""C17: fixed-size arrays (spec/Fixed.tla)."""
import random as pyrandom
from harness import *


def tla_shapes(decl):
    return "<<" + ", ".join("<<>>" if d is None else "<<%d, %d>>" % d for d in decl) + ">>"


# dimension, declared shapes F and H, element type, alignments
CONF = {
    "f1-2": (1, (1, 2), (1, 3), "int", "Unaligned", "Aligned"),
    "f1-3": (1, (1, 3), (1, 1), "double", "Aligned", "Unaligned"),
    "f1-0": (1, (1, 0), (1, 1), "float", "Unaligned", "Aligned"),
    "f1-7": (1, (1, 7), (1, 4), "long double", "Aligned", "Unaligned"),
    "f2-12": (2, (1, 2), (2, 1), "long", "Unaligned", "Aligned"),
    "f2-22": (2, (2, 2), (1, 3), "int", "Aligned", "Unaligned"),
    "f2-23": (2, (2, 3), (3, 2), "double", "Unaligned", "Aligned"),
    "f2-00": (2, (0, 0), (1, 1), "unsigned", "Aligned", "Unaligned"),
    "f2-34": (2, (3, 4), (4, 3), "float", "Aligned", "Unaligned"),
    "f1-16": (1, (1, 16), (1, 17), "long", "Unaligned", "Aligned"),
}


def constants(cf, **kw):
    dim, f, h = cf[:3]
    r = dict(Dim=dim, Decl="<- DeclIs", Types_="<- TypesAre", MaxDim=2, Vals="{1, 2}", Tags="TRUE", Active="{0, 1, 2, 3, 4}")
    r.update(kw)
    extra = "DeclIs == %s\nTypesAre == <<0, 0, 1, 2, 3>>" % tla_shapes([f, f, f, h, None])
    return r, extra


def job(cf):
    dim, f, h, t, af, of = cf
    return ("fixed.cpp", ["DIM=%d" % dim, "T_=" + t, "AF_=" + af, "OTHER_AF=" + of, "M_=%d" % f[0], "N_=%d" % f[1], "M2_=%d" % h[0], "N2_=%d" % h[1]],
            ["-O0", "cxx=clang++"] if cf[3] != "int" else ["-O1"])


def generator(cf):
    dim, f, h = cf[:3]
    from arrays import val, slice_n
    unsigned = cf[3] == "unsigned"

    def gen(rng, obs, k):
        if k == 0:
            return dict(op="init", i=0)
        st = obs["t"]
        if any(isinstance(x, str) or isinstance(x["d"], str) for x in st):
            return None
        sh = [(x["m"], x["n"]) for x in st]
        i, j, e = rng.randrange(5), rng.randrange(5), rng.randrange(5)
        if max([abs(v) for x in st for v in x["d"]] + [0]) > 10**4:
            i = [q for q in range(5) if max([abs(v) for v in st[q]["d"]] + [0]) > 10**4][0]
            return dict(op="set_x", i=i, x=val(rng))
        if rng.random() < .6:
            j = rng.choice([q for q in range(5) if sh[q] == sh[i]])
            e = rng.choice([q for q in range(5) if sh[q] == sh[j]])
        if k < 6:
            i = k % 5
            op = "new_list" if i == 4 or k < 5 else "set_list"
        else:
            op = rng.choice(["new0", "new_x", "new_list", "new_copy", "new_move", "new_iter", "new_part", "new_sum", "set_x", "set_list", "set_list", "assign", "assign",
                             "assign_part", "assign_sum", "move", "move", "swap", "swap", "raa", "raa", "get", "get_last", "put", "put", "put_part_x", "put_part", "put_part",
                             "get_part", "add", "sub", "addx", "sort", "sum", "dot", "eq", "pass"])
        m, n = sh[i]
        same = j if j in (0, 1) and i in (0, 1) else i
        c = dict(op=op, i=i, w=rng.randrange(60))
        if op in ("new_x", "set_x", "addx", "put", "put_part_x"):
            c["x"] = val(rng)
        if op == "new_x" and i == 4:
            c["op"] = "new0"
        if op in ("new_list", "set_list"):
            want = sh[i] if i < 4 and rng.random() < .85 or op == "set_list" and rng.random() < .8 else (1 if dim == 1 else rng.randint(1, 3), rng.randint(1, 4))
            if want[0] > 3 or want[1] > 12 or want[0] == 0:
                want = (1, 2)
            c["ll"] = [[val(rng) for _ in range(want[1])] for _ in range(want[0])]
            if dim == 2 and rng.random() < .1:
                c["ll"][-1] = c["ll"][-1][1:]
            if dim == 2 and rng.random() < .05:
                c["ll"] = rng.choice([[], [[]]])
        if op in ("new_copy", "assign", "add", "sub", "dot", "eq"):
            c["j"] = j
            if op == "sub" and unsigned:
                c["op"] = "add"
        if op == "new_move":
            c["j"] = 1 - i if i in (0, 1) else i
            if c["j"] == i:
                c["op"] = "new_copy"
        if op in ("move", "swap", "pass"):
            c["j"] = same
            if i == 4 and op == "swap":
                c["op"] = "eq"
        if op == "raa":
            c.update(i=4, j=j)
        if op == "new_iter":
            if dim == 2:
                return dict(op="eq", i=i, j=j)
            ln = sh[j][1]
            b = rng.randint(0, ln)
            c.update(j=j, b=b, e=min(ln, b + n) if rng.random() < .8 else rng.randint(0, ln))
        if op in ("new_part", "assign_part", "put_part_x", "put_part", "get_part"):
            src = j if op in ("new_part", "assign_part") else i
            if op in ("assign_part", "put_part") and i == j:
                j = (i + 1 + rng.randrange(4)) % 5
                src = j if op == "assign_part" else i
            (b, q, s1), (b2, q2, s2) = slice_n(rng, sh[src][0]), slice_n(rng, sh[src][1])
            to = sh[i] if op != "put_part" else sh[j]
            if rng.random() < .7:
                if to[0] <= sh[src][0]:
                    b, q, s1 = (0, to[0], 1) if rng.random() < .5 else (sh[src][0] - 1, to[0], -1)
                if to[1] <= sh[src][1]:
                    b2, q2, s2 = rng.randint(0, sh[src][1] - to[1]), to[1], 1
            if op.startswith("put") and (s1 == 0 or s2 == 0):
                s1, s2 = 1, 1
            c.update(j=j, b=b, n=q, st=s1, b2=b2, n2=q2, st2=s2)
        if op in ("new_sum", "assign_sum"):
            c.update(j=j, k=e)
        if op in ("get", "get_last", "put"):
            far = rng.random() < .1
            c["p"] = 0 if dim == 1 else rng.randint(-1, m) if far else rng.randrange(max(1, m))
            c["q"] = rng.randint(-1, n) if far else rng.randrange(max(1, n))
        return c
    return gen


PROPS = ["RejectedLeavesNoTrace", "OnlyTouched", "MoveLeavesZeros", "SelfNoOp"]


def c17(ctx):
    q = ctx.quick
    ctx.assumptions += ["a source of another type than its target is copied from, also when given as a temporary",
                        "parts assigned from overlap their target only when source and target are different arrays"]
    names = ["f1-2", "f1-3", "f1-0", "f2-12", "f2-23", "f2-00"] if q else list(CONF)
    deep = [n for n in names if n in ("f1-2", "f2-12")]
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, {n: job(CONF[n]) for n in names})
        vec = {}
        for n in names:
            d = CONF[n][0]
            big = max(CONF[n][1] + CONF[n][2])
            const, extra = constants(CONF[n], MaxDim=(big or 1) if q else max(big, 3 if d == 1 else 2) if big < 5 else 2)
            if big >= 5 or d == 2 and big > 3:  # lists up to the declared shape would be too many
                const["MaxDim"] = 1
            const["Vals"] = "{7}"
            if n not in ("f1-7", "f1-16", "f2-34"):
                vec[n] = enumerate_spec(ctx, "Fixed", const, ["Declared", "SameAsResizable"], PROPS, extra=extra, timeout=400)
            if n in deep:
                const, extra = constants(CONF[n], Tags="FALSE", Active="{0, 4}" if q and CONF[n][0] == 2 else "{0, 1, 4}", MaxDim=2, Vals="{1}" if q else "{1, 2}")
                vec[n] += enumerate_spec(ctx, "Fixed", const, ["Declared", "SameAsResizable"], PROPS, extra=extra, timeout=600)
            ctx.log(n, len(vec.get(n, [])))
        bins = fb.result()
    rng = pyrandom.Random(ctx.seed)
    for n in names:
        v = [x for x in vec.get(n, []) if CONF[n][3] != "unsigned" or x["c"]["op"] != "sub" or x["o"]["k"] != "ok"]
        if q and len(v) > 20000:
            v = rng.sample(v, 20000)
        if v:
            replay(ctx, bins[n], v, n, judge=lambda v, obs: obs["o"] == v["o"] and obs["t"] == v["t"], variants=60)
            ctx.sample(v[len(v) // 2])
    ctx.log("replayed")
    for n in names:
        const, extra = constants(CONF[n])
        conform(ctx, bins[n], "Fixed", generator(CONF[n]), 8 if q else 80, 120 if q else 300, n, const, extra=extra)


CHECKS = {"C17": c17}
