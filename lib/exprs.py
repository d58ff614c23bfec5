"""C08, C09, C11: expression programs (spec/Expr.tla). Random typed expression trees become C++
programs; every program is run with many contents, shapes and parameters, and TLC evaluates
what each run has to show."""
from harness import *
from grid import grid

CT = dict(I="int", L="long", U="unsigned", D="double", F="float", B="bool")
INTS, FLTS = "ILU", "DF"
SIGNED = "IL"


class Sh:
    """A symbolic shape shared by the nodes that must agree on it."""
    def __init__(self, d, sq=False, pinnable=False):
        self.d, self.sq, self.pinnable, self.pin, self.val = d, sq, pinnable, None, None

    def set(self, val):
        val = tuple(max(0, x) for x in val)
        if self.d == 2 and 0 in val:
            val = (0, 0)
        self.val = self.pin or val


class Slot:
    def __init__(self, k):
        self.k = k


class Node:
    def __init__(self, f, t, sh, cpp, inst, owner=False, view=False):
        self.f, self.t, self.sh, self.cpp, self.inst, self.owner, self.view = f, t, sh, cpp, inst, owner, view


def invsel(rng, n, kinds=None):
    """A selector that picks n positions, and the size of the sequence it is applied to.
    (Only steers generation; the specification decides what it really picks.)"""
    k = rng.choice(kinds or ["all", "rev", "even", "odd", "skip", "first", "last", "list", "list", "compl", "seq", "seqN", "seqN"])
    if k in ("all", "rev"):
        return n, dict(sel=k)
    if k == "even":
        return (rng.choice([2 * n - 1, 2 * n]) if n else 0), dict(sel=k)
    if k == "odd":
        return rng.choice([2 * n, 2 * n + 1]), dict(sel=k)
    if k == "skip":
        c = rng.randint(1, 3)
        return (rng.randint((n - 1) * c + 1, n * c) if n else 0), dict(sel=k, c=c)
    if k in ("first", "last"):
        return n + rng.randint(0, 3), dict(sel=k, c=n)
    if k == "list":
        b = max(1 if n else 0, n + rng.randint(-2, 2))
        return b, dict(sel=k, ix=[rng.randrange(b) for _ in range(n)])
    if k == "compl":
        r = rng.randint(0, 3)
        return n + r, dict(sel=k, ix=sorted(rng.sample(range(n + r), r)))
    st = rng.choice([1, 1, 2, 3, -1, -1, -2])
    lo, hi = rng.randint(0, 2), rng.randint(0, 2)
    span = (max(n, 1) - 1) * abs(st) + 1
    b = lo + span + hi
    f = lo if st > 0 else lo + span - 1
    if k == "seqN":
        return b, dict(sel=k, f=f, c=n, st=st)
    over = min(rng.randint(0, abs(st) - 1), hi if st > 0 else lo)
    e = f + (max(n, 1) - 1) * st + (over if st > 0 else -over)
    return b, dict(sel=k, f=f, l=e, st=st)


def sel_cpp(kind, k):
    p = "P[%d]" % k
    return dict(all="place::all", rev="place::reverse", even="place::even", odd="place::odd",
                skip="place::skipN{%s.num(\"c\")}" % p, first="place::firstN{%s.num(\"c\")}" % p, last="place::lastN{%s.num(\"c\")}" % p,
                list="to_idx(%s.vec(\"ix\"))" % p, compl="place::complement{to_idx(%s.vec(\"ix\"))}" % p,
                seq="seq{%s.num(\"f\"), %s.num(\"l\"), %s.num(\"st\")}" % (p, p, p),
                seqN="seqN{%s.num(\"f\"), %s.num(\"c\"), %s.num(\"st\")}" % (p, p, p))[kind]


SELK = ["all", "rev", "even", "odd", "skip", "first", "last", "list", "compl", "seq", "seqN"]
# node kinds: name -> (dimensions, result types)
ELEM = ["leaf", "un", "self", "bin", "binS", "Sbin", "cast", "cmp", "lt", "pick", "half", "scale", "trans"]
PATH1 = ["sel", "row", "col", "diag", "view1"]
PATH2 = ["sub", "rows", "cols", "block", "view2"]
STRUCT1 = ["merge", "mergeS", "excl", "rowred", "colred", "matvec", "seq", "linsp", "irange", "irangeof", "eunit", "c1"]
STRUCT2 = ["mergeh", "mergev", "transp", "rowbc", "colbc", "tensor", "ident", "c2"]
SQ = {"rowbc", "colbc", "ident"}


def fill_in(tmpl, kids):
    """{0}, {1}.. are the operands, {{ and }} are braces; single braces stay as they are."""
    t = tmpl.replace("{{", "\x01").replace("}}", "\x02")
    t = re.sub(r"\{(\d)\}", lambda m: "\x03%s\x04" % m.group(1), t)
    t = t.replace("\x01", "{").replace("\x02", "}")
    return re.sub("\x03(\\d)\x04", lambda m: kids[int(m.group(1))], t)


class Prog:
    used = {}           # form -> how often a program of this run uses it

    def __init__(self, rng, num):
        self.rng, self.num = rng, num
        self.forms = []
        self.vars, self.slots, self.scalars = [], 0, set()
        self.kinds = set()
        self.want = None

    # ------------------------------------------------------------ pieces
    def one(self, key, options, even=.8):
        """One of several forms, mostly the one used least so far: no form stays without use."""
        if self.rng.random() < even:
            least = min(self.used.get((key, o), 0) for o in options)
            form = self.rng.choice([o for o in sorted(set(options), key=str) if self.used.get((key, o), 0) == least])
        else:
            form = self.rng.choice(options)
        self.used[key, form] = self.used.get((key, form), 0) + 1
        self.forms.append("%s %s" % (key if isinstance(key, str) else key[0], form))
        return form

    def slot(self):
        self.slots += 1
        return self.slots - 1

    def combine(self, tmpl, kids):
        """A call on sub-expressions, written inline or through named locals that die first."""
        if self.rng.random() < .35:
            decl, names = [], []
            for q, k in enumerate(kids):
                if k.owner or (k.view and self.rng.random() < .5):
                    names.append(k.cpp)
                else:
                    decl.append("auto n%d_%d = %s; " % (q, len(k.cpp) % 97, k.cpp))
                    names.append("n%d_%d" % (q, len(k.cpp) % 97))
            return "[&] { %sreturn %s; }()" % ("".join(decl), fill_in(tmpl, names))
        return fill_in(tmpl, [k.cpp if k.owner else "(" + k.cpp + ")" for k in kids])

    def node(self, f, t, sh, tmpl, kids, inst):
        return Node(f, t, sh, self.combine(tmpl, kids), inst)

    # ------------------------------------------------------------ leaves
    def leaf(self, t, sh, hint="any"):
        rng = self.rng
        for i, v in enumerate(self.vars):
            if v["t"] == t and v["sh"] is sh and v["hint"] == hint and rng.random() < .3:
                break
        else:
            kinds = ["own", "own", "const", "attach", "cattach"]
            if t == "B":
                kinds = ["own", "own", "const"]
            if sh.pinnable and rng.random() < .35:
                kinds = ["fixed"]
                if not sh.pin:
                    sh.pin = (rng.randint(1, 4),) if sh.d == 1 else (rng.randint(1, 3),) * 2 if sh.sq else (rng.randint(1, 3), rng.randint(1, 3))
            v = dict(t=t, sh=sh, hint=hint, kind=rng.choice(kinds))
            self.vars.append(v)
            i = len(self.vars) - 1
        kind = self.vars[i]["kind"]
        return Node("leaf", t, sh, "v%d" % i, lambda R: dict(f="var", i=i), owner=kind in ("own", "const", "fixed"), view=True)

    def scalar(self, t, hint="any"):
        k = self.slot()
        self.scalars.add(k)
        return "SS<%s>(P[%d])" % (CT[t], k), (lambda R: R.put(k, R.value(t, hint)))

    # ------------------------------------------------------------ generation
    def gen(self, t, sh, depth, force=None, hint="any", allow=None):
        rng = self.rng
        d = sh.d
        if depth <= 0 and not force:
            return self.leaf(t, sh, hint)
        if force:
            kind = force
        else:
            opts = ["leaf", "self"] + ["un", "bin", "bin", "binS", "Sbin"] * 2 + (PATH1 if d == 1 else PATH2) * 2
            opts += STRUCT1 if d == 1 else STRUCT2
            if t == "B":
                opts += ["cmp", "lt", "lt", "cast"]
            else:
                opts += ["pick", "cast"]
            if t == "D":
                opts += ["half", "scale"]
            if t == "I":
                opts += ["trans"]
            if t == "L" and d == 1:
                opts += ["irangeof", "irange"] * 2
            kind = rng.choice(opts)
        if allow and kind not in allow:
            kind = "bin"
        if kind in SQ and d == 2 and not sh.sq:
            kind = "sub" if not force else kind
        if kind in ("seq", "eunit", "linsp", "tensor", "matvec", "ident") and t == "B":
            kind = "c1" if d == 1 else "c2"
        if kind == "linsp" and t not in FLTS:
            kind = "seq"
        if kind in ("irange", "irangeof") and (t != "L" or d != 1):
            kind = "excl" if d == 1 else "transp"
        if kind == "cmp" and t != "B" or kind == "lt" and t != "B":
            kind = "bin"
        if kind == "half" and t not in "DF" or kind == "scale" and t != "D" or kind == "trans" and t != "I" or kind == "pick" and t in "BU":
            kind = "un"
        self.kinds.add(kind)
        return getattr(self, "g_" + kind)(t, sh, depth, hint, allow)

    def sub(self, t, sh, depth, allow, hint="any"):
        return self.gen(t, sh, depth - 1 if self.rng.random() < .85 else 0, hint=hint, allow=allow)

    def g_leaf(self, t, sh, depth, hint, allow):
        return self.leaf(t, sh, hint)

    def g_un(self, t, sh, depth, hint, allow, op=None):
        rng = self.rng
        ops = ["id"]
        if t == "B":
            ops = ["lnot", "lnot", "id"]
        else:
            ops += ["pos", "abs", "sq1", "plusc"]
            if t in SIGNED + FLTS:
                ops += ["neg", "neg"]
            if t in SIGNED:
                ops += ["bnot"]
            if t in FLTS:
                ops += ["inv", "powi", "fpowi", "pow", "root"]
        op = op or self.one(("un", t, sh.d), ops)
        if op == "root":
            c = self.leaf(t, sh, "sq")
        elif op in ("inv", "powi", "fpowi", "pow"):
            c = self.leaf(t, sh, "div") if rng.random() < .8 else self.sub(t, sh, depth, allow)
        else:
            c = self.sub(t, sh, depth, allow)
        extra = lambda R: {}
        tm = dict(pos="+{0}", neg="-{0}", bnot="~{0}", lnot="!{0}", abs="abs({0})", inv="inv({0})", root="sqrt({0})",
                  id="spp::generate({0}, [](auto x) {{ return x; }})", sq1="spp::generate({0}, [](auto x) {{ return x * x - x; }})").get(op)
        if op in ("powi", "fpowi", "pow"):
            k = self.slot()
            tm = {"powi": "pow_int({0}, P[%d].num())", "fpowi": "fast_pow_int({0}, P[%d].num())", "pow": "pow({0}, Strict<%s>{{%s(P[%d].num())}})"}[op]
            tm = tm % k if op != "pow" else tm % (CT[t], CT[t], k)
            extra = lambda R: dict(p=R.put(k, R.rng.randint(-2, 4)))
        if op == "plusc":
            s, si = self.scalar(t)
            tm = "spp::generate({0}, [s = %s](auto x) {{ return x + s; }})" % s
            extra = lambda R: dict(p=si(R))
        return self.node("un", t, sh, tm, [c], lambda R: dict(f="un", op=op, t=t, a=[c.inst(R)], **extra(R)))

    def binop(self, t, d, how="bin"):
        if t == "B":
            return self.one((how, t, d), ["land", "lor", "lxor"])
        ops = ["add", "sub", "mul", "lin", "div"]
        if t in INTS:
            ops += ["mod", "shl", "shr", "and", "or", "xor"]
        if t in FLTS and how == "bin":
            ops += ["tp1", "tp2", "pp1", "pp2"]
        if how != "bin":
            ops.remove("lin")
        return self.one((how, t, d), ops)

    OPS = dict(add="{0} + {1}", sub="{0} - {1}", mul="{0} * {1}", div="{0} / {1}", mod="{0} % {1}", shl="{0} << {1}", shr="{0} >> {1}",
               land="{0} && {1}", lor="{0} || {1}", lxor="{0} ^ {1}", xor="{0} ^ {1}", lin="spp::generate({0}, {1}, [](auto x, auto y) {{ return x + x - y; }})",
               tp1="two_prod({0}, {1}).first", tp2="two_prod({0}, {1}).second", pp1="pow_prod({0}, {1}).first", pp2="pow_prod({0}, {1}).second")
    OPS["and"] = "{0} & {1}"
    OPS["or"] = "{0} | {1}"

    def g_bin(self, t, sh, depth, hint, allow, op=None):
        rng = self.rng
        op = op or self.binop(t, sh.d)
        h1 = "nn" if op in ("shl", "shr") else "any"
        h2 = dict(div="div", mod="div", shl="sh", shr="sh").get(op, "any")
        a = self.leaf(t, sh, h1) if h1 != "any" and rng.random() < .7 else self.sub(t, sh, depth, allow, h1)
        if op in ("pp1", "pp2"):
            b = self.leaf(rng.choice("IL"), sh, "sh")
        else:
            b = self.leaf(t, sh, h2) if h2 != "any" and rng.random() < .7 else self.sub(t, sh, depth, allow, h2)
        return self.node("bin", t, sh, self.OPS[op], [a, b], lambda R: dict(f="bin", op=op, t=t, a=[a.inst(R), b.inst(R)]))

    def g_self(self, t, sh, depth, hint, allow):
        """The same operand twice."""
        op = self.one(("self", t, sh.d), ["land", "lor", "lxor"] if t == "B" else ["add", "sub", "mul", "lin"])
        want, self.want = self.want, None
        if want:
            c = self.g_sel(t, sh, 1, hint, allow, kind=want) if sh.d == 1 else self.g_rows(t, sh, 1, hint, allow, which=self.rng.choice(["rows", "cols"]), kind=want)
        else:
            c = self.sub(t, sh, depth, allow)
        body = self.OPS[op].replace("{0}", "x").replace("{1}", "x")
        tm = "[&] {{ const auto& x = {0}; return %s; }}()" if c.owner else "[&] {{ auto x = {0}; return %s; }}()"

        def inst(R):
            a = c.inst(R)
            return dict(f="bin", op=op, t=t, a=[a, a])
        return self.node("self", t, sh, tm % body, [c], inst)

    def g_binS(self, t, sh, depth, hint, allow, left=False, op=None):
        op = op or self.binop(t, sh.d, "Sbin" if left else "binS")
        h1 = "nn" if op in ("shl", "shr") else "any"
        h2 = dict(div="div", mod="div", shl="sh", shr="sh").get(op, "any")
        if left:
            h1, h2 = h2, h1
        a = self.leaf(t, sh, h1) if h1 != "any" and self.rng.random() < .8 else self.sub(t, sh, depth, allow, h1)
        s, si = self.scalar(t, h2)
        tm = self.OPS[op].replace("{1}", s) if not left else self.OPS[op].replace("{0}", s).replace("{1}", "{0}")
        return self.node("binS", t, sh, tm, [a], lambda R: dict(f="Sbin" if left else "binS", op=op, t=t, s=si(R), a=[a.inst(R)]))

    def g_Sbin(self, t, sh, depth, hint, allow):
        return self.g_binS(t, sh, depth, hint, allow, left=True)

    def g_cast(self, t, sh, depth, hint, allow):
        u = self.one(("cast", t, sh.d), [x for x in "ILDB" if x != t])
        c = self.sub(u, sh, depth, allow)
        return self.node("cast", t, sh, "array_cast<%s>({0})" % CT[t], [c], lambda R: dict(f="un", op="cast", t=u, u=t, a=[c.inst(R)]))

    def g_cmp(self, t, sh, depth, hint, allow):
        u = self.rng.choice("ILD")
        c = self.sub(u, sh, depth, allow)
        return self.node("cmp", "B", sh, "spp::generate({0}, [](auto x) {{ return x < Zero<%s>; }})" % CT[u], [c], lambda R: dict(f="un", op="isneg", t=u, a=[c.inst(R)]))

    def g_lt(self, t, sh, depth, hint, allow):
        u = self.rng.choice("ILD")
        a, b = self.sub(u, sh, depth, allow), self.sub(u, sh, depth, allow)
        return self.node("lt", "B", sh, "spp::generate({0}, {1}, [](auto x, auto y) {{ return x < y; }})", [a, b], lambda R: dict(f="bin", op="lt", t=u, a=[a.inst(R), b.inst(R)]))

    def g_pick(self, t, sh, depth, hint, allow):
        a, b = self.sub("B", sh, depth, allow), self.sub(t, sh, depth, allow)
        return self.node("pick", t, sh, "spp::generate({0}, {1}, [](auto c, auto y) {{ return c ? y : -y; }})", [a, b], lambda R: dict(f="bin", op="pick", t=t, a=[a.inst(R), b.inst(R)]))

    def g_half(self, t, sh, depth, hint, allow):
        u = self.rng.choice("IL")
        c = self.sub(u, sh, depth, allow)
        return self.node("half", t, sh, "spp::generate({0}, [](auto x) {{ return strict_cast<%s>(x) / Strict<%s>{{%s(2)}}; }})" % (CT[t], CT[t], CT[t]), [c],
                         lambda R: dict(f="un", op="half", t=u, a=[c.inst(R)]))

    def g_scale(self, t, sh, depth, hint, allow):
        a, b = self.sub(self.rng.choice("IL"), sh, depth, allow), self.sub("D", sh, depth, allow)
        return self.node("scale", "D", sh, "spp::generate({0}, {1}, [](auto x, auto y) {{ return x.sd() * y; }})", [a, b], lambda R: dict(f="bin", op="scale", t="D", a=[a.inst(R), b.inst(R)]))

    def g_trans(self, t, sh, depth, hint, allow, op=None):
        op = op or self.one("trans", ["exp", "log", "log2", "log10", "sqrt", "cbrt", "sin", "cos", "tan"])
        c = self.leaf("D", sh, "123")
        return self.node("trans", "I", sh, "generate(%s({0}), [](auto x) {{ return strict_cast<int>(floors(x * Strict<double>{{1000.}})); }})" % op, [c],
                         lambda R: dict(f="un", op=op, t="D", a=[c.inst(R)]))

    # -------------------------------------------------------- paths
    def g_sel(self, t, sh, depth, hint, allow, kind=None):
        kind = kind or self.one("sel", SELK)
        cs = Sh(1, pinnable=kind == "list")
        c = self.sub(t, cs, depth, allow)
        k = self.slot()

        def inst(R):
            n = sh.val[0]
            if cs.pin:
                s = dict(sel="list", ix=[R.rng.randrange(cs.pin[0]) for _ in range(n)])
                b = cs.pin[0]
            else:
                b, s = invsel(R.rng, n, [kind])
            cs.set((b,))
            return dict(f="path", st=dict(st="sel", s=R.put(k, s)), a=[c.inst(R)])
        return self.node("sel", t, sh, "{0}(%s)" % sel_cpp(kind, k), [c], inst)

    def g_sub(self, t, sh, depth, hint, allow):
        kr, kc = self.one("subrows", SELK), self.one("subcols", SELK)
        cs = Sh(2)
        c = self.sub(t, cs, depth, allow)
        k1, k2 = self.slot(), self.slot()

        def inst(R):
            m, n = sh.val
            a, r = invsel(R.rng, m, [kr])
            b, s = invsel(R.rng, n, [kc])
            cs.set((a, b))
            return dict(f="path", st=dict(st="sub", r=R.put(k1, r), c=R.put(k2, s)), a=[c.inst(R)])
        return self.node("sub", t, sh, "{0}(%s, %s)" % (sel_cpp(kr, k1), sel_cpp(kc, k2)), [c], inst)

    def g_rows(self, t, sh, depth, hint, allow, which="rows", kind=None):
        kind = kind or self.one(which, SELK)
        cs = Sh(2)
        c = self.sub(t, cs, depth, allow)
        k = self.slot()

        def inst(R):
            m, n = sh.val
            b, s = invsel(R.rng, m if which == "rows" else n, [kind])
            cs.set((b, n) if which == "rows" else (m, b))
            return dict(f="path", st=dict(st=which, s=R.put(k, s)), a=[c.inst(R)])
        return self.node(which, t, sh, "{0}.%s(%s)" % (which, sel_cpp(kind, k)), [c], inst)

    def g_cols(self, t, sh, depth, hint, allow):
        return self.g_rows(t, sh, depth, hint, allow, "cols")

    def g_row(self, t, sh, depth, hint, allow, which="row"):
        cs = Sh(2)
        c = self.sub(t, cs, depth, allow)
        k, e = self.slot(), self.one(which, [0, 1])

        def inst(R):
            m = R.rng.randint(1, 4)
            cs.set((m, sh.val[0]) if which == "row" else (sh.val[0], m))
            return dict(f="path", st=dict(st=which, i=R.put(k, R.rng.randrange(m)), e=e), a=[c.inst(R)])
        return self.node(which, t, sh, "{0}.%s(%sP[%d].num())" % (which, "last - " if e else "", k), [c], inst)

    def g_col(self, t, sh, depth, hint, allow):
        return self.g_row(t, sh, depth, hint, allow, "col")

    def g_diag(self, t, sh, depth, hint, allow):
        cs = Sh(2)
        c = self.sub(t, cs, depth, allow)
        k = self.slot()
        zero = self.one("diag", [0, 1, 0]) == 1

        def inst(R):
            n = sh.val[0]
            off = 0 if zero else R.rng.randint(-2, 2)
            m = n + max(0, -off)
            w = n + max(0, off)
            if R.rng.random() < .5:
                if R.rng.random() < .5:
                    m += R.rng.randint(0, 2)
                else:
                    w += R.rng.randint(0, 2)
            cs.set((m, w))
            return dict(f="path", st=dict(st="diag0") if zero else dict(st="diag", i=R.put(k, off)), a=[c.inst(R)])
        return self.node("diag", t, sh, "{0}.diag(%s)" % ("" if zero else "P[%d].num()" % k), [c], inst)

    def g_view1(self, t, sh, depth, hint, allow):
        cs = Sh(2)
        c = self.sub(t, cs, depth, allow)

        def inst(R):
            n = sh.val[0]
            m = R.rng.choice([x for x in range(1, n + 1) if n % x == 0] or [0])
            cs.set((m, n // m if m else 0))
            return dict(f="path", st=dict(st="view1"), a=[c.inst(R)])
        return self.node("view1", t, sh, "{0}.view1D()", [c], inst)

    def g_view2(self, t, sh, depth, hint, allow):
        cs = Sh(1)
        c = self.sub(t, cs, depth, allow)
        k = self.slot()

        def inst(R):
            m, n = sh.val
            cs.set((m * n,))
            return dict(f="path", st=dict(st="view2", m=R.put(k, m, 0), n=R.put(k, n, 1)), a=[c.inst(R)])
        return self.node("view2", t, sh, "{0}.view2D(P[%d][0].num(), P[%d][1].num())" % (k, k), [c], inst)

    def g_block(self, t, sh, depth, hint, allow):
        cs = Sh(2)
        c = self.sub(t, cs, depth, allow)
        k = self.slot()
        cnt = self.one("block", [0, 1]) == 1

        def inst(R):
            m, n = sh.val
            i, j = R.rng.randint(0, 2), R.rng.randint(0, 2)
            cs.set((i + m + R.rng.randint(0, 1), j + n + R.rng.randint(0, 1)))
            q = [i, j, m if cnt else i + m - 1, n if cnt else j + n - 1]
            s = [R.put(k, x, z) for z, x in enumerate(q)]
            st = dict(st="blockN", i=s[0], j=s[1], nr=s[2], nc=s[3], e=0) if cnt else dict(st="block", i=s[0], j=s[1], i2=s[2], j2=s[3], e=0)
            return dict(f="path", st=st, a=[c.inst(R)])
        a = ", ".join("P[%d][%d].num()" % (k, z) for z in range(4))
        return self.node("block", t, sh, "{0}.%s(%s)" % ("blockN" if cnt else "block", a), [c], inst)

    # -------------------------------------------------------- structural, 1D
    def g_merge(self, t, sh, depth, hint, allow):
        num = self.one("merge", [2, 2, 3, 4])
        cs = [Sh(1) for _ in range(num)]
        ks = [self.sub(t, s, depth, allow) for s in cs]

        def inst(R):
            n = sh.val[0]
            cuts = sorted(R.rng.randint(0, n) for _ in range(num - 1))
            for s, a, b in zip(cs, [0] + cuts, cuts + [n]):
                s.set((b - a,))
            return dict(f="merge", a=[k.inst(R) for k in ks])
        return self.node("merge", t, sh, "merge(" + ", ".join("{%d}" % q for q in range(num)) + ")", ks, inst)

    def g_mergeS(self, t, sh, depth, hint, allow):
        front, num = self.one("mergeS", [(f, n) for f in (0, 1) for n in (1, 2, 3)])
        cs = Sh(1)
        c = self.sub(t, cs, depth, allow)
        sc = [self.scalar(t) for _ in range(num)]
        txt = ", ".join(s for s, _ in sc)

        def inst(R):
            cs.set((sh.val[0] - num,))
            ss = [dict(f="sc", s=si(R)) for _, si in sc]
            return dict(f="merge", a=ss + [c.inst(R)] if front else [c.inst(R)] + ss)
        return self.node("mergeS", t, sh, "merge(%s, {0})" % txt if front else "merge({0}, %s)" % txt, [c], inst)

    def g_excl(self, t, sh, depth, hint, allow):
        form = self.one("excl", ["pc", "pc", "p", "named", "last"])
        cs = Sh(1)
        c = self.sub(t, cs, depth, allow)
        k = self.slot()

        def inst(R):
            n = sh.val[0]
            cnt = R.rng.randint(1, 3) if form in ("pc", "named") else 1
            cs.set((n + cnt,))
            pos = R.rng.randint(0, n)
            return dict(f="excl", pos=R.put(k, pos, 0), c=R.put(k, cnt, 1) if form in ("pc", "named") else 1, e=int(form == "last"), a=[c.inst(R)])
        p, q = "P[%d][0].num()" % k, "P[%d][1].num()" % k
        tm = dict(pc="exclude({0}, %s, %s)" % (p, q), p="exclude({0}, %s)" % p, named="exclude({0}, Pos{{%s}}, Count{{%s}})" % (p, q), last="exclude({0}, last - %s)" % p)[form]
        return self.node("excl", t, sh, tm, [c], inst)

    def g_rowred(self, t, sh, depth, hint, allow, which="rowred"):
        ops = ["first"] if t == "B" else ["sum", "max", "first", "norm", "lastm"]
        if t == "L":
            ops += ["len"]
        op = self.one(which, ops)
        cs = Sh(2)
        u = self.rng.choice("ID") if op == "len" else t
        c = self.sub(u, cs, depth, allow)
        f = dict(sum="sum(x)", max="max(x)", first="x[0]", norm="dot_prod(x, x)", lastm="x[last] - x[0]", len="x.size()")[op]

        def inst(R):
            n, k = sh.val[0], R.rng.randint(1, 3)
            cs.set((n, k) if which == "rowred" else (k, n))
            return dict(f=which, op=op, t=t, a=[c.inst(R)])
        return self.node(which, t, sh, "%s_reduce({0}, [](auto x) {{ return %s; }})" % (which[:3], f), [c], inst)

    def g_colred(self, t, sh, depth, hint, allow):
        return self.g_rowred(t, sh, depth, hint, allow, "colred")

    def g_matvec(self, t, sh, depth, hint, allow):
        cs, xs = Sh(2), Sh(1)
        a, b = self.sub(t, cs, depth, allow), self.sub(t, xs, depth, allow)

        def inst(R):
            n, k = sh.val[0], R.rng.randint(1, 3)
            cs.set((n, k))
            xs.set((k if n else 0,))
            return dict(f="matvec", t=t, a=[a.inst(R), b.inst(R)])
        return self.node("matvec", t, sh, "matvec_prod({0}, {1})", [a, b], inst)

    def g_seq(self, t, sh, depth, hint, allow):
        form = self.one(("seq", t), ["n", "ns", "nsh", "named"])
        k = self.slot()
        s, si = self.scalar(t)
        h, hi = self.scalar(t)
        one = 4 if t in FLTS else 1
        n = "P[%d].num()" % k
        C = CT[t]
        tm = dict(n="sequence<%s>(%s)" % (C, n), ns="sequence<%s>(%s, %s)" % (C, n, s), nsh="sequence<%s>(%s, %s, %s)" % (C, n, s, h),
                  named="sequence<%s>(Size{{%s}}, Start{{%s}}, Incr{{%s}})" % (C, n, s, h))[form]
        return self.node("seq", t, sh, tm, [], lambda R: dict(f="seq", t=t, n=R.put(k, sh.val[0]), s=si(R) if form != "n" else 0, h=hi(R) if form in ("nsh", "named") else one))

    def g_linsp(self, t, sh, depth, hint, allow):
        k = self.slot()
        s, si = self.scalar(t)
        k2 = self.slot()
        self.scalars.add(k2)
        z = "SS<%s>(P[%d])" % (CT[t], k2)
        C = CT[t]
        n = "P[%d].num()" % k
        tm = "linspace<%s>(%s, %s, %s)" % (C, n, s, z) if self.one(("linsp", t), [0, 1]) else "linspace<%s>(Size{{%s}}, Start{{%s}}, End{{%s}})" % (C, n, s, z)

        def inst(R):
            a = R.value(t, "any")
            n = sh.val[0]
            ks = int(re.search(r"P\[(\d+)\]", s).group(1))
            return dict(f="linsp", t=t, n=R.put(k, n), s=R.put(ks, a), z=R.put(k2, a + max(0, n - 1) * R.rng.randint(-6, 6)))
        return self.node("linsp", t, sh, tm, [], inst)

    def g_irange(self, t, sh, depth, hint, allow):
        k = self.slot()
        return self.node("irange", "L", sh, "irange(P[%d].num())" % k, [], lambda R: dict(f="irange", n=R.put(k, sh.val[0])))

    def g_irangeof(self, t, sh, depth, hint, allow):
        f = self.one("irange", ["irangeof", "irm1", "irrow", "irrowm1", "ircol", "ircolm1"])
        two = f.startswith("irr") or f.startswith("irc")
        cs = Sh(2 if two else 1)
        c = self.sub(self.rng.choice("IDB"), cs, depth, allow)

        def inst(R):
            n = sh.val[0] + (1 if f.endswith("m1") else 0)
            k = R.rng.randint(1, 3)
            cs.set((n,) if not two else (n, k) if "row" in f else (k, n))
            return dict(f=f, a=[c.inst(R)])
        fn = dict(irangeof="irange", irm1="irange_m1", irrow="irange_row", irrowm1="irange_row_m1", ircol="irange_col", ircolm1="irange_col_m1")[f]
        return self.node("irangeof", "L", sh, fn + "({0})", [c], inst)

    def g_eunit(self, t, sh, depth, hint, allow):
        k = self.slot()
        i, n = "P[%d][0].num()" % k, "P[%d][1].num()" % k
        tm = "e_unit<%s>(%s, %s)" % (CT[t], i, n) if self.one("eunit", [0, 1]) else "e_unit<%s>(Index{{%s}}, Size{{%s}})" % (CT[t], i, n)
        return self.node("eunit", t, sh, tm, [], lambda R: dict(f="eunit", t=t, i=R.put(k, R.rng.randrange(max(1, sh.val[0])), 0), n=R.put(k, sh.val[0], 1)))

    def g_c1(self, t, sh, depth, hint, allow):
        k = self.slot()
        s, si = self.scalar(t)
        tm = "const1D<%s>(P[%d].num(), %s)" % (CT[t], k, s) if t == "B" or self.one("c1", [0, 1]) else "const1D(Size{{P[%d].num()}}, Value{{%s}})" % (k, s)
        return self.node("c1", t, sh, tm, [], lambda R: dict(f="c1", n=R.put(k, sh.val[0]), s=si(R)))

    # -------------------------------------------------------- structural, 2D
    def g_mergeh(self, t, sh, depth, hint, allow, which="mergeh"):
        num = self.one(which, [2, 2, 3])
        cs = [Sh(2) for _ in range(num)]
        ks = [self.sub(t, s, depth, allow) for s in cs]

        def inst(R):
            m, n = sh.val
            k = n if which == "mergeh" else m
            cuts = sorted(R.rng.randint(0, k) for _ in range(num - 1))
            for s, a, b in zip(cs, [0] + cuts, cuts + [k]):
                s.set((m, b - a) if which == "mergeh" else (b - a, n))
            return dict(f=which, a=[k.inst(R) for k in ks])
        return self.node(which, t, sh, ("merge_horizontal(" if which == "mergeh" else "merge_vertical(") + ", ".join("{%d}" % q for q in range(num)) + ")", ks, inst)

    def g_mergev(self, t, sh, depth, hint, allow):
        return self.g_mergeh(t, sh, depth, hint, allow, "mergev")

    def g_transp(self, t, sh, depth, hint, allow):
        cs = Sh(2, sq=sh.sq)
        c = self.sub(t, cs, depth, allow)

        def inst(R):
            cs.set(sh.val[::-1])
            return dict(f="transp", a=[c.inst(R)])
        return self.node("transp", t, sh, "transpose({0})", [c], inst)

    def g_rowbc(self, t, sh, depth, hint, allow, which="rowbc"):
        cs = Sh(1)
        c = self.sub(t, cs, depth, allow)

        def inst(R):
            cs.set((sh.val[0],))
            return dict(f=which, a=[c.inst(R)])
        return self.node(which, t, sh, which[:3] + "_broadcast({0})", [c], inst)

    def g_colbc(self, t, sh, depth, hint, allow):
        return self.g_rowbc(t, sh, depth, hint, allow, "colbc")

    def g_tensor(self, t, sh, depth, hint, allow):
        s1, s2 = Sh(1), Sh(1)
        a, b = self.sub(t, s1, depth, allow), self.sub(t, s2, depth, allow)

        def inst(R):
            s1.set((sh.val[0],))
            s2.set((sh.val[1],))
            return dict(f="tensor", t=t, a=[a.inst(R), b.inst(R)])
        return self.node("tensor", t, sh, "tensor_prod({0}, {1})", [a, b], inst)

    def g_ident(self, t, sh, depth, hint, allow):
        k = self.slot()
        return self.node("ident", t, sh, "identity<%s>(P[%d].num())" % (CT[t], k), [], lambda R: dict(f="ident", t=t, n=R.put(k, sh.val[0])))

    def g_c2(self, t, sh, depth, hint, allow):
        k = self.slot()
        s, si = self.scalar(t)
        m, n = "P[%d][0].num()" % k, "P[%d][1].num()" % k
        tm = "const2D<%s>(%s, %s, %s)" % (CT[t], m, n, s) if t == "B" or self.one("c2", [0, 1]) else "const2D(Rows{{%s}}, Cols{{%s}}, Value{{%s}})" % (m, n, s)
        return self.node("c2", t, sh, tm, [], lambda R: dict(f="c2", m=R.put(k, sh.val[0], 0), n=R.put(k, sh.val[1], 1), s=si(R)))

    # -------------------------------------------------------- C++ text
    def decls(self):
        out = []
        for i, v in enumerate(self.vars):
            T, d = CT[v["t"]], v["sh"].d
            if v["kind"] == "fixed":
                out.append("FixedArray%dD<%s, %s> v%d; fill(v%d, V[%d]);" % (d, T, ", ".join(map(str, v["sh"].pin)), i, i, i))
            elif v["kind"] == "own":
                out.append("auto v%d = load%d<%s>(V[%d]);" % (i, d, T, i))
            else:
                out.append("auto m%d = load%d<%s>(V[%d]);" % (i, d, T, i))
                if v["kind"] == "const":
                    out.append("const auto& v%d = m%d;" % (i, i))
                else:
                    dim = "m%d.size().val()" % i if d == 1 else "m%d.rows().val(), m%d.cols().val()" % (i, i)
                    out.append("%s%s* q%d = m%d.size() > 0_sl ? m%d.blas_data() : nullptr; auto v%d = attach%dD(q%d, %s);" % (
                        "const " if v["kind"] == "cattach" else "", T, i, i, i, i, d, i, dim))
        return " ".join(out)

    def target(self, i):
        return ("v%d" if self.vars[i]["kind"] in ("own", "fixed") else "m%d") % i

    def source(self):
        fill = " ".join("fill(%s, D[%d]);" % (self.target(i), i) for i in range(len(self.vars)))
        same = " ".join("ok = ok && holds(%s, D[%d]);" % (self.target(i), i) for i in range(len(self.vars)))
        return """static std::string prog%d(const J& c) {
   const J& V = c["v"]; const J& W = c["w"]; const J& P = c["p"]; (void)P; (void)V; (void)W;
   %s
   return look(c, [&] { return %s; },
      [&](const J& D) { (void)D; %s }, [&](const J& D) { (void)D; bool ok = true; %s return ok; });
}
""" % (self.num, self.decls(), self.root.cpp, fill, same)

    def run(self, rng):
        return Run(self, rng)


class Run:
    """One parameterisation of a program."""
    def __init__(self, prog, rng, sizes=None):
        self.prog, self.rng = prog, rng
        self.p = [[] for _ in range(prog.slots)]
        sh = prog.root.sh
        if sh.d == 1:
            sh.set((rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7]),))
        elif sh.sq:
            sh.set((rng.choice([0, 1, 2, 2, 3]),) * 2)
        else:
            sh.set((rng.randint(1, 3), rng.randint(1, 4)) if rng.random() < .93 else (0, 0))
        self.wild = rng.random() < .06
        ast = prog.root.inst(self)
        self.finish(ast)
        self.v, self.w = [], []
        broken = rng.randrange(len(prog.vars)) if prog.vars and rng.random() < .09 else -1
        for i, x in enumerate(prog.vars):
            val = x["sh"].val
            if i == broken and x["kind"] != "fixed":
                other = [(a, val[0] * val[1] // a) for a in range(1, val[0] * val[1] + 1) if val[0] * val[1] % a == 0 and a != val[0]] if len(val) == 2 else []
                val = rng.choice(other) if other and rng.random() < .5 else tuple(max(0, q + rng.choice([-1, 0, 1, 2])) for q in val)
                if len(val) == 2 and 0 in val:
                    val = (0, 0)
            n = val[0] if len(val) == 1 else val[0] * val[1]
            mk = lambda: dict(d=len(val), m=val[0] if len(val) == 2 else 0, n=val[-1], x=[self.value(x["t"], x["hint"]) for _ in range(n)])
            self.v.append(mk())
            self.w.append(mk())
        if self.p and rng.random() < .09:
            self.mutate(rng.randrange(len(self.p)))
        self.ast = self.resolve(ast)
        if hasattr(self, "q"):
            self.q = self.resolve(self.q)

    def finish(self, ast):
        pass

    def value(self, t, hint):
        r = self.rng
        f = 4 if t in FLTS else 1
        if t == "B":
            return r.randint(0, 1)
        if hint == "123":
            return f * r.randint(1, 3)
        if hint == "0123":
            return f * r.choice([0, 0, 0, 4, -1, 1, 2, 3]) if t in SIGNED + FLTS else 0
        if hint == "tiny":
            return r.choice([4, 4, -4, 8, 2, -8]) if t in FLTS else r.choice([1, 1, 2, 3] + [-1, -2] * (t != "U"))
        if hint == "small":
            return r.choice([0, 4, 4, -4, 8, 2, -8]) if t in FLTS else r.choice([0, 1, 1, 2, 3] + [-1, -2] * (t != "U"))
        if hint == "pw":
            return r.randint(0, 3) if not self.wild else r.randint(-1, 3)
        if hint == "sq":
            return r.choice([0, 1, 4, 9, 16, 25, 36])
        if hint == "div":
            if t in FLTS:
                return r.choice([4, 8, 2, -4, -8, 16, 1])
            x = r.choice([1, 2, 3, 4] + ([-1, -2, -3] if t != "U" else []) + ([0] if self.wild else []))
            return x
        if hint == "sh":
            return r.randint(0, 4) if not self.wild or r.random() < .8 else (-1 if t in "IL" else 0)
        if hint == "nn" or t == "U":
            return r.randint(0, 9)
        return r.randint(-24, 24) if t in FLTS else r.randint(-6, 6)

    def put(self, k, val, z=None):
        if z is None:
            if isinstance(self.p[k], list):
                self.p[k] = val
            return Slot((k, None))
        if not isinstance(self.p[k], list):
            self.p[k] = [self.p[k]]
        q = z
        while len(self.p[k]) <= q:
            self.p[k].append(0)
        self.p[k][q] = val
        return Slot((k, q))

    def mutate(self, k):
        r, x = self.rng, self.p[k]
        if k in self.prog.scalars:
            return
        if isinstance(x, int):
            self.p[k] = r.choice([x + 1, x - 1, -1, x + 3])
        elif isinstance(x, list) and x:
            x[r.randrange(len(x))] += r.choice([-1, 1, 2, -2])
        elif isinstance(x, dict):
            ks = [q for q in x if q != "sel"]
            if ks:
                q = r.choice(ks)
                if isinstance(x[q], int):
                    x[q] += r.choice([-1, 1, 2, -2])
                else:
                    x[q].insert(r.randint(0, len(x[q])), r.randint(-1, 8))

    def resolve(self, a):
        if isinstance(a, Slot):
            k, q = a.k
            return self.p[k] if q is None else self.p[k][q]
        if isinstance(a, dict):
            return {k: self.resolve(v) for k, v in a.items()}
        if isinstance(a, list):
            return [self.resolve(v) for v in a]
        return a


# ------------------------------------------------------------------ building and judging
STRUCTURAL = set(STRUCT1 + STRUCT2)
EXPRFLAGS = ["-O0", "cxx=clang++", "-fno-sanitize-recover=all"]


def text(progs):
    out = ['#include "exprs.hpp"\n']
    out += [p.source() for p in progs]
    out.append("int main() {\n   return command_loop([](const J&) {}, [](const J& c) -> std::string {\n      switch(c.num(\"id\")) {\n")
    out += ["      case %d: return prog%d(c);\n" % (p.num, p.num) for p in progs]
    out.append("      }\n      throw std::runtime_error(\"driver: no such program\");\n   }, [] { return seen; });\n}\n")
    return "".join(out)


def expr_judge(v, obs):
    r = v["r"]
    o, t = obs["o"], obs["t"]
    if r[0]["k"] == "err":
        return o["k"] == "err"
    if o["k"] != "ok" or not same_shape(r[0], o["v"]) or len(t) != 2:
        return False
    for want, got in zip(r[1:], t):
        if want["k"] == "err":
            if got != "err":
                return False
        elif got != want["x"]:
            return False
    return True


def same_shape(r, v):
    if isinstance(v, str) or v[0] != r["d"]:
        return False
    if r["d"] == 1:
        return v[2] == r["n"]
    if not r["x"] and (r["m"] == 0 or r["n"] == 0):
        return v[1] * v[2] == 0
    return v[1:] == [r["m"], r["n"]]


def kinds_for(d, t):
    """Node kinds that can be the root of a tree of this dimension and type."""
    ks = ["un", "bin", "self", "binS", "Sbin", "cast"] + (PATH1 if d == 1 else PATH2)
    ks += ["half"] * (t in FLTS) + ["scale"] * (t == "D") + ["trans"] * (t == "I") + ["pick"] * (t not in "BU") + ["cmp", "lt"] * (t == "B")
    st = [k for k in (STRUCT1 if d == 1 else STRUCT2)]
    if t == "B":
        st = [k for k in st if k not in ("seq", "eunit", "linsp", "tensor", "matvec", "ident")]
    if t not in FLTS:
        st = [k for k in st if k != "linsp"]
    if t != "L":
        st = [k for k in st if k not in ("irange", "irangeof")]
    return ks, st


def make(ctx, count, structural, depth):
    """count programs; every admissible root kind appears, then random trees."""
    rng = ctx.rng
    Prog.used = {}
    roots = []
    for d in (1, 2):
        for t in "IDLBUF":
            el, st = kinds_for(d, t)
            roots += [(d, t, k) for k in (st if structural else el)]
    rng.shuffle(roots)
    # every kind at least once, whatever the number of programs
    first, seen = [], set()
    for r in roots:
        if (r[0], r[2]) not in seen:
            seen.add((r[0], r[2]))
            first.append(r)
    roots = first + [r for r in roots if r not in first]
    if not structural:
        roots = [(d, rng.choice("IDL"), "self:" + k) for d in (1, 2) for k in SELK] + roots
    out = []
    allow = None if structural else set(ELEM + PATH1 + PATH2)
    while len(out) < count:
        d, t, k = roots[len(out)] if len(out) < len(roots) else rng.choice(roots)
        p = Prog(rng, len(out))
        if k.startswith("self:"):
            k, p.want = k.split(":")
        sh = Sh(d, sq=d == 2 and k in SQ, pinnable=False)
        p.root = p.gen(t, sh, depth if rng.random() < .7 else 1, force=k, allow=allow)
        if p.root.owner or p.root.f == "leaf" or len(p.root.cpp) > 1500:
            continue
        out.append(p)
    return out


def execute(ctx, progs, runs, oper, enc, judge, cmd, per=25):
    """Compiles the programs, runs each with several parameterisations, and compares with TLC."""
    files = [progs[i:i + per] for i in range(0, len(progs), per)]
    jobs = {}
    for i, ps in enumerate(files):
        src = ctx.path("exprs%d.cpp" % i)
        open(src, "w").write(text(ps))
        jobs["exprs-%d" % i] = (src, [], EXPRFLAGS)
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, ctx, jobs)
        ins = [(p.num, p.run(ctx.rng)) for p in progs for _ in range(runs)]
        res = evaluate(ctx, "Expr", oper, [enc(r) for _, r in ins], timeout=ctx.left())
        bins = fb.result()
    first = lambda r: r[0] if isinstance(r, list) else r
    rest = lambda r: r[1:] if isinstance(r, list) else [r]
    nskip = sum(1 for r in res if first(r)["k"] == "skip" or any(x["k"] == "skip" for x in rest(r)))
    nerr = sum(1 for r in res if first(r)["k"] == "err" or any(x["k"] == "err" for x in rest(r)))
    ctx.log("%d programs, %d runs, %d rejected, %d undetermined" % (len(progs), len(ins), nerr, nskip))
    ctx.count("programs", len(progs))
    ctx.count("runs_expected_to_be_rejected", nerr)
    ctx.count("runs_not_determined_by_the_specification", nskip)
    for p in progs:
        for k in p.kinds | set(p.forms):
            ctx.op(k)
        if hasattr(p, "fin"):
            ctx.op("query " + p.fin)
    vec = [dict(c=dict(cmd(r), id=n), r=x, o=first(x), t=rest(x)) for (n, r), x in zip(ins, res)
           if first(x)["k"] != "skip" and all(y["k"] != "skip" for y in rest(x))]  # undetermined runs may overflow: not executed
    for i, ps in enumerate(files):
        name = "exprs-%d" % i
        if name not in bins:
            continue
        nums = {p.num for p in ps}
        use = [v for v in vec if v["c"]["id"] in nums]
        bad = replay(ctx, bins[name], use, name, judge=judge)
        ctx.count("traces_validated_against_impl", len(use) - bad)
    by = {p.num: p for p in progs}
    for s, rec in ctx.viol:
        if rec.get("kind") == "transition":
            n = json.loads(rec["input"])["c"]["id"]
            rec["program"] = by[n].source()
    for p in progs[:: max(1, len(progs) // 6)]:
        ctx.sample(dict(program=p.root.cpp + getattr(p, "body", "")))


def expressions(ctx, structural):
    q = ctx.quick
    execute(ctx, make(ctx, 280 if q else 1200, structural, 3), 40 if q else 150, "Program",
            lambda r: dict(e=r.ast, v=r.v, w=r.w), expr_judge, lambda r: dict(p=r.p, v=r.v, w=r.w))


# ------------------------------------------------------------------ queries
FIN_ANY = ["all", "any", "none", "all2", "any2", "none2", "equal", "visit"]
FIN_REAL = ["sum", "prod", "min", "max", "minix", "maxix", "dot", "blas"]
FIN_FLT = ["mean", "norminf", "norm1", "norm1s", "norm2", "norm2s", "normlp", "normlps", "fin", "inf", "nan"]
FIN_1D = ["poly", "oprange", "clrange", "cdrange"]
FIN_1F = ["polyp", "gpoly"]


class AskProg(Prog):
    def query(self, fin, t, sh, depth, structural=True):
        rng = self.rng
        allow = None if structural else set(ELEM + PATH1 + PATH2)
        hint = {"prod": "tiny", "fin": "0123", "inf": "0123", "nan": "0123", "normlp": "tiny", "normlps": "tiny"}.get(fin, "any")
        if hint != "any":
            depth = min(depth, 1) if hint == "tiny" else 0
        if rng.random() < .2:
            depth = 0
        self.root = self.gen(t, sh, depth, hint=hint, allow=allow)
        if fin in ("fin", "inf", "nan") and self.root.f != "leaf":
            return False
        C = CT[t]
        self.fin, self.ft = fin, t
        x = "r"
        dk = None
        q = dict(fin=fin, t=t)
        second = third = None
        ps = []

        def par(name, hint="any", ty=None):
            k = self.slot()
            self.scalars.add(k)
            ps.append((name, k, ty or t, hint))
            return "SS<%s>(P[%d])" % (CT[ty or t], k)

        d = ""
        if fin in FIN_REAL + FIN_FLT + FIN_1F + ["poly"] and fin not in ("blas", "minix", "maxix", "fin", "inf", "nan") and self.one(("default", fin, sh.d), [0, 1]):
            d = ", " + par("def")
        elif fin in ("fin", "inf", "nan") + tuple(FIN_ANY[:6]) and self.one(("default", fin, sh.d), [0, 1]):
            d = ", " + par("def", ty="B")
        if fin in ("sum", "prod", "mean", "min", "max"):
            body = "one(%s(r%s))" % (fin, d)
        elif fin in ("norminf", "norm1"):
            body = "one(%s(r%s))" % (dict(norminf="norm_inf", norm1="norm1")[fin], d)
        elif fin == "norm1s":
            body = "one(norm1_scaled(r%s))" % d
        elif fin in ("norm2", "norm2s"):
            body = "near1(%s(r%s))" % (dict(norm2="norm2", norm2s="norm2_scaled")[fin], d)
        elif fin in ("normlp", "normlps"):
            k = self.slot()
            ps.append(("p", k, "p", None))
            body = "near1(%s(r, P[%d].num()%s))" % (dict(normlp="norm_lp", normlps="norm_lp_scaled")[fin], k, d)
        elif fin in ("minix", "maxix"):
            dd = ""
            if self.one(("default", fin, sh.d), [0, 1]):
                self.own_default = True
                dd = ", {-5_sl, %s}" % par("dv") if sh.d == 1 else ", {-5_sl, -7_sl, %s}" % par("dv")
            body = "::place(%s(r%s))" % (dict(minix="min_index", maxix="max_index")[fin], dd)
        elif fin in ("dot", "all2", "any2", "none2", "equal"):
            second = self.gen(t, sh if rng.random() < .9 else sh, min(depth, 1), allow=allow)
            y = second.cpp if second.owner else "(" + second.cpp + ")"
            if fin == "dot":
                body = "one(dot_prod(r, %s%s))" % (y, d)
            elif fin == "equal":
                body = self.one(("equal", sh.d), ["one(spp::equal(r, %s))", "one(r == %s)", "one(!(r != %s))"]) % y
            else:
                op = "x < y" if t != "B" else "!x && y"
                body = "one(spp::%s(r, %s, [](auto x, auto y) { return %s; }%s))" % (fin[:-1] + "_of", y, op, d)
        elif fin == "poly":
            s = par("s", "small")
            body = "one(polynomial(r, %s%s))" % (s, d)
        elif fin == "polyp":
            second = self.gen("L" if rng.random() < .5 else "I", sh, 0, hint="pw")
            body = "one(polynomial(r, %s, %s%s))" % (par("s", "small"), second.cpp, d)
        elif fin == "gpoly":
            second = self.gen(t, sh, 0, hint="small")
            third = self.gen("I", sh, 0, hint="pw")
            body = "one(gpolynomial(r, %s, %s%s))" % (second.cpp, third.cpp, d)
        elif fin in ("all", "any", "none"):
            fn = fin + "_of"
            real = t != "B"
            forms = ["value", "Value", "lambda"]
            if real and fin == "all":
                forms += ["all_zeros", "all_pos", "all_neg", "all_non_pos", "all_non_neg"] * 2
            if real and fin == "any":
                forms += ["has_zero"] * 2
            if not real:
                forms = ["value"]
            form = self.one((fin, real, sh.d), forms)
            if form == "value":
                q["q"] = "eq"
                body = "one(%s(r, %s%s))" % (fn, par("s", "small"), d)
            elif form == "Value":
                q["q"] = "eq"
                body = "one(%s(r, Value{%s}%s))" % (fn, par("s", "small"), d)
            elif form == "lambda":
                q["q"] = "gt"
                body = "one(%s(r, [s = %s](auto x) { return x > s; }%s))" % (fn, par("s"), d)
            else:
                q["q"] = dict(all_zeros="zero", all_pos="pos", all_neg="neg", all_non_pos="nonpos", all_non_neg="nonneg", has_zero="zero")[form]
                body = "one(%s(r%s))" % (form, d)
        elif fin in ("fin", "inf", "nan"):
            q.update(fin="all" if fin == "fin" else "any", q=fin)
            body = "one(%s(unusual(r)%s))" % (dict(fin="all_finite", inf="has_inf", nan="has_nan")[fin], d)
        elif fin == "visit":
            body = "[&] { std::string s; for_each(r, [&s](auto x) { s += (s.empty() ? \"\" : \",\") + show(x); }); return \"[\" + s + \"]\"; }()"
        elif fin == "blas":
            body = "[&] { auto p = blas_array(r); return raw(p.get(), r.size().val()); }()"
        else:
            inline = not self.root.owner and rng.random() < .5
            e = "(" + self.root.cpp + ")" if inline else "r"
            if fin == "cdrange":
                body = "elements(in_cond_range(%s, [](auto x) { return x > One<%s> || x < -Strict<%s>{%s(2)}; }))" % (e, C, C, C)
                if t == "U":
                    return False
            else:
                fn = dict(oprange="in_open_range", clrange="in_closed_range")[fin]
                a, b = par("s"), par("z")
                body = "elements(%s(%s, %s, %s))" % (fn, e, a, b) if self.one(fn, [0, 1, 0]) == 0 else "elements(%s(%s, Low{%s}, High{%s}))" % (fn, e, a, b)
        self.body, self.q, self.ps, self.second, self.third, self.hasdef = body, q, ps, second, third, bool(d)
        return True

    def source(self):
        return """static std::string prog%d(const J& c) {
   const J& V = c["v"]; const J& P = c["p"]; (void)P; (void)V;
   %s
   return ask([&] { auto&& r = %s; return %s; });
}
""" % (self.num, self.decls(), self.root.cpp if self.root.owner else "(" + self.root.cpp + ")", self.body)

    def run(self, rng):
        return AskRun(self, rng)


class AskRun(Run):
    def finish(self, ast):
        P, r = self.prog, self.rng
        q = dict(P.q)
        q["def"] = dict(fin=1).get(P.q.get("q"), 0)
        dv = 0
        for name, k, t, hint in P.ps:
            if name == "p":
                v = r.choice([1, 2, 2, 3, 3, 4, 0 if r.random() < .3 else 1, -1 if r.random() < .3 else 2])
            else:
                v = self.value(t, hint)
            self.p[k] = v
            if name == "dv":
                dv = v
            else:
                q[name] = v if name in ("s", "z") else Slot((k, None))
        if P.fin in ("oprange", "clrange") and q["s"] > q["z"] and r.random() < .8:
            ks = {n: k for n, k, _, _ in P.ps}
            q["s"], q["z"] = q["z"], q["s"]
            self.p[ks["s"]], self.p[ks["z"]] = q["s"], q["z"]
        if P.fin in ("minix", "maxix"):
            own = getattr(P, "own_default", False)
            q["defs"] = ([-5] if P.root.sh.d == 1 else [-5, -7]) + [dv] if own else ([-1] if P.root.sh.d == 1 else [-1, -1]) + [0]
        if P.second:
            q["b"] = P.second.inst(self)
        if P.third:
            q["c"] = P.third.inst(self)
        self.q = q


def asks(ctx, count):
    rng = ctx.rng
    Prog.used = {}
    combos = []
    for d in (1, 2):
        for t in "DIFLUB":
            fs = list(FIN_ANY)
            if t != "B":
                fs += FIN_REAL + (FIN_1D if d == 1 else [])
            if t in FLTS:
                fs += FIN_FLT + (FIN_1F if d == 1 else [])
            combos += [(d, t, f) for f in fs]
    rng.shuffle(combos)
    out = []
    while len(out) < count:
        d, t, f = combos[len(out) % len(combos)]
        p = AskProg(rng, len(out))
        if not p.query(f, t, Sh(d, pinnable=True), rng.choice([0, 1, 1, 2, 3])) or len(p.root.cpp) > 1200:
            if t == "U" and f == "cdrange":
                combos.remove((d, t, f))
            continue
        out.append(p)
    return out


def ask_judge(v, obs):
    r = v["r"]
    if r["k"] == "err":
        return obs["o"]["k"] == "err"
    return obs["o"] == r


def c11(ctx):
    q = ctx.quick
    execute(ctx, asks(ctx, 240 if q else 1500), 60 if q else 250, "Ask",
            lambda r: dict(e=r.ast, q=r.q, v=r.v), ask_judge, lambda r: dict(p=r.p, v=r.v))


def c08(ctx):
    expressions(ctx, False)


def c09(ctx):
    expressions(ctx, True)
    grid(ctx)


CHECKS = dict(C08=c08, C09=c09, C11=c11)
