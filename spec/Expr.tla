------------------------------- MODULE Expr -------------------------------
(* Lazy expressions: what an expression tree denotes.  A tree is a JSON     *)
(* record; env is the sequence of the operands' contents.  Nothing here     *)
(* says how an expression is stored or when it computes.                    *)
(*                                                                          *)
(* Floating values are exact multiples of 1/4, written as the integer 4x.   *)
(* Two values are special: No means "outside what this specification        *)
(* determines" (not a multiple of 1/4, or too large) and Bad0 means "asking *)
(* for this element is an error".                                           *)
EXTENDS Paths

Q == 4
No == 2000000001
Bad0 == 2000000002
Lim == 30000
Sc(t) == IF t \in {"D", "F"} THEN Q ELSE 1
Norm(t, v) == IF v > Lim \/ v < -Lim \/ (t = "U" /\ v < 0) THEN No ELSE v
Special(a) == a = No \/ a = Bad0
L1(f(_), a) == IF Special(a) THEN a ELSE f(a)
L2(f(_, _), a, b) == IF a = No \/ b = No THEN No ELSE IF a = Bad0 \/ b = Bad0 THEN Bad0 ELSE f(a, b)

(* ------------------------------- scalars ------------------------------- *)
Exact(a, b) == IF a % Abs(b) = 0 THEN TDiv(a, b) ELSE No   \* b # 0
MulS(t, a, b) == LET q == Exact(a * b, Sc(t)) IN IF q = No THEN No ELSE Norm(t, q)
AddS(t, a, b) == Norm(t, a + b)
SubS(t, a, b) == Norm(t, a - b)
DivS(t, a, b) ==
  IF Sc(t) = 1 THEN (IF b = 0 THEN Bad0 ELSE TDiv(a, b))
  ELSE IF b = 0 THEN No ELSE LET q == Exact(a * Q, b) IN IF q = No THEN No ELSE Norm(t, q)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* two's complement bit operations
RECURSIVE And(_, _)
And(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a
             ELSE 2 * And(a \div 2, b \div 2) + (a % 2) * (b % 2)
Or(a, b) == a + b - And(a, b)
Xor(a, b) == a + b - 2 * And(a, b)
RECURSIVE PowS(_, _, _)
PowS(t, a, p) ==   \* a^p for an integer p; for integer types p >= 0
  IF p = 0 THEN Sc(t)
  ELSE IF p < 0 THEN L1(LAMBDA v : DivS(t, Sc(t), v), PowS(t, a, -p))
  ELSE L1(LAMBDA v : MulS(t, v, a), PowS(t, a, p - 1))
CastS(t, u, a) ==
  IF u = "B" THEN (IF a = 0 THEN 0 ELSE 1)
  ELSE LET w == IF Sc(t) = Q /\ Sc(u) = 1 THEN TDiv(a, Q) ELSE IF Sc(t) = 1 /\ Sc(u) = Q THEN a * Q ELSE a
       IN Norm(u, w)
\* floor(1000 f(x)) for the integers 1, 2, 3
Tables == [exp |-> <<2718, 7389, 20085>>, log |-> <<0, 693, 1098>>, log2 |-> <<0, 1000, 1584>>, log10 |-> <<0, 301, 477>>,
           sqrt |-> <<1000, 1414, 1732>>, cbrt |-> <<1000, 1259, 1442>>, sin |-> <<841, 909, 141>>,
           cos |-> <<540, -417, -990>>, tan |-> <<1557, -2186, -143>>]
Isqrt(v) == CHOOSE r \in 0..200 : r * r <= v /\ v < (r + 1) * (r + 1)

Un(e, a) ==
  LET t == e.t IN
  CASE e.op = "pos" -> a
    [] e.op = "neg" -> -a
    [] e.op = "bnot" -> IF t = "U" THEN No ELSE -a - 1
    [] e.op = "lnot" -> 1 - a
    [] e.op = "abs" -> Abs(a)
    [] e.op = "inv" -> DivS(t, Q, a)
    [] e.op = "id" -> a
    [] e.op = "sq1" -> L1(LAMBDA v : SubS(t, v, a), MulS(t, a, a))
    [] e.op = "isneg" -> IF a < 0 THEN 1 ELSE 0
    [] e.op = "half" -> IF Sc(t) = 1 THEN Norm("D", 2 * a) ELSE Exact(a, 2)
    [] e.op = "plusc" -> AddS(t, a, e.p)
    [] e.op \in {"powi", "fpowi", "pow"} -> IF a = 0 /\ e.p < 0 THEN No ELSE PowS(t, a, e.p)
    [] e.op = "cast" -> CastS(t, e.u, a)
    [] e.op = "root" -> IF a < 0 \/ a > Lim \div Q THEN No ELSE LET r == Isqrt(Q * a) IN IF r * r = Q * a THEN r ELSE No
    [] e.op \in DOMAIN Tables -> IF a \in {Q, 2 * Q, 3 * Q} THEN Tables[e.op][a \div Q] ELSE No

Bin(op, t, a, b) ==
  CASE op = "add" -> AddS(t, a, b)
    [] op = "sub" -> SubS(t, a, b)
    [] op = "mul" -> MulS(t, a, b)
    [] op = "div" -> DivS(t, a, b)
    [] op = "mod" -> IF b = 0 THEN Bad0 ELSE TMod(a, b)
    [] op = "shl" -> IF a < 0 \/ b < 0 THEN Bad0 ELSE IF b > 15 THEN No ELSE Norm(t, a * Pow2(b))
    [] op = "shr" -> IF a < 0 \/ b < 0 THEN Bad0 ELSE IF b > 30 THEN No ELSE a \div Pow2(b)
    [] op = "and" -> And(a, b)
    [] op = "or" -> Or(a, b)
    [] op = "xor" -> Xor(a, b)
    [] op = "land" -> a * b
    [] op = "lor" -> Max2(a, b)
    [] op = "lxor" -> IF a = b THEN 0 ELSE 1
    [] op = "lin" -> SubS(t, 2 * a, b)
    [] op = "lt" -> IF a < b THEN 1 ELSE 0
    [] op = "pick" -> IF a = 1 THEN b ELSE -b
    [] op = "scale" -> L1(LAMBDA v : MulS("D", v, b), Norm("D", Q * a))  \* an integer times a double
    [] op = "tp1" -> MulS(t, a, b)
    [] op = "tp2" -> IF MulS(t, a, b) = No THEN No ELSE 0
    [] op = "pp1" -> IF b < 0 THEN Bad0 ELSE PowS(t, a, b)
    [] op = "pp2" -> IF b < 0 THEN Bad0 ELSE IF PowS(t, a, b) = No THEN No ELSE 0

(* ---------------------------- arrays of values ---------------------------- *)
Rej == [k |-> "err", d |-> 1, m |-> 0, n |-> 0, x |-> <<>>]
Skip == [k |-> "skip", d |-> 1, m |-> 0, n |-> 0, x |-> <<>>]
A1(x) == [k |-> "ok", d |-> 1, m |-> 0, n |-> Len(x), x |-> x]
A2(m, n, x) == [k |-> "ok", d |-> 2, m |-> m, n |-> n, x |-> x]
F1(n, f(_)) == A1([q \in 1..n |-> f(q - 1)])
F2(m, n, f(_, _)) == IF m = 0 \/ n = 0 THEN (IF m = n THEN A2(0, 0, <<>>) ELSE Skip)
                     ELSE A2(m, n, [q \in 1..(m * n) |-> f((q - 1) \div n, (q - 1) % n)])
Same(a, b) == a.d = b.d /\ a.m = b.m /\ a.n = b.n
At2(a, i, j) == a.x[i * a.n + j + 1]
Like(a, x) == [a EXCEPT !.x = x]
Take(a, pos) == [q \in 1..Len(pos) |-> a.x[pos[q] + 1]]
PathOf(a, st) ==
  LET r == Apply(IF a.d = 1 THEN V1(Upto(a.n)) ELSE V2([m |-> a.m, n |-> a.n, d |-> Upto(a.m * a.n)]), st)
  IN IF ~r.ok THEN Rej
     ELSE IF r.v.d = 1 THEN A1(Take(a, r.v.pos)) ELSE A2(r.v.m, r.v.n, Take(a, r.v.pos))
RowOf(a, i) == [q \in 1..a.n |-> At2(a, i, q - 1)]
ColOf(a, j) == [q \in 1..a.m |-> At2(a, q - 1, j)]
SumV(t, q) == Fold(LAMBDA a, b : L2(LAMBDA u, v : AddS(t, u, v), a, b), 0, q)
MaxV(q) == Fold(LAMBDA a, b : L2(Max2, a, b), Head(q), Tail(q))
MinV(q) == Fold(LAMBDA a, b : L2(Min2, a, b), Head(q), Tail(q))
DotV(t, q, r) == SumV(t, [k \in 1..Len(q) |-> L2(LAMBDA u, v : MulS(t, u, v), q[k], r[k])])
Reduce(op, t, q) ==
  CASE op = "sum" -> SumV(t, q)
    [] op = "max" -> MaxV(q)
    [] op = "first" -> q[1]
    [] op = "norm" -> DotV(t, q, q)
    [] op = "len" -> Len(q)
    [] op = "lastm" -> L2(LAMBDA u, v : SubS(t, u, v), q[Len(q)], q[1])

\* the non-empty blocks must agree in the other extent
MergeH(a, b) ==
  IF a.x = <<>> THEN b ELSE IF b.x = <<>> THEN a
  ELSE IF a.m # b.m THEN Rej
  ELSE F2(a.m, a.n + b.n, LAMBDA i, j : IF j < a.n THEN At2(a, i, j) ELSE At2(b, i, j - a.n))
MergeV(a, b) ==
  IF a.x = <<>> THEN b ELSE IF b.x = <<>> THEN a
  ELSE IF a.n # b.n THEN Rej ELSE A2(a.m + b.m, a.n, a.x \o b.x)
IotaTo(n) == IF n < 0 THEN Rej ELSE A1(Upto(n))

RECURSIVE EvalE(_, _)
EvalE(e, env) ==
  LET K(i) == EvalE(e.a[i], env)
      \* the children, unless one of them is rejected or undetermined
      With1(g(_)) == LET a == K(1) IN IF a.k # "ok" THEN a ELSE g(a)
      With2(g(_, _)) == LET a == K(1) b == K(2) IN
                        IF a.k = "skip" \/ b.k = "skip" THEN Skip
                        ELSE IF a.k = "err" \/ b.k = "err" THEN Rej ELSE g(a, b)
      Bin1(a, b) == IF Same(a, b) THEN Like(a, [q \in 1..Len(a.x) |-> L2(LAMBDA u, v : Bin(e.op, e.t, u, v), a.x[q], b.x[q])]) ELSE Rej
  IN
  CASE e.f = "var" -> LET v == env[e.i + 1] IN IF v.d = 1 THEN A1(v.x) ELSE A2(v.m, v.n, v.x)
    [] e.f = "path" -> With1(LAMBDA a : PathOf(a, e.st))
    [] e.f = "un" -> With1(LAMBDA a : Like(a, [q \in 1..Len(a.x) |-> L1(LAMBDA v : Un(e, v), a.x[q])]))
    [] e.f = "bin" -> With2(Bin1)
    [] e.f = "binS" -> With1(LAMBDA a : Like(a, [q \in 1..Len(a.x) |-> L1(LAMBDA v : Bin(e.op, e.t, v, e.s), a.x[q])]))
    [] e.f = "Sbin" -> With1(LAMBDA a : Like(a, [q \in 1..Len(a.x) |-> L1(LAMBDA v : Bin(e.op, e.t, e.s, v), a.x[q])]))
    [] e.f = "sc" -> A1(<<e.s>>)
    [] e.f = "merge" ->
         LET ks == [q \in 1..Len(e.a) |-> K(q)] IN
         IF \E q \in 1..Len(ks) : ks[q].k = "skip" THEN Skip
         ELSE IF \E q \in 1..Len(ks) : ks[q].k = "err" THEN Rej
         ELSE A1(Fold(LAMBDA u, v : u \o v.x, <<>>, ks))
    [] e.f \in {"mergeh", "mergev"} ->
         LET ks == [q \in 1..Len(e.a) |-> K(q)]
             M(a, b) == IF a.k # "ok" THEN a ELSE IF e.f = "mergeh" THEN MergeH(a, b) ELSE MergeV(a, b) IN
         IF \E q \in 1..Len(ks) : ks[q].k = "skip" THEN Skip
         ELSE IF \E q \in 1..Len(ks) : ks[q].k = "err" THEN Rej
         ELSE Fold(M, Head(ks), Tail(ks))
    [] e.f = "excl" -> With1(LAMBDA a :
         LET p == IF e.e = 1 THEN a.n - 1 - e.pos ELSE e.pos IN
         IF e.c > 0 /\ p >= 0 /\ p + e.c <= a.n THEN A1(RemoveAt(a.x, p, e.c)) ELSE Rej)
    [] e.f = "transp" -> With1(LAMBDA a : F2(a.n, a.m, LAMBDA i, j : At2(a, j, i)))
    [] e.f = "rowred" -> With1(LAMBDA a : F1(a.m, LAMBDA i : Reduce(e.op, e.t, RowOf(a, i))))
    [] e.f = "colred" -> With1(LAMBDA a : F1(IF a.m = 0 THEN 0 ELSE a.n, LAMBDA j : Reduce(e.op, e.t, ColOf(a, j))))
    [] e.f = "rowbc" -> With1(LAMBDA a : F2(a.n, a.n, LAMBDA i, j : a.x[j + 1]))
    [] e.f = "colbc" -> With1(LAMBDA a : F2(a.n, a.n, LAMBDA i, j : a.x[i + 1]))
    [] e.f = "tensor" -> With2(LAMBDA a, b : F2(a.n, b.n, LAMBDA i, j : L2(LAMBDA u, v : MulS(e.t, u, v), a.x[i + 1], b.x[j + 1])))
    [] e.f = "matvec" -> With2(LAMBDA a, b : IF a.n # b.n THEN Rej ELSE F1(a.m, LAMBDA i : DotV(e.t, RowOf(a, i), b.x)))
    [] e.f = "seq" -> IF e.n < 0 THEN Rej ELSE F1(e.n, LAMBDA i : Norm(e.t, e.s + i * e.h))
    [] e.f = "linsp" -> IF e.n <= 0 THEN Rej
                        ELSE IF e.n = 1 THEN A1(<<e.s>>)
                        ELSE LET h == Exact(e.z - e.s, e.n - 1) IN
                             IF h = No THEN Skip ELSE F1(e.n, LAMBDA i : Norm(e.t, e.s + i * h))
    [] e.f = "irange" -> IotaTo(e.n)
    [] e.f = "irangeof" -> With1(LAMBDA a : IotaTo(Len(a.x)))
    [] e.f = "irm1" -> With1(LAMBDA a : IotaTo(Len(a.x) - 1))
    [] e.f = "irrow" -> With1(LAMBDA a : IotaTo(a.m))
    [] e.f = "irrowm1" -> With1(LAMBDA a : IotaTo(a.m - 1))
    [] e.f = "ircol" -> With1(LAMBDA a : IotaTo(a.n))
    [] e.f = "ircolm1" -> With1(LAMBDA a : IotaTo(a.n - 1))
    [] e.f = "eunit" -> IF e.i >= 0 /\ e.i < e.n THEN F1(e.n, LAMBDA i : IF i = e.i THEN Sc(e.t) ELSE 0) ELSE Rej
    [] e.f = "ident" -> IF e.n < 0 THEN Rej ELSE F2(e.n, e.n, LAMBDA i, j : IF i = j THEN Sc(e.t) ELSE 0)
    [] e.f = "c1" -> IF e.n < 0 THEN Rej ELSE A1(Rep(e.n, e.s))
    [] e.f = "c2" -> IF ShapeOk(e.m, e.n) THEN A2(e.m, e.n, Rep(e.m * e.n, e.s)) ELSE Rej

(* ------------------------------ final queries ------------------------------ *)
Vals(a) == a.x
Defaulted(e, a, r) == IF a.x = <<>> THEN e.def ELSE r
TF(b) == IF b THEN 1 ELSE 0
Known(q) == \A k \in 1..Len(q) : ~Special(q[k])
FirstAt(q, v) == CHOOSE k \in 1..Len(q) : q[k] = v /\ \A j \in 1..(k - 1) : q[j] # v
Where(a, k) == IF a.d = 1 THEN <<k - 1>> ELSE <<(k - 1) \div a.n, (k - 1) % a.n>>
RECURSIVE Horner(_, _, _)
Horner(t, q, x) == IF q = <<>> THEN 0 ELSE L2(LAMBDA u, v : AddS(t, u, v), Head(q), L1(LAMBDA v : MulS(t, v, x), Horner(t, Tail(q), x)))
PolyAt(t, cs, xs, ps) == SumV(t, [k \in 1..Len(cs) |-> L2(LAMBDA u, v : MulS(t, u, v), cs[k], PowS(t, xs[k], ps[k]))])
AbsAll(q) == [k \in 1..Len(q) |-> L1(Abs, q[k])]
ProdV(t, q) == Fold(LAMBDA a, b : L2(LAMBDA u, v : MulS(t, u, v), a, b), Head(q), Tail(q))
RootV(v) == IF v = No THEN No ELSE IF v > Lim \div Q THEN No ELSE LET r == Isqrt(Q * v) IN IF r * r = Q * v THEN r ELSE No
\* the p-th root of a value that is a perfect p-th power of a multiple of 1/4
RootP(v, p) == IF Special(v) THEN v ELSE
  IF \E r \in 0..(20 * Q) : PowS("D", r, p) = v THEN CHOOSE r \in 0..(20 * Q) : PowS("D", r, p) = v ELSE No
Pred(e, v) ==
  CASE e.q = "zero" -> v = 0
    [] e.q = "pos" -> v > 0
    [] e.q = "neg" -> v < 0
    [] e.q = "nonpos" -> v <= 0
    [] e.q = "nonneg" -> v >= 0
    [] e.q = "eq" -> v = e.s
    [] e.q = "gt" -> v > e.s
    \* stand-ins: the elements 1, 2, 3 are turned into infinity, minus infinity and not-a-number
    [] e.q = "fin" -> v \notin {Q, 2 * Q, 3 * Q}
    [] e.q = "inf" -> v \in {Q, 2 * Q}
    [] e.q = "nan" -> v = 3 * Q
Ans(q) == IF \E k \in 1..Len(q) : q[k] = No THEN [k |-> "skip", v |-> <<>>]
          ELSE IF \E k \in 1..Len(q) : q[k] = Bad0 THEN Err ELSE OkV(q)
ErrA == Err
SkipA == [k |-> "skip", v |-> <<>>]
\* the answer of a final query; a is the (already valid) argument
Query(e, a, env) ==
  LET t == e.t
      q == a.x
      One1(v) == Ans(<<Defaulted(e, a, v)>>)
      \* queries that stop at the first decisive element may or may not reach a bad one
      Quant(dec, whole) == IF q = <<>> THEN Ans(<<e.def>>) ELSE IF ~Known(q) THEN (IF \E k \in 1..Len(q) : q[k] = No THEN SkipA ELSE
                              LET firstbad == CHOOSE k \in 1..Len(q) : q[k] = Bad0 /\ \A j \in 1..(k - 1) : q[j] # Bad0 IN
                              IF \E j \in 1..(firstbad - 1) : Pred(e, q[j]) = dec THEN SkipA ELSE Err)
                            ELSE Ans(<<TF(whole)>>)
      Second == EvalE(e.b, env)
  IN
  CASE e.fin = "sum" -> One1(IF q = <<>> THEN 0 ELSE SumV(t, q))
    [] e.fin = "prod" -> One1(IF q = <<>> THEN 0 ELSE ProdV(t, q))
    [] e.fin = "mean" -> One1(IF q = <<>> THEN 0 ELSE L1(LAMBDA v : Exact(v, Len(q)), SumV(t, q)))
    [] e.fin = "min" -> One1(IF q = <<>> THEN 0 ELSE MinV(q))
    [] e.fin = "max" -> One1(IF q = <<>> THEN 0 ELSE MaxV(q))
    [] e.fin = "minix" -> IF q = <<>> THEN Ans(e.defs) ELSE IF ~Known(q) THEN Ans(q) ELSE Ans(Where(a, FirstAt(q, MinV(q))) \o <<MinV(q)>>)
    [] e.fin = "maxix" -> IF q = <<>> THEN Ans(e.defs) ELSE IF ~Known(q) THEN Ans(q) ELSE Ans(Where(a, FirstAt(q, MaxV(q))) \o <<MaxV(q)>>)
    [] e.fin = "dot" -> LET b == Second IN IF b.k # "ok" THEN (IF b.k = "err" THEN ErrA ELSE SkipA) ELSE IF ~Same(a, b) THEN ErrA ELSE One1(DotV(t, q, b.x))
    [] e.fin = "norminf" -> One1(IF q = <<>> THEN 0 ELSE MaxV(AbsAll(q)))
    [] e.fin = "norm1" -> One1(SumV(t, AbsAll(q)))
    [] e.fin = "norm1s" -> One1(IF q = <<>> THEN 0 ELSE L1(LAMBDA v : Exact(v, Len(q)), SumV(t, AbsAll(q))))
    [] e.fin = "norm2" -> One1(IF ~Known(q) THEN (IF \E k \in 1..Len(q) : q[k] = No THEN No ELSE Bad0) ELSE RootV(DotV(t, q, q)))
    [] e.fin = "norm2s" -> One1(IF q = <<>> THEN 0 ELSE IF ~Known(q) THEN (IF \E k \in 1..Len(q) : q[k] = No THEN No ELSE Bad0)
                                ELSE RootV(L1(LAMBDA v : Exact(v, Len(q)), DotV(t, q, q))))
    [] e.fin = "normlp" -> IF e.p <= 0 THEN ErrA ELSE One1(IF ~Known(q) THEN (IF \E k \in 1..Len(q) : q[k] = No THEN No ELSE Bad0)
                                ELSE RootP(SumV(t, [k \in 1..Len(q) |-> PowS(t, Abs(q[k]), e.p)]), e.p))
    [] e.fin = "normlps" -> IF e.p <= 0 THEN ErrA ELSE One1(IF q = <<>> THEN 0 ELSE IF ~Known(q) THEN (IF \E k \in 1..Len(q) : q[k] = No THEN No ELSE Bad0)
                                ELSE RootP(L1(LAMBDA v : Exact(v, Len(q)), SumV(t, [k \in 1..Len(q) |-> PowS(t, Abs(q[k]), e.p)])), e.p))
    [] e.fin = "poly" -> One1(IF q = <<>> THEN 0 ELSE Horner(t, q, e.s))
    [] e.fin = "polyp" -> LET p == Second IN IF p.k # "ok" THEN (IF p.k = "err" THEN ErrA ELSE SkipA)
                          ELSE IF ~Same(a, p) THEN ErrA ELSE IF q = <<>> THEN Ans(<<e.def>>)
                          ELSE IF ~Known(p.x) THEN SkipA ELSE IF \E k \in 1..Len(p.x) : p.x[k] < 0 THEN ErrA
                          ELSE One1(PolyAt(t, q, Rep(Len(q), e.s), p.x))
    [] e.fin = "gpoly" -> LET b == Second p == EvalE(e.c, env) IN
                          IF b.k = "skip" \/ p.k = "skip" THEN SkipA ELSE IF b.k = "err" \/ p.k = "err" THEN ErrA
                          ELSE IF ~Same(a, b) \/ ~Same(a, p) THEN ErrA ELSE IF q = <<>> THEN Ans(<<e.def>>)
                          ELSE IF ~Known(p.x) \/ ~Known(b.x) THEN SkipA ELSE IF \E k \in 1..Len(p.x) : p.x[k] < 0 THEN ErrA
                          ELSE One1(PolyAt(t, q, b.x, p.x))
    [] e.fin = "all" -> Quant(FALSE, \A k \in 1..Len(q) : Pred(e, q[k]))
    [] e.fin = "any" -> Quant(TRUE, \E k \in 1..Len(q) : Pred(e, q[k]))
    [] e.fin = "none" -> Quant(TRUE, ~\E k \in 1..Len(q) : Pred(e, q[k]))
    [] e.fin \in {"all2", "any2", "none2"} ->
         LET b == Second IN
         IF b.k # "ok" THEN (IF b.k = "err" THEN ErrA ELSE SkipA)
         ELSE IF ~Same(a, b) THEN ErrA
         ELSE IF q = <<>> THEN Ans(<<e.def>>)
         ELSE IF ~Known(q) \/ ~Known(b.x) THEN SkipA
         ELSE LET hit == {k \in 1..Len(q) : q[k] < b.x[k]} IN
              Ans(<<TF(CASE e.fin = "all2" -> hit = 1..Len(q) [] e.fin = "any2" -> hit # {} [] e.fin = "none2" -> hit = {})>>)
    [] e.fin = "equal" ->
         LET b == Second IN
         IF b.k # "ok" THEN (IF b.k = "err" THEN ErrA ELSE SkipA)
         ELSE IF ~Known(q) \/ ~Known(b.x) THEN SkipA
         ELSE Ans(<<TF(Same(a, b) /\ q = b.x)>>)
    [] e.fin = "blas" -> Ans(q)
    [] e.fin = "visit" -> Ans(q)
    [] e.fin \in {"oprange", "clrange"} ->
         IF ~Known(q) THEN SkipA ELSE IF e.s > e.z THEN ErrA
         ELSE Ans(SelectSeq(q, LAMBDA v : IF e.fin = "oprange" THEN v > e.s /\ v < e.z ELSE v >= e.s /\ v <= e.z))
    [] e.fin = "cdrange" -> IF ~Known(q) THEN SkipA ELSE Ans(SelectSeq(q, LAMBDA v : v > Sc(t) \/ v < -2 * Sc(t)))

(* ------------------------------ programs ------------------------------ *)
\* what an observer of an evaluated expression sees
ShowE(a) == IF \E q \in 1..Len(a.x) : a.x[q] = No THEN [k |-> "skip", d |-> 1, m |-> 0, n |-> 0, x |-> <<>>]
            ELSE IF \E q \in 1..Len(a.x) : a.x[q] = Bad0 THEN [a EXCEPT !.k = "err", !.x = <<>>]
            ELSE a
\* built once over v; looked at, then again after the operands were overwritten with w
Program(in) == LET r == EvalE(in.e, in.v) IN
  IF r.k # "ok" THEN <<r>> ELSE <<r, ShowE(r), ShowE(EvalE(in.e, in.w))>>
\* a query over an expression
Ask(in) == LET r == EvalE(in.e, in.v) IN
  IF r.k = "skip" THEN SkipA ELSE IF r.k = "err" THEN Err ELSE Query(in.q, r, in.v)
===========================================================================
