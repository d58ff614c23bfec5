------------------------------- MODULE Stable -------------------------------
(* Compensated reductions.  A reduction of this kind returns the exact      *)
(* result up to a correction of second order: with u the rounding unit, n   *)
(* terms and S the sum of their magnitudes, it returns the correct rounding *)
(* of some number within a small multiple of n^2 u^2 S of the exact value.  *)
(* The question c names a function, its type and its terms; o is the answer.*)
(* Terms and results are finite, away from the ends of the exponent range.  *)
EXTENDS Types
CONSTANTS Alphabet, Depth
VARIABLES q, last
vars == <<q, last>>

Prec(t) == Fmt(t).p
Two(k) == Num(0, <<1>>, k)
Unit(t, k, m) == NMul(Two(-k * Prec(t)), Int_(m))          \* m u^k
Total(xs) == FoldLeft(LAMBDA a, x : NAdd(a, x), Zero0, xs)
Product(xs) == FoldLeft(LAMBDA a, x : NMul(a, x), Int_(1), xs)
Mags(xs) == [i \in 1..Len(xs) |-> AbsN(xs[i])]
Mults(xs, ys) == [i \in 1..Len(xs) |-> NMul(xs[i], ys[i])]
\* the term of a polynomial, powers being ordinary integers
Terms(cs, xs, ps) == [i \in 1..Len(cs) |-> NMul(cs[i], NPow(xs[i], ps[i]))]
\* r is the correct rounding of some number within d of e
Rounded(t, r, e, d) == NLe(Rn(t, NSub(e, d)), r) /\ NLe(r, Rn(t, NAdd(e, d)))
\* |r - e| <= d
Within(r, e, d) == NLe(AbsN(NSub(r, e)), d)
\* every partial result of the plain reduction is representable
Exact(t, f(_, _), x0, xs) == FoldLeft(LAMBDA a, x : LET z == f(a.v, x) IN [v |-> z, ok |-> a.ok /\ Fits(t, x) /\ Rn(t, z) = z], [v |-> x0, ok |-> TRUE], xs).ok
ExactSum(t, xs) == Exact(t, NAdd, Zero0, xs)
ExactProd(t, xs) == Exact(t, NMul, Int_(1), xs)
SumLike(t, r, xs) ==
  LET e == Total(xs)
      n == Len(xs)
  IN Rounded(t, r, e, NMul(Unit(t, 2, 2 * n * n), Total(Mags(xs)))) /\ (ExactSum(t, xs) => NEq(r, e))
ProdLike(t, r, xs) ==
  LET e == Product(xs)
      n == Len(xs)
  IN Rounded(t, r, e, NMul(Unit(t, 2, 3 * n * n), AbsN(e))) /\ (ExactProd(t, xs) => NEq(r, e))

PolyLike(t, r, cs, xs, ps) ==
  LET ts == Terms(cs, xs, ps)
      n == Len(cs)
      m == FoldLeft(LAMBDA a, x : Max2(a, x), 1, ps)
  IN Rounded(t, r, Total(ts), NMul(Unit(t, 2, 8 * n * n + 9 * m * m), Total(Mags(ts))))
     \* powers of at most the second order and their products with the coefficients lose nothing
     /\ (m <= 2 /\ ExactSum(t, ts) => NEq(r, Total(ts)))
\* sums in blocks of 64, the blocks being added with compensation
Block == 64
BlockLike(t, r, ts, extra) == Within(r, Total(ts), NMul(Unit(t, 1, Min2(Len(ts), Block + 3) + extra), Total(Mags(ts))))
\* at most |log2 x| + 1
LogSize(x) == Abs(x.e + BitLen(x.m)) + 1
Same_(x, n) == [i \in 1..n |-> x]
Empty(c) == IF c.d = <<>> THEN Zero0 ELSE c.d[1]
\* what the function demands of its arguments
Valid(c) == /\ c.f \in {"dot", "semi_dot"} => c.sa = c.sb
            /\ c.f \in {"norm_lp", "norm_lp_scaled"} => c.lp > 0
            /\ c.f = "polyp" => Len(c.p) = Len(c.a) /\ \A i \in 1..Len(c.p) : c.p[i] >= 0
            /\ c.f = "gpoly" => Len(c.p) = Len(c.a) /\ Len(c.b) = Len(c.a) /\ \A i \in 1..Len(c.p) : c.p[i] >= 0
Admits(in) ==
  LET c == in.c
      o == in.o
      t == c.t
      xs == c.a
      n == Len(xs)
      N == Int_(n)
      r == o.v[2]
      Pow(k) == NPow(r, k)
      lp == [i \in 1..n |-> NPow(AbsN(xs[i]), c.lp)]
      \* the relative error of the p-th root, seen through the p-th power
      LpSlack(e, k) == NMul(Unit(t, 1, k * (5 * c.lp + 4 + LogSize(e))), e)
  IN IF ~Valid(c) THEN o = Err
     ELSE /\ o.k = "ok" /\ o.v[1] = t /\ IsNum(r)
          /\ IF n = 0 THEN NEq(r, Empty(c))
             ELSE CASE c.f = "sum" -> SumLike(t, r, xs)
                    [] c.f = "dot" -> SumLike(t, r, Mults(xs, c.b))
                    [] c.f = "prod" -> ProdLike(t, r, xs)
                    [] c.f = "norm1" -> SumLike(t, r, Mags(xs))
                    [] c.f = "mean" -> LET e == Total(xs) IN Within(NMul(r, N), e, NAdd(NMul(Unit(t, 1, 3), AbsN(e)), NMul(Unit(t, 2, 4 * n * n), Total(Mags(xs)))))
                    [] c.f = "norm1_scaled" -> LET e == Total(Mags(xs)) IN Within(NMul(r, N), e, NMul(Unit(t, 1, 4), e))
                    [] c.f = "norm2" -> LET e == Total(Mults(xs, xs)) IN r.s = 0 /\ Within(Pow(2), e, NMul(Unit(t, 1, 5), e)) /\ (ExactSum(t, Mults(xs, xs)) => NEq(r, FSqrt(t, e)))
                    [] c.f = "norm2_scaled" -> LET e == Total(Mults(xs, xs)) IN r.s = 0 /\ Within(NMul(Pow(2), N), e, NMul(Unit(t, 1, 10), e))
                    [] c.f = "norm_lp" -> LET e == Total(lp) IN r.s = 0 /\ (IF IsZero(e) THEN IsZero(r) ELSE Within(Pow(c.lp), e, LpSlack(e, 1)))
                    [] c.f = "norm_lp_scaled" -> LET e == Total(lp) IN r.s = 0 /\ (IF IsZero(e) THEN IsZero(r) ELSE Within(NMul(Pow(c.lp), N), e, LpSlack(e, 2)))
                    [] c.f = "poly" -> PolyLike(t, r, xs, Same_(c.x, n), [i \in 1..n |-> i - 1])
                    [] c.f = "polyp" -> PolyLike(t, r, xs, Same_(c.x, n), c.p)
                    [] c.f = "gpoly" -> PolyLike(t, r, xs, c.b, c.p)
                    [] c.f = "semi_sum" -> BlockLike(t, r, xs, 0)
                    [] c.f = "semi_dot" -> BlockLike(t, r, Mults(xs, c.b), 1)

(* ------------- the algorithms meet what is asked of the reductions ------------- *)
(* Over a format small enough to explore: terms are added one by one, and the      *)
(* compensated results of the terms so far have to be admitted.                    *)
t0 == "tiny"
Add(x, y) == FAdd(t0, x, y)
Mul(x, y) == FMul(t0, x, y)
TwoSum(x, y) == LET s == Add(x, y) IN <<s, NSub(NAdd(x, y), s)>>
TwoProd(x, y) == LET s == Mul(x, y) IN <<s, NSub(NMul(x, y), s)>>
AlgSum(xs) == LET z == FoldLeft(LAMBDA a, x : LET h == TwoSum(a.s, x) IN [s |-> h[1], c |-> Add(a.c, h[2])], [s |-> Zero0, c |-> Zero0], xs) IN Add(z.s, z.c)
AlgDot(xs, ys) == LET z == FoldLeft(LAMBDA a, i : LET h == TwoProd(xs[i], ys[i]) g == TwoSum(a.p, h[1]) IN [p |-> g[1], s |-> Add(a.s, Add(g[2], h[2]))], [p |-> Zero0, s |-> Zero0], [i \in 1..Len(xs) |-> i]) IN Add(z.p, z.s)
AlgProd(xs) ==
  LET n == Len(xs)
      up == FoldLeft(LAMBDA a, i : LET h == TwoProd(a.p, xs[i]) IN [p |-> h[1], es |-> Append(a.es, h[2])], [p |-> xs[1], es |-> <<>>], [i \in 1..(n - 1) |-> i + 1])
      \* the error of each step times the factors that follow it, from the last
      down == FoldLeft(LAMBDA a, i : [f |-> Mul(a.f, xs[n + 1 - i]), ts |-> Append(a.ts, Mul(a.f, up.es[n - i]))], [f |-> Int_(1), ts |-> <<>>], [i \in 1..(n - 1) |-> i])
  IN Add(up.p, AlgSum(down.ts))
Plain(xs) == FoldLeft(LAMBDA a, x : Add(a, x), Zero0, xs)
\* the letters: zero, one, a full significand, and values around the rounding unit and its square
Letter(i) == LET p == Prec(t0) IN CASE i = 0 -> Zero0 [] i = 1 -> Int_(1) [] i = 2 -> Two(p) [] i = 3 -> NSub(Two(p), Int_(1)) [] i = 4 -> Two(-p) [] i = 5 -> Frac(3, -1)
                                    [] i = 6 -> NAdd(Two(p - 1), Int_(1)) [] i = 7 -> Two(2 * p)
Term(i) == IF i < 0 THEN Neg(Letter(-i)) ELSE Letter(i)
Values == [i \in 1..Len(q) |-> Term(q[i])]
Init == q = <<>> /\ last = 0
Next == \E x \in Alphabet : q' = Append(q, x) /\ last' = x
Spec == Init /\ [][Next]_vars
View == q
Bounded == Len(q) < Depth
SumMeets == q # <<>> => SumLike(t0, AlgSum(Values), Values)
DotMeets == q # <<>> => LET r == Rev(Values) IN SumLike(t0, AlgDot(Values, r), Mults(Values, r)) /\ SumLike(t0, AlgDot(Values, Values), Mults(Values, Values))
ProdMeets == q # <<>> => ProdLike(t0, AlgProd(Values), Values)
\* reversing or negating the terms changes what is admitted accordingly
Symmetric == q # <<>> => LET r == AlgSum(Values) neg == [i \in 1..Len(q) |-> Neg(Values[i])] IN SumLike(t0, r, Rev(Values)) = SumLike(t0, r, Values) /\ SumLike(t0, Neg(r), neg) = SumLike(t0, r, Values)
\* the plain sum does not meet it
Hidden == <<Two(Prec(t0)), Int_(1), Neg(Two(Prec(t0)))>>
ASSUME ~SumLike(t0, Plain(Hidden), Hidden) /\ SumLike(t0, AlgSum(Hidden), Hidden)
===========================================================================
