-------------------------------- MODULE Math --------------------------------
(* Scalar mathematical functions: exact where the result is defined to be   *)
(* exact, within a stated distance of the exact value otherwise.            *)
EXTENDS Scalar

(* ------------------------- exactly defined functions ------------------------- *)
Ok1(t, r) == CASE r.ok = "ok" -> OkV(<<t, r.v>>) [] r.ok = "err" -> Err [] OTHER -> [k |-> "undef", v |-> <<>>]
AnyNaN(xs) == \E i \in 1..Len(xs) : xs[i].k = "nan"
Arith(t, op, x, y) == IF t \in IntTypes THEN IntBin(t, op, x, y) ELSE FloatBin(t, op, x, y)
\* x^n for an integer type, by the exact value
IntPow(t, x, n) ==
  IF n.s = 1 THEN Bad
  ELSE IF IsZero(n) THEN U(Int_(1))
  ELSE IF IsZero(x) THEN U(Int_(0))
  ELSE IF x.m = <<1>> /\ x.e = 0 THEN U(IF x.s = 1 /\ n.e = 0 THEN x ELSE AbsN(x))
  ELSE IF BCmp(Whole_(n), <<64>>) > 0 THEN (IF Signed(t) \/ BCmp(Whole_(n), <<300>>) > 0 THEN Undef ELSE AsInt(t, NPow(x, Whole_(n)[1])))
  ELSE AsInt(t, NPow(x, Whole_(n)[1]))
Factorial(n) == Num(0, FoldLeft(LAMBDA a, i : BMul(a, Nat_(i)), <<1>>, [i \in 1..n |-> i]), 0)
Binom(n, k) == Num(0, FoldLeft(LAMBDA a, i : BDivMod(BMul(a, Nat_(n - k + i)), Nat_(i)).q, <<1>>, [i \in 1..k |-> i]), 0)
ToInt(x) == LET m == Whole_(x) a == IF m = <<>> THEN 0 ELSE IF Len(m) = 1 THEN m[1] ELSE IF Len(m) = 2 THEN m[1] + m[2] * Base ELSE 9999999 IN IF x.s = 1 THEN -a ELSE a

Fn(in) ==
  LET t == in.t
      x == in.a[1]
      y == in.a[2]
      z == in.a[3]
      B(b) == OkV(<<"bool", Int_(IF b THEN 1 ELSE 0)>>)
      \* intervals: both bounds are values in order
      Bounds(l, h) == l.k # "nan" /\ h.k # "nan" /\ NLe(l, h)
  IN CASE in.f = "signs" -> IF x.k = "nan" THEN [k |-> "undef", v |-> <<>>] ELSE OkV(<<t, Int_(Sign(x))>>)
       [] in.f = "abss" -> IF t \in IntTypes /\ x.s = 1 THEN Ok1(t, AsInt(t, AbsN(x))) ELSE OkV(<<t, AbsN(x)>>)
       [] in.f = "mins" -> IF AnyNaN(in.a) THEN [k |-> "undef", v |-> <<>>] ELSE OkV(<<t, IF NLt(x, y) THEN x ELSE y>>)
       [] in.f = "maxs" -> IF AnyNaN(in.a) THEN [k |-> "undef", v |-> <<>>] ELSE OkV(<<t, IF NLt(y, x) THEN x ELSE y>>)
       [] in.f = "squares" -> Ok1(t, Arith(t, "*", x, x))
       [] in.f = "cubes" -> LET q == Arith(t, "*", x, x) IN IF q.ok = "ok" THEN Ok1(t, Arith(t, "*", q.v, x)) ELSE Ok1(t, q)
       [] in.f = "ipows" -> Ok1(t, IntPow(t, x, y))
       [] in.f = "invs" -> OkV(<<t, FDiv(t, Int_(1), x)>>)
       [] in.f = "sqrts" -> OkV(<<t, FSqrt(t, x)>>)
       [] in.f = "fmas" -> OkV(<<t, FMA(t, x, y, z)>>)
       [] in.f = "floors" -> OkV(<<t, IF IsNum(x) THEN Floor(x) ELSE x>>)
       [] in.f = "ceils" -> OkV(<<t, IF IsNum(x) THEN Ceil(x) ELSE x>>)
       [] in.f = "isinfs" -> B(x.k = "inf")
       [] in.f = "isnans" -> B(x.k = "nan")
       [] in.f = "isfinites" -> B(x.k = "num")
       [] in.f = "clamps" -> IF AnyNaN(in.a) \/ ~Bounds(y, z) THEN Err ELSE OkV(<<t, IF NLt(x, y) THEN y ELSE IF NLt(z, x) THEN z ELSE x>>)
       [] in.f = "in_open" -> IF ~Bounds(y, z) THEN Err ELSE B(x.k # "nan" /\ NLt(y, x) /\ NLt(x, z))
       [] in.f = "in_closed" -> IF ~Bounds(y, z) THEN Err ELSE B(x.k # "nan" /\ NLe(y, x) /\ NLe(x, z))
       [] in.f = "factorial" -> IF x.s = 1 THEN Err ELSE Ok1("long", AsInt("long", Factorial(ToInt(x))))
       [] in.f = "binom_coeff" -> IF y.s = 1 \/ NLt(x, y) THEN Err ELSE Ok1("long", AsInt("long", Binom(ToInt(x), ToInt(y))))

(* -------------------- functions with a bounded distance -------------------- *)
\* fixed point with 140 fractional bits: a Num truncated to a multiple of 2^-140
FP == 140
Fix(x) == IF IsZero(x) \/ x.e >= -FP THEN x ELSE Num(x.s, Shr(x.m, -FP - x.e), -FP)
FMulFix(x, y) == Fix(NMul(x, y))
DivSmallFix(x, n) == IF IsZero(x) THEN x ELSE LET a == Shl(x.m, Max2(0, x.e + FP)) IN IF x.e < -FP THEN Zero0 ELSE Num(x.s, BDivSmall(a, n).q, -FP)
\* Taylor series of exp, sin, cos; the terms vanish long before the last one
Series(x, first, a, b, k) == LET r == FoldLeft(LAMBDA q, i : LET u == DivSmallFix(FMulFix(q.u, x), (a * i + b)) IN
                                   LET w == IF k = 1 THEN u ELSE Neg(DivSmallFix(FMulFix(u, x), (a * i + b + 1))) IN [u |-> w, s |-> NAdd(q.s, w)],
                                   [u |-> first, s |-> first], [i \in 1..(IF k = 1 THEN 90 ELSE 50) |-> i]) IN r.s
ExpFix(x) == Series(x, Int_(1), 1, 0, 1)
CosFix(x) == Series(x, Int_(1), 2, -1, 2)
SinFix(x) == Series(x, x, 2, 0, 2)
\* 2 * atanh(1/n)
Atanh2(n) == LET r == FoldLeft(LAMBDA q, i : [u |-> DivSmallFix(DivSmallFix(q.u, n), n), s |-> NAdd(q.s, DivSmallFix(DivSmallFix(DivSmallFix(q.u, n), n), 2 * i + 1))],
                               LET h == DivSmallFix(Int_(2), n) IN [u |-> h, s |-> h], [i \in 1..90 |-> i]) IN r.s
Ln2 == Atanh2(3)                                  \* (1 + 1/3) / (1 - 1/3) = 2
Ln10 == NAdd(NMul(Int_(3), Ln2), Atanh2(9))       \* 10 = 8 * 5/4
ArctanInv(n) == LET r == FoldLeft(LAMBDA q, i : LET u == Neg(DivSmallFix(DivSmallFix(q.u, n), n)) IN [u |-> u, s |-> NAdd(q.s, DivSmallFix(u, 2 * i + 1))],
                                  LET h == DivSmallFix(Int_(1), n) IN [u |-> h, s |-> h], [i \in 1..90 |-> i]) IN r.s
Pi == NSub(NMul(Int_(16), ArctanInv(5)), NMul(Int_(4), ArctanInv(239)))
\* |a - b| <= 2^k * m
Near(a, b, k, m) == NLe(AbsN(NSub(a, b)), NMul(Num(0, <<1>>, k), AbsN(m)))
Prec(t) == Fmt(t).p
PowNum(x, n) == NPow(x, n)
\* constants, correctly rounded
Const(in) == LET t == in.t IN OkV(<<t, CASE in.f = "epsilon" -> Num(0, <<1>>, 1 - Prec(t)) [] in.f = "pi" -> Rn(t, Pi) [] in.f = "e" -> Rn(t, ExpFix(Int_(1))) [] in.f = "sqrt2" -> FSqrt(t, Int_(2))>>)

\* in: the question c and the observed outcome o; finite operands, results in the middle of the range
Accept(in) ==
  LET c == in.c
      t == c.t
      x == c.a[1]
      v == in.o.v
      r == v[2]
      k == 4 - Prec(t)
      One_ == Int_(1)
      n == ToInt(c.a[2])
      p == Abs(n)
      Fin == in.o.k = "ok" /\ v[1] = t /\ IsNum(r)
  IN CASE c.f \in {"exps", "exps_int"} -> Fin /\ Near(r, ExpFix(x), k, ExpFix(x))
       [] c.f = "sins" -> Fin /\ Near(r, SinFix(x), k, One_)
       [] c.f = "coss" -> Fin /\ Near(r, CosFix(x), k, One_)
       [] c.f = "tans" -> Fin /\ Near(NMul(r, CosFix(x)), SinFix(x), k, NAdd(One_, AbsN(r)))
       [] c.f = "logs" -> Fin /\ Near(ExpFix(r), x, k, NMul(x, NAdd(One_, AbsN(r))))
       [] c.f = "log2s" -> Fin /\ Near(ExpFix(Fix(NMul(r, Ln2))), x, k, NMul(x, NAdd(One_, AbsN(r)))) /\ (x.m = <<1>> => r = Int_(x.e))
       [] c.f = "log10s" -> Fin /\ Near(ExpFix(Fix(NMul(r, Ln10))), x, k, NMul(x, NMul(Int_(4), NAdd(One_, AbsN(r)))))
       [] c.f = "cbrts" -> Fin /\ Near(PowNum(r, 3), x, k + 2, x)
       \* powers with an integer or half-integer exponent
       [] c.f = "pows" -> Fin /\ LET y2 == ToInt(NMul(Int_(2), c.a[2])) IN
                            IF y2 >= 0 THEN Near(PowNum(r, 2), PowNum(x, y2), k + 2, PowNum(x, y2))
                            ELSE Near(NMul(PowNum(r, 2), PowNum(x, -y2)), One_, k + 2, One_)
       [] c.f \in {"pows_int", "fast_pows_int"} ->
            LET e == PowNum(x, p)
                exact == Rn(t, e) = e
                slack == NMul(e, Int_(2 * p + 4))
            IN Fin /\ IF n >= 0 THEN (IF exact /\ c.f = "fast_pows_int" THEN r = e ELSE Near(r, e, -Prec(t), slack))
                      ELSE (exact /\ c.f = "fast_pows_int" => r = FDiv(t, One_, e)) /\ Near(NMul(r, e), One_, -Prec(t), Int_(2 * p + 6))
       \* error-free transformations: the first component is the rounded result, the sum is exact
       [] c.f = "two_sums" -> Fin /\ Same(r, FAdd(t, x, c.a[2])) /\ IsNum(v[3]) /\ NEq(NAdd(r, v[3]), NAdd(x, c.a[2]))
       [] c.f = "two_prods" -> Fin /\ Same(r, FMul(t, x, c.a[2])) /\ IsNum(v[3]) /\ NEq(NAdd(r, v[3]), NMul(x, c.a[2]))
       [] c.f = "pow_prods" -> IF n < 0 THEN in.o = Err
                               ELSE LET e == PowNum(x, n) IN
                                    Fin /\ IsNum(v[3]) /\ Near(r, e, -Prec(t), NMul(e, Int_(p)))
                                    /\ IF p <= 2 THEN NEq(NAdd(r, v[3]), e) ELSE Near(NAdd(r, v[3]), e, -2 * Prec(t), NMul(e, Int_(8 * p * p)))

(* ------------------- laws of the definitions themselves ------------------- *)
Lawful(in) ==
  LET t == in.t x == in.x y == in.y n == in.n k == in.k
      F(f, a) == Fn([t |-> t, f |-> f, a |-> a])
      V(o) == o.v[2]
  IN /\ (n >= 1 /\ k >= 1 /\ k < n) => Binom(n, k) = NAdd(Binom(n - 1, k - 1), Binom(n - 1, k)) /\ Binom(n, k) = Binom(n, n - k)
     /\ n >= 1 => Factorial(n) = NMul(Int_(n), Factorial(n - 1))
     /\ (x # NaN /\ y # NaN) =>
          LET lo == V(F("mins", <<x, y>>)) hi == V(F("maxs", <<x, y>>)) IN
          /\ {lo, hi} = {x, y} \/ NEq(x, y)
          /\ NLe(lo, hi)
          /\ V(F("clamps", <<x, lo, hi>>)) = x \/ NEq(x, lo) \/ NEq(x, hi)
          /\ True(V(F("in_closed", <<x, lo, hi>>))) /\ ~True(V(F("in_open", <<x, lo, hi>>)))
     /\ t \in FloatTypes /\ IsNum(x) =>
          /\ NLe(V(F("floors", <<x>>)), x) /\ NLt(x, NAdd(V(F("floors", <<x>>)), Int_(1)))
          /\ Same(V(F("ceils", <<x>>)), Neg(V(F("floors", <<Neg(x)>>))))
          /\ x.s = 0 /\ ~IsZero(x) => LET r == V(F("sqrts", <<x>>)) IN Near(NMul(r, r), x, 2 - Prec(t), x)
     /\ (IsNum(x) /\ NLe(AbsN(x), Int_(8))) => Near(NAdd(NMul(SinFix(x), SinFix(x)), NMul(CosFix(x), CosFix(x))), Int_(1), -110, Int_(1))
===========================================================================
