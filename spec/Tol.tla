-------------------------------- MODULE Tol --------------------------------
(* Tolerance comparisons and error measures, in the arithmetic of the type. *)
(* A question names a function, a type, one or two shapes and the elements  *)
(* of two operands (scalars have the empty shape), tolerances when given,   *)
(* and a default for empty operands when given.                             *)
EXTENDS Types
CONSTANTS Types_, Depth
VARIABLES s, last
vars == <<s, last>>

Prec(t) == Fmt(t).p
Ulp(t) == Num(0, <<1>>, 1 - Prec(t))
Hundred(t) == NMul(Int_(100), Ulp(t))
Given(q, dflt) == IF q = <<>> THEN dflt ELSE q[1]
MaxOf(x, y) == IF NLt(x, y) THEN y ELSE x
Diff(t, x, y) == FAdd(t, x, Neg(y))
Le(x, y) == x.k # "nan" /\ y.k # "nan" /\ NLe(x, y)
NonNeg(x) == x.k # "nan" /\ NLe(Zero0, x)
WithinAbs(t, x, y, tol) == Le(AbsN(Diff(t, x, y)), tol)
WithinRel(t, x, y, tol, near) ==
  LET m == MaxOf(AbsN(x), AbsN(y)) IN
  Le(m, near) \/ Le(FDiv(t, AbsN(Diff(t, x, y)), m), tol)
RelErr(t, a, e) == AbsN(FDiv(t, Diff(t, a, e), e))
AbsErr(t, a, e) == AbsN(Diff(t, a, e))
Largest(q) == FoldLeft(LAMBDA m, x : MaxOf(m, x), q[1], q)
B(b) == OkV(<<"bool", Int_(IF b THEN 1 ELSE 0)>>)
None == OkV(<<"none">>)
Answer(c) ==
  LET t == c.t
      x == c.a
      y == c.b
      n == Len(x)
      tol == Given(c.tol, Hundred(t))
      near == Given(c.near, Hundred(t))
      mixed == c.sa # c.sb
      zero == \E i \in 1..n : IsZero(x[i]) \/ IsZero(y[i])
      V(v) == OkV(<<t, v>>)
  IN IF mixed THEN Err
     ELSE CASE c.f = "abs" -> IF n = 0 THEN B(c.dflt = <<1>>) ELSE IF ~NonNeg(tol) THEN Err ELSE B(\A i \in 1..n : WithinAbs(t, x[i], y[i], tol))
            [] c.f = "rel" -> IF n = 0 THEN B(c.dflt = <<1>>) ELSE IF ~NonNeg(tol) \/ ~NonNeg(near) THEN Err ELSE B(\A i \in 1..n : WithinRel(t, x[i], y[i], tol, near))
            [] c.f = "abs_error" -> V(AbsErr(t, x[1], y[1]))
            [] c.f = "rel_error" -> IF zero THEN None ELSE V(RelErr(t, x[1], y[1]))
            [] c.f = "max_abs_error" -> IF n = 0 THEN V(Given(c.dflt, Int_(1))) ELSE V(Largest([i \in 1..n |-> AbsErr(t, x[i], y[i])]))
            [] c.f = "max_rel_error" -> IF n = 0 THEN V(Given(c.dflt, Int_(1))) ELSE IF zero THEN None ELSE V(Largest([i \in 1..n |-> RelErr(t, x[i], y[i])]))

(* ------------------- all questions about a few scalars ------------------- *)
Near1(t) == {Int_(1), NAdd(Int_(1), Ulp(t)), NSub(Int_(1), NMul(Ulp(t), Frac(1, -1))), NAdd(Int_(1), Hundred(t)), NAdd(Int_(1), NAdd(Hundred(t), Ulp(t)))}
Vals(t) == Near1(t) \cup {Zero0, Int_(-1), Int_(2), Frac(-3, -1), Hundred(t), Neg(NAdd(Hundred(t), NMul(Ulp(t), Frac(1, -1))))}
Tols(t) == {<<>>, <<Zero0>>, <<Ulp(t)>>, <<NSub(Hundred(t), NMul(Ulp(t), Frac(1, -4)))>>, <<Int_(1)>>, <<Frac(1, -1)>>, <<Neg(Ulp(t))>>}
Nears(t) == IF Depth > 1 THEN {<<>>, <<Zero0>>, <<Int_(1)>>, <<Ulp(t)>>, <<Int_(-1)>>} ELSE {<<>>, <<Zero0>>, <<Int_(1)>>}
Q(t, f, x, y, tol, near) == [t |-> t, f |-> f, sa |-> <<>>, sb |-> <<>>, a |-> <<x>>, b |-> <<y>>, tol |-> tol, near |-> near, dflt |-> <<>>, w |-> 0]
Init == s \in UNION {{[t |-> t, x |-> x, y |-> y] : x \in Vals(t), y \in Vals(t)} : t \in Types_} /\ last = <<>>
Ask(q) == last' = [c |-> q, o |-> Answer(q)] /\ UNCHANGED s
Next == /\ last = <<>>
        /\ \/ \E tol \in Tols(s.t) : Ask(Q(s.t, "abs", s.x, s.y, tol, <<>>))
           \/ \E tol \in Tols(s.t), near \in Nears(s.t) : Ask(Q(s.t, "rel", s.x, s.y, tol, IF tol = <<>> THEN <<>> ELSE near))
           \/ Ask(Q(s.t, "abs_error", s.x, s.y, <<>>, <<>>))
           \/ Ask(Q(s.t, "rel_error", s.x, s.y, <<>>, <<>>))
Spec == Init /\ [][Next]_vars
View == <<s, last>>

(* ------------------------------- properties ------------------------------- *)
Yes(o) == o = B(TRUE)
A(f, x, y, tol, near) == Answer(Q(s.t, f, x, y, tol, near))
\* the comparisons do not depend on the order of their arguments
Laws == last = <<>>        \* laws are about the pair, not about what was asked
Symmetric == Laws => \A tol \in Tols(s.t), near \in Nears(s.t) :
               /\ A("abs", s.x, s.y, tol, <<>>) = A("abs", s.y, s.x, tol, <<>>)
               /\ A("rel", s.x, s.y, tol, near) = A("rel", s.y, s.x, tol, near)
\* a number is within every tolerance of itself, and a larger tolerance admits more
Reflexive == Laws => \A tol \in Tols(s.t) : LET o == A("abs", s.x, s.x, tol, <<>>) r == A("rel", s.x, s.x, tol, <<Zero0>>) IN o # Err => Yes(o) /\ Yes(r)
Monotone == Laws => \A p \in Tols(s.t), r \in Tols(s.t) :
              (p # <<>> /\ r # <<>> /\ NonNeg(p[1]) /\ NLe(p[1], r[1])) =>
                /\ Yes(A("abs", s.x, s.y, p, <<>>)) => Yes(A("abs", s.x, s.y, r, <<>>))
                /\ Yes(A("rel", s.x, s.y, p, <<>>)) => Yes(A("rel", s.x, s.y, r, <<>>))
\* the comparison with the measured error as tolerance holds
Tight == Laws =>
         /\ Yes(A("abs", s.x, s.y, <<A("abs_error", s.x, s.y, <<>>, <<>>).v[2]>>, <<>>))
         /\ LET e == A("rel_error", s.x, s.y, <<>>, <<>>) IN (e # None /\ NLe(AbsN(s.x), AbsN(s.y))) => Yes(A("rel", s.x, s.y, <<e.v[2]>>, <<Zero0>>))
OnlyNegative == [][last'.o = Err <=> \E q \in {last'.c.tol, last'.c.near} : q # <<>> /\ NLt(q[1], Zero0)]_vars
===========================================================================
