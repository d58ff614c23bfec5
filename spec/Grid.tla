------------------------------- MODULE Grid -------------------------------
(* Generated sequences of floating numbers.  Element i of a sequence is      *)
(* start + i * step, of an evenly spaced grid start + i * (end - start) /    *)
(* (n - 1), each element on its own up to a few roundings: no error builds   *)
(* up along the sequence.  The question c gives the type, the size, the      *)
(* parameters and the positions looked at; o lists the elements there.       *)
EXTENDS Types
CONSTANTS Starts, Steps, Length
VARIABLES q, last
vars == <<q, last>>

Prec(t) == Fmt(t).p
Unit(t, k, m) == NMul(Num(0, <<1>>, -k * Prec(t)), Int_(m))
Within(r, e, d) == NLe(AbsN(NSub(r, e)), d)
\* e = a + b, r is computed from b with k and from the sum with j roundings
Sum_(t, r, a, b, k, j) == LET e == NAdd(a, b) IN Within(r, e, NAdd(NMul(Unit(t, 1, k), AbsN(b)), NAdd(NMul(Unit(t, 1, j), AbsN(e)), NMul(Unit(t, 2, 8), NAdd(AbsN(a), AbsN(b))))))
SeqAt(t, r, s, h, i) == Sum_(t, r, s, NMul(h, Int_(i)), 2, 2)
\* multiplied by n - 1, so that nothing has to be divided
LinAt(t, r, n, s, z, i) ==
  IF n = 1 THEN NEq(r, s)
  ELSE LET N == Int_(n - 1)
           b == NMul(NSub(z, s), Int_(i))
           e == NAdd(NMul(s, N), b)
       IN Within(NMul(r, N), e, NAdd(NMul(Unit(t, 1, 5), AbsN(b)), NAdd(NMul(Unit(t, 1, 2), AbsN(e)), NMul(Unit(t, 2, 16), NAdd(NMul(AbsN(s), N), AbsN(b))))))
Admits(in) ==
  LET c == in.c
      o == in.o
  IN IF c.n < 0 \/ (c.f = "lin" /\ c.n = 0) THEN o = Err
     ELSE /\ o.k = "ok" /\ Len(o.v) = Len(c.ix) + 1
          /\ o.v[1] = c.n
          /\ \A k \in 1..Len(c.ix) : LET r == o.v[k + 1] IN IsNum(r) /\ (IF c.f = "seq" THEN SeqAt(c.t, r, c.s, c.h, c.ix[k]) ELSE LinAt(c.t, r, c.n, c.s, c.h, c.ix[k]))

(* ---- over a format small enough to explore: computed element by element ---- *)
t0 == "tiny"
Letter(i) == IF i < 0 THEN Neg(Frac(-i, -2)) ELSE Frac(i, -2)
Elem(s, h, i) == FAdd(t0, s, FMul(t0, h, Int_(i)))
Init == q = <<>> /\ last = 0
Next == q = <<>> /\ \E s \in Starts, h \in Steps, i \in 0..Length : q' = <<Letter(s), Letter(h), i>> /\ last' = 1
Spec == Init /\ [][Next]_vars
View == q
Meets == q # <<>> => SeqAt(t0, Elem(q[1], q[2], q[3]), q[1], q[2], q[3])
\* adding the step again and again does not meet it
RECURSIVE Pile(_, _, _)
Pile(s, h, i) == IF i = 0 THEN s ELSE FAdd(t0, Pile(s, h, i - 1), h)
Drifts == \E s \in Starts, h \in Steps : ~SeqAt(t0, Pile(Letter(s), Letter(h), Length), Letter(s), Letter(h), Length)
===========================================================================
