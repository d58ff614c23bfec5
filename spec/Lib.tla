------------------------------- MODULE Lib -------------------------------
(* Mathematical vocabulary shared by all specifications of strictpp:       *)
(* zero-based sequences, selectors of positions, row-major matrices and    *)
(* outcomes.  Nothing here mentions how the library computes anything.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* C-style (truncated) division and remainder, b # 0 *)
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)

(* ---- zero-based sequences ---- *)
At(q, i) == q[i + 1]
InRange(n, i) == 0 <= i /\ i < n
Rep(n, x) == [k \in 1..n |-> x]
Cut(q, b, e) == [k \in 1..(e - b) |-> q[b + k]]      \* positions b .. e-1
Set0(q, i, x) == [q EXCEPT ![i + 1] = x]
Pick(q, ix) == [k \in 1..Len(ix) |-> q[ix[k] + 1]]   \* elements at the positions ix
InsertAt(q, p, r) == Cut(q, 0, p) \o r \o Cut(q, p, Len(q))
RemoveAt(q, p, c) == Cut(q, 0, p) \o Cut(q, p + c, Len(q))
Range(q) == {q[k] : k \in 1..Len(q)}
Upto(n) == [k \in 1..n |-> k - 1]                    \* <<0, 1, .., n-1>>
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Map(q, f(_)) == [k \in 1..Len(q) |-> f(q[k])]
StrictlyUp(ix) == \A k \in 1..(Len(ix) - 1) : ix[k] < ix[k + 1]
AllIn(ix, n) == \A k \in 1..Len(ix) : InRange(n, ix[k])
Without(n, ix) == SelectSeq(Upto(n), LAMBDA p : p \notin Range(ix))
RECURSIVE Fold(_, _, _)
Fold(f(_, _), x, q) == IF q = <<>> THEN x ELSE Fold(f, f(x, Head(q)), Tail(q))
Plus(a, b) == a + b
SumSeq(q) == Fold(Plus, 0, q)
Times(a, b) == a * b
ProdSeq(q) == Fold(Times, 1, q)

(* ---- outcomes ---- *)
Ok == [k |-> "ok", v |-> <<>>]
OkV(v) == [k |-> "ok", v |-> v]
Err == [k |-> "err", v |-> <<>>]
Abort == [k |-> "abort", v |-> <<>>]

(* ---- selectors: Sel(n, c) is the sequence of positions of a length-n   *)
(* sequence that selector c describes; SelOk(n, c) says it is valid.      *)
SeqNOk(n, b, cnt, st) ==
  /\ b >= 0 /\ cnt >= 0
  /\ cnt > 0 => (InRange(n, b) /\ InRange(n, b + st * (cnt - 1)))
SeqN(b, cnt, st) == [k \in 1..cnt |-> b + (k - 1) * st]
SeqOk(n, f, l, st) ==
  /\ InRange(n, f) /\ InRange(n, l)
  /\ \/ st > 0 /\ f <= l
     \/ st < 0 /\ f >= l
     \/ st = 0 /\ f = l
SeqPos(f, l, st) == IF st = 0 THEN <<f>> ELSE SeqN(f, Abs(l - f) \div Abs(st) + 1, st)

SelOk(n, c) ==
  CASE c.sel = "seq"   -> SeqOk(n, c.f, c.l, c.st)
    [] c.sel = "seqN"  -> SeqNOk(n, c.f, c.c, c.st)
    [] c.sel = "all"   -> TRUE
    [] c.sel = "even"  -> TRUE
    [] c.sel = "odd"   -> TRUE
    [] c.sel = "rev"   -> TRUE
    [] c.sel = "skip"  -> c.c > 0
    [] c.sel = "first" -> 0 <= c.c /\ c.c <= n
    [] c.sel = "last"  -> 0 <= c.c /\ c.c <= n
    [] c.sel = "list"  -> AllIn(c.ix, n)
    [] c.sel = "compl" -> StrictlyUp(c.ix) /\ AllIn(c.ix, n)

Sel(n, c) ==
  CASE c.sel = "seq"   -> SeqPos(c.f, c.l, c.st)
    [] c.sel = "seqN"  -> SeqN(c.f, c.c, c.st)
    [] c.sel = "all"   -> Upto(n)
    [] c.sel = "even"  -> SelectSeq(Upto(n), LAMBDA p : p % 2 = 0)
    [] c.sel = "odd"   -> SelectSeq(Upto(n), LAMBDA p : p % 2 = 1)
    [] c.sel = "rev"   -> Rev(Upto(n))
    [] c.sel = "skip"  -> SelectSeq(Upto(n), LAMBDA p : p % c.c = 0)
    [] c.sel = "first" -> Upto(c.c)
    [] c.sel = "last"  -> [k \in 1..c.c |-> n - c.c + k - 1]
    [] c.sel = "list"  -> c.ix
    [] c.sel = "compl" -> Without(n, c.ix)

(* ---- row-major matrices: [m, n, d] ---- *)
ShapeOk(m, n) == m >= 0 /\ n >= 0 /\ (m = 0 <=> n = 0)
Mx(m, n, f(_, _)) == [m |-> m, n |-> n,
                      d |-> [k \in 1..(m * n) |-> f((k - 1) \div n, (k - 1) % n)]]
El(A, i, j) == A.d[i * A.n + j + 1]
MEmpty == [m |-> 0, n |-> 0, d |-> <<>>]
Const2(m, n, x) == [m |-> m, n |-> n, d |-> Rep(m * n, x)]
PickRC(A, ri, ci) ==
  IF ri = <<>> \/ ci = <<>> THEN MEmpty
  ELSE Mx(Len(ri), Len(ci), LAMBDA i, j : El(A, ri[i + 1], ci[j + 1]))
Row(A, i) == [k \in 1..A.n |-> El(A, i, k - 1)]
Col(A, j) == [k \in 1..A.m |-> El(A, k - 1, j)]
WellShaped(A) == ShapeOk(A.m, A.n) /\ Len(A.d) = A.m * A.n
DiagIx(A, o) ==  \* linear positions of the diagonal with column offset o
  LET r0 == IF o < 0 THEN -o ELSE 0
      c0 == IF o > 0 THEN o ELSE 0
  IN [k \in 1..Min2(A.m - r0, A.n - c0) |-> (r0 + k - 1) * A.n + (c0 + k - 1)]
===========================================================================
