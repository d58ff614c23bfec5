------------------------------- MODULE Writes -------------------------------
(* Writing through selections and views.  The state is the contents of one  *)
(* underlying array; a write walks a path of selecting calls and changes    *)
(* exactly the positions the resulting view denotes.                        *)
EXTENDS Paths
CONSTANTS Bases, Xs, Kinds, Deep
VARIABLES s, last
vars == <<s, last>>

(* ---- scalar operators, on integers ---- *)
Word == 1048576
U(a) == a % Word
Sg(a) == IF a >= Word \div 2 THEN a - Word ELSE a
RECURSIVE Bits(_, _, _, _)
Bits(f, a, b, k) ==  \* bitwise combination of k bits
  IF k = 0 THEN 0
  ELSE LET x == a % 2
           y == b % 2
           r == CASE f = "&" -> IF x = 1 /\ y = 1 THEN 1 ELSE 0
                  [] f = "|" -> IF x = 1 \/ y = 1 THEN 1 ELSE 0
                  [] f = "^" -> IF x # y THEN 1 ELSE 0
       IN r + 2 * Bits(f, a \div 2, b \div 2, k - 1)
Bit(f, a, b) == Sg(Bits(f, U(a), U(b), 20))
Pow2(k) == 2 ^ k
OpOk(f, a, b) == CASE f \in {"/", "%"} -> b # 0
                   [] f \in {"<<", ">>"} -> a >= 0 /\ b >= 0  \* wider than the type is undefined and never asked
                   [] OTHER -> TRUE
Op2(f, a, b) ==
  CASE f = "+" -> a + b
    [] f = "-" -> a - b
    [] f = "*" -> a * b
    [] f = "/" -> TDiv(a, b)
    [] f = "%" -> TMod(a, b)
    [] f = "<<" -> a * Pow2(b)
    [] f = ">>" -> a \div Pow2(b)
    [] OTHER -> Bit(f, a, b)

Fault == [k |-> "fault", v |-> <<>>]
Rej == [o |-> Err, t |-> s]
To(q, d) == [o |-> Ok, t |-> [base |-> q.base, d |-> d]]
RECURSIVE Put(_, _, _)
Put(d, pos, xs) == IF pos = <<>> THEN d ELSE Put([d EXCEPT ![Head(pos) + 1] = Head(xs)], Tail(pos), Tail(xs))
RECURSIVE Comb(_, _, _, _)
Comb(f, d, pos, xs) == IF pos = <<>> THEN d
                       ELSE Comb(f, [d EXCEPT ![Head(pos) + 1] = Op2(f, @, Head(xs))], Tail(pos), Tail(xs))
RECURSIVE CombOk(_, _, _, _)
CombOk(f, d, pos, xs) == IF pos = <<>> THEN TRUE
                         ELSE OpOk(f, d[Head(pos) + 1], Head(xs)) /\
                              CombOk(f, [d EXCEPT ![Head(pos) + 1] = Op2(f, @, Head(xs))], Tail(pos), Tail(xs))
\* an operand: a sequence for one-dimensional views, a matrix for two-dimensional ones
Fits(v, A) == IF v.d = 1 THEN A.m = -1 /\ Len(A.d) = Len(v.pos) ELSE A.m = v.m /\ A.n = v.n
TwinOf(q) == [k \in 1..Len(q.d) |-> 100 + k]

Write(q, v, a) ==
  LET no == [o |-> Err, t |-> q]
      pos == v.pos
  IN
  CASE a.k = "fill" -> To(q, Put(q.d, pos, Rep(Len(pos), a.x)))
    [] a.k = "list" -> IF v.d = 1 /\ Len(a.xs) = Len(pos) THEN To(q, Put(q.d, pos, a.xs)) ELSE no
    [] a.k = "rows" -> IF v.d = 2 /\ v.m = a.A.m /\ v.n = a.A.n THEN To(q, Put(q.d, pos, a.A.d)) ELSE no
    [] a.k = "arr"  -> IF Fits(v, a.A) THEN To(q, Put(q.d, pos, a.A.d)) ELSE no
    [] a.k = "expr" -> IF Fits(v, a.A) THEN To(q, Put(q.d, pos, [k \in 1..Len(pos) |-> a.A.d[k] * a.x + a.y])) ELSE no
    [] a.k = "twin" -> To(q, Put(q.d, pos, Pick(TwinOf(q), pos)))
    [] a.k = "cs"   -> LET xs == Rep(Len(pos), a.x) IN
                       IF CombOk(a.f, q.d, pos, xs) THEN To(q, Comb(a.f, q.d, pos, xs)) ELSE [o |-> Fault, t |-> q]
    [] a.k = "ca"   -> IF ~Fits(v, a.A) THEN no
                       ELSE IF CombOk(a.f, q.d, pos, a.A.d) THEN To(q, Comb(a.f, q.d, pos, a.A.d)) ELSE [o |-> Fault, t |-> q]
    [] a.k = "elem" -> IF InRange(Len(pos), a.i) THEN To(q, Put(q.d, <<pos[a.i + 1]>>, <<a.x>>)) ELSE no

Size(b) == IF b.d = 1 THEN b.n ELSE b.m * b.n
Step(q, c) ==
  IF c.op = "init" THEN [o |-> Ok, t |-> [base |-> c.base, d |-> [k \in 1..Size(c.base) |-> k]]]
  ELSE LET r == Walk(Whole(q.base), c.path) IN
       IF r.ok THEN Write(q, r.v, c.a) ELSE [o |-> Err, t |-> q]

(* ---------------- exhaustive: one write from the initial contents ---------------- *)
Mats(m, n) == {[m |-> m, n |-> n, d |-> [k \in 1..(m * n) |-> 20 + k]]}
Seqs1(n) == {[m |-> -1, n |-> n, d |-> [k \in 1..n |-> IF n = 3 THEN 31 - k ELSE 40 + k]]}
Operands(v) == IF v.d = 1 THEN UNION {Seqs1(n) : n \in {Len(v.pos), Len(v.pos) + 1} \cup (IF v.pos = <<>> THEN {} ELSE {Len(v.pos) - 1})}
               ELSE Mats(v.m, v.n) \cup (IF v.m = 0 THEN Mats(1, 1) ELSE Mats(v.n, v.m) \cup Mats(v.m + 1, v.n) \cup Mats(0, 0))
Small(A) == [A EXCEPT !.d = [k \in 1..Len(A.d) |-> ((k * 7) % 4)]]
Fs == {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"}
Distinct(q) == Cardinality(Range(q)) = Len(q)
Actions(v) ==
  {[k |-> "fill", x |-> x] : x \in Xs} \cup
  (IF Distinct(v.pos) THEN
     {[k |-> "arr", A |-> A] : A \in Operands(v)} \cup {[k |-> "expr", A |-> A, x |-> 3, y |-> -2] : A \in Operands(v)} \cup
     {x \in {[k |-> "ca", f |-> f, A |-> A] : f \in Fs, A \in Operands(v) \cup {Small(A) : A \in Operands(v)}} :
        \* results stay representable
        x.f \in {"<<", ">>"} => \A k \in 1..Len(x.A.d) : x.A.d[k] < 8} \cup
     {[k |-> "cs", f |-> f, x |-> x] : f \in Fs, x \in Xs} \cup {[k |-> "twin"]} \cup
     {[k |-> "elem", i |-> i, x |-> 77] : i \in (-1)..Len(v.pos)} \cup
     (IF v.d = 1 THEN {[k |-> "list", xs |-> A.d] : A \in Operands(v)}
      ELSE {[k |-> "rows", A |-> A] : A \in Operands(v)})
   ELSE {})
\* the whole array, every representative step, and (Deep) every pair of them
PathsOf(b) ==
  LET v0 == Whole(b)
      one == {<<x>> : x \in Reps(v0) \cup (IF b.d = 1 THEN {S(z) : z \in FewSels(b.n)}
                                          ELSE {[st |-> "rows", s |-> z] : z \in FewSels(b.m)} \cup {[st |-> "cols", s |-> z] : z \in FewSels(b.n)})}
      two == UNION {LET r == Walk(v0, <<x>>) IN IF r.ok THEN {<<x, y>> : y \in Reps(r.v)} ELSE {} : x \in Reps(v0)}
  IN {<<>>} \cup one \cup (IF Deep THEN two ELSE {})
Init == s \in {[base |-> b, d |-> [k \in 1..Size(b) |-> k]] : b \in Bases} /\ last = <<>>
Do(c) == LET r == Step(s, c) IN s' = r.t /\ last' = [c |-> c, o |-> r.o]
Next == /\ last = <<>>
        /\ \E p \in PathsOf(s.base) :
             LET r == Walk(Whole(s.base), p) IN
             \E a \in IF r.ok THEN {x \in Actions(r.v) : x.k \in Kinds} ELSE {[k |-> "fill", x |-> 5]} : Do([op |-> "write", path |-> p, a |-> a])
Spec == Init /\ [][Next]_vars
View == <<s, last>>

(* ------------------------------- properties ------------------------------- *)
\* only positions the view denotes change; a rejected write changes nothing
OnlySelected == [][last'.o.k = "ok" =>
                     LET v == Walk(Whole(s.base), last'.c.path).v IN
                     \A k \in 1..Len(s.d) : (k - 1) \notin Range(v.pos) => s'.d[k] = s.d[k]]_vars
RejectedWritesNothing == [][last'.o.k # "ok" => s' = s]_vars
\* what is read back through the same path after a plain assignment is what was assigned
ReadBack == [][(last'.o.k = "ok" /\ last'.c.a.k \in {"arr", "list", "rows"}) =>
                 LET v == Walk(Whole(s.base), last'.c.path).v IN
                 Pick(s'.d, v.pos) = IF last'.c.a.k = "list" THEN last'.c.a.xs ELSE last'.c.a.A.d]_vars
SizeKept == Len(s.d) = Size(s.base)
===========================================================================
