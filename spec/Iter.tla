------------------------------- MODULE Iter -------------------------------
(* Iterators.  Two objects of the same kind (array, view or expression) and *)
(* a few iterator variables.  An iterator is nowhere (a = 0) or at a        *)
(* position of object 1 or 2; what it visits is a sequence of items, each a *)
(* sequence of base positions (one element, one row or one column).         *)
EXTENDS Paths
CONSTANTS Shapes, Flavours, Regs, Jumps
VARIABLES s, last
vars == <<s, last>>

Linear == {"fwd", "cfwd", "rev", "crev"}
RowFl == {"row", "crow", "rrow"}
ColFl == {"col", "ccol", "rcol"}
Items(v, fl) ==
  LET A == MatOf(v)
      it == IF fl \in Linear THEN [k \in 1..Len(v.pos) |-> <<v.pos[k]>>]
            ELSE IF fl \in RowFl THEN [k \in 1..v.m |-> Row(A, k - 1)]
            ELSE [k \in 1..v.n |-> Col(A, k - 1)]
  IN IF fl \in {"rev", "crev", "rrow", "rcol"} THEN Rev(it) ELSE it
Writable(fl) == fl \in {"fwd", "rev", "row", "col", "rrow", "rcol"}

\* q = [items, it, d]; d = <<contents of base 1, contents of base 2>>
N(q) == Len(q.items)
Nowhere == [a |-> 0, p |-> 0]
Stay(q, o) == [o |-> o, t |-> q]
Set(q, r, i) == [o |-> Ok, t |-> [q EXCEPT !.it[r] = i]]
Rejected(q) == Stay(q, Err)
Value(q, i, k) == Pick(q.d[i.a], q.items[i.p + k + 1])
Here(q, i, k) == i.a # 0 /\ InRange(N(q), i.p + k)
RECURSIVE Fill(_, _, _)
Fill(d, pos, x) == IF pos = <<>> THEN d ELSE Fill([d EXCEPT ![Head(pos) + 1] = x], Tail(pos), x)
B2(b) == OkV(<<IF b THEN 1 ELSE 0>>)
Rel(f, a, b) == CASE f = "==" -> a = b [] f = "!=" -> a # b [] f = "<" -> a < b [] f = "<=" -> a <= b [] f = ">" -> a > b [] f = ">=" -> a >= b
\* r, q are iterator variables 1..Regs; k a number
Do(q, c) ==
  LET i == q.it[c.r]
      j == q.it[c.q]
      Move(dst, n) == IF i.a = 0 THEN Rejected(q) ELSE Set(q, dst, [i EXCEPT !.p = @ + n])
  IN
  CASE c.op = "none"  -> Set(q, c.r, Nowhere)
    [] c.op = "begin" -> Set(q, c.r, [a |-> c.k, p |-> 0])
    [] c.op = "end"   -> Set(q, c.r, [a |-> c.k, p |-> N(q)])
    [] c.op = "copy"  -> Set(q, c.q, i)
    [] c.op = "inc"   -> Move(c.r, 1)
    [] c.op = "dec"   -> Move(c.r, -1)
    [] c.op = "+="    -> Move(c.r, c.k)
    [] c.op = "-="    -> Move(c.r, -c.k)
    [] c.op = "+"     -> Move(c.q, c.k)
    [] c.op = "k+"    -> Move(c.q, c.k)
    [] c.op = "-"     -> Move(c.q, -c.k)
    \* q receives the old value, r moves (r # q)
    [] c.op = "post++" -> IF i.a = 0 THEN Rejected(q) ELSE [o |-> Ok, t |-> [q EXCEPT !.it[c.q] = i, !.it[c.r].p = @ + 1]]
    [] c.op = "post--" -> IF i.a = 0 THEN Rejected(q) ELSE [o |-> Ok, t |-> [q EXCEPT !.it[c.q] = i, !.it[c.r].p = @ - 1]]
    [] c.op = "diff"  -> IF i.a = 0 \/ i.a # j.a THEN Rejected(q) ELSE Stay(q, OkV(<<i.p - j.p>>))
    [] c.op = "cmp"   -> IF i.a = 0 \/ i.a # j.a THEN Rejected(q) ELSE Stay(q, B2(Rel(c.f, i.p, j.p)))
    [] c.op \in {"*", "->"} -> IF Here(q, i, 0) THEN Stay(q, OkV(Value(q, i, 0))) ELSE Rejected(q)
    [] c.op = "[]"    -> IF Here(q, i, c.k) THEN Stay(q, OkV(Value(q, i, c.k))) ELSE Rejected(q)
    [] c.op = "set"   -> IF Here(q, i, c.k) THEN [o |-> Ok, t |-> [q EXCEPT !.d[i.a] = Fill(@, q.items[i.p + c.k + 1], c.x)]] ELSE Rejected(q)
    [] c.op = "some"  -> Stay(q, B2(i.a # 0))
    \* a complete traversal from begin to end
    [] c.op = "visit" -> Stay(q, OkV(Fold(LAMBDA a, b : a \o Pick(q.d[c.k], b), <<>>, q.items)))

\* moves that leave [0, N] are outside the contract and are never asked
Lands(q, r, n) == q.it[r].a = 0 \/ (0 <= q.it[r].p + n /\ q.it[r].p + n <= N(q))
Asked(q, c) == CASE c.op \in {"inc", "post++"} -> Lands(q, c.r, 1)
                 [] c.op \in {"dec", "post--"} -> Lands(q, c.r, -1)
                 [] c.op \in {"+=", "+", "k+"} -> Lands(q, c.r, c.k)
                 [] c.op \in {"-=", "-"} -> Lands(q, c.r, -c.k)
                 [] OTHER -> TRUE

(* ---- index ranges: a register is a position in an m x n grid ---- *)
GDo(q, c) ==
  LET i == q.it[c.r]
      j == q.it[c.q]
      size(x) == x.m * x.n
      same == i.m = j.m /\ i.n = j.n
  IN
  CASE c.op = "none"  -> Set(q, c.r, [m |-> 0, n |-> 0, p |-> 0])
    [] c.op = "begin" -> IF ShapeOk(c.m, c.n) THEN Set(q, c.r, [m |-> c.m, n |-> c.n, p |-> 0]) ELSE Rejected(q)
    [] c.op = "end"   -> IF ShapeOk(c.m, c.n) THEN Set(q, c.r, [m |-> c.m, n |-> c.n, p |-> c.m * c.n]) ELSE Rejected(q)
    [] c.op = "copy"  -> IF same THEN Set(q, c.q, i) ELSE Rejected(q)
    [] c.op = "inc"   -> IF i.p < size(i) THEN Set(q, c.r, [i EXCEPT !.p = @ + 1]) ELSE Rejected(q)
    [] c.op = "post++" -> IF i.p < size(i) THEN [o |-> OkV(<<i.p \div i.n, i.p % i.n>>), t |-> [q EXCEPT !.it[c.r].p = @ + 1]] ELSE Rejected(q)
    [] c.op = "cmp"   -> IF same THEN Stay(q, B2(Rel(c.f, i.p, j.p))) ELSE Rejected(q)
    [] c.op = "*"     -> IF i.p < size(i) THEN Stay(q, OkV(<<i.p \div i.n, i.p % i.n>>)) ELSE Rejected(q)
    [] c.op = "visit" -> IF ShapeOk(c.m, c.n) THEN Stay(q, OkV([k \in 1..(2 * c.m * c.n) |-> LET p == (k - 1) \div 2 IN IF k % 2 = 1 THEN p \div c.n ELSE p % c.n]))
                         ELSE Rejected(q)

(* ---- whole sessions, for recorded histories ---- *)
Fresh(b, v, fl) == [items |-> Items(v, fl), it |-> [r \in 1..3 |-> Nowhere],
                    d |-> LET n == IF b.d = 1 THEN b.n ELSE b.m * b.n IN <<[k \in 1..n |-> k], [k \in 1..n |-> 100 + k]>>]
RECURSIVE Run(_, _, _, _)
Run(step(_, _), q, cs, os) == IF cs = <<>> THEN [o |-> Ok, t |-> [os |-> os, it |-> q.it, d |-> q.d]]
                              ELSE LET r == step(q, Head(cs)) IN Run(step, r.t, Tail(cs), Append(os, r.o))
\* a command that asks for a move outside the contract is reported as skipped and not executed
StepOrSkip(q, c) == IF Asked(q, c) THEN Do(q, c) ELSE Stay(q, [k |-> "skip", v |-> <<>>])
Session(in) ==
  LET w == Walk(Whole(in.base), in.path) IN
  IF in.fl = "grid" THEN Run(GDo, [it |-> [r \in 1..3 |-> [m |-> 0, n |-> 0, p |-> 0]], d |-> <<>>], in.cs, <<>>)
  ELSE IF ~w.ok THEN [o |-> Err, t |-> <<>>]
  ELSE Run(StepOrSkip, Fresh(in.base, w.v, in.fl), in.cs, <<>>)

(* ------------------------- exhaustive exploration ------------------------- *)
\* Shapes: bases; every base is used as it is, with every flavour that exists for it
Cmds(q) ==
  LET R == 1..Regs IN
  {[op |-> o, r |-> r, q |-> r, k |-> 0] : o \in {"none", "inc", "dec", "some", "*", "->"}, r \in R} \cup
  {[op |-> o, r |-> r, q |-> r, k |-> a] : o \in {"begin", "end"}, r \in R, a \in 1..2} \cup
  {[op |-> o, r |-> r, q |-> r, k |-> k] : o \in {"+=", "-=", "[]"}, r \in R, k \in Jumps} \cup
  {[op |-> o, r |-> 1, q |-> 2, k |-> k] : o \in {"+", "k+", "-"}, k \in Jumps} \cup
  {[op |-> o, r |-> r, q |-> p, k |-> 0] : o \in {"copy", "diff"}, r \in R, p \in R} \cup
  {[op |-> o, r |-> 1, q |-> 2, k |-> 0] : o \in {"post++", "post--"}} \cup
  {[op |-> "cmp", f |-> f, r |-> r, q |-> p, k |-> 0] : f \in {"==", "!=", "<", "<=", ">", ">="}, r \in R, p \in R} \cup
  (IF Writable(s.fl) THEN {[op |-> "set", r |-> r, q |-> r, k |-> k, x |-> 77] : r \in R, k \in {-1, 0, 1}} ELSE {}) \cup
  {[op |-> "visit", r |-> 1, q |-> 1, k |-> a] : a \in 1..2}
Core(q) == [items |-> q.items, it |-> q.it, d |-> q.d]
FlavoursOf(b) == Flavours \cap (IF b.d = 1 THEN Linear ELSE Linear \cup RowFl \cup ColFl)
Init == \E b \in Shapes : \E fl \in FlavoursOf(b) :
          /\ LET f == Fresh(b, Whole(b), fl) IN s = [base |-> b, fl |-> fl, items |-> f.items, it |-> [r \in 1..Regs |-> Nowhere], d |-> f.d]
          /\ last = <<>>
Next == \E c \in Cmds(s) :
          /\ Asked(s, c)
          /\ LET r == Do(Core(s), c) IN
             /\ s' = [base |-> s.base, fl |-> s.fl, items |-> r.t.items, it |-> r.t.it, d |-> r.t.d]
             /\ last' = [c |-> c, o |-> r.o]
Spec == Init /\ [][Next]_vars
View == s
Unwritten == s.d = Fresh(s.base, Whole(s.base), s.fl).d   \* state constraint: at most one write
(* ------------------------------- properties ------------------------------- *)
InBounds == \A r \in 1..Regs : s.it[r].a = 0 \/ InRange(N(s) + 1, s.it[r].p)
\* every element is visited exactly once by a complete traversal
ExactlyOnce == LET all == Fold(LAMBDA a, b : a \o b, <<>>, s.items) IN
               Cardinality(Range(all)) = Len(all) /\ Len(all) = Len(s.d[1])
\* random-access laws on the specification: (r + k) - r = k, r[k] = *(r + k), k + r = r + k
Laws == \A k \in Jumps : (s.it[1].a # 0 /\ Lands(s, 1, k)) =>
          LET c(o) == [op |-> o, r |-> 1, q |-> 2, k |-> k]
              t == Do(Core(s), c("+")).t
          IN /\ Do(t, [op |-> "diff", r |-> 2, q |-> 1, k |-> 0]).o = OkV(<<k>>)
             /\ Do(Core(s), c("[]")).o = Do(t, [op |-> "*", r |-> 2, q |-> 2, k |-> 0]).o
             /\ Do(t, [op |-> "cmp", f |-> "<", r |-> 1, q |-> 2, k |-> 0]).o = B2(k > 0)
OnlyItem == [][last'.c.op # "set" => s'.d = s.d]_vars
===========================================================================
