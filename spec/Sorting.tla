------------------------------ MODULE Sorting ------------------------------
(* Sorting, shuffling, filtering and visiting through selections and views. *)
(* Sorting with a partial order and shuffling are nondeterministic: Legal   *)
(* says which post-states are allowed, Posts lists them for small arrays.   *)
EXTENDS Paths
CONSTANTS Bases, Vals, Deep
VARIABLES s, last
vars == <<s, last>>

Before(f, a, b) == CASE f = "inc" -> a < b
                     [] f = "dec" -> a > b
                     [] f = "mod" -> a % 3 < b % 3     \* a partial order: classes modulo 3
                     [] f = "abs" -> Abs(a) > Abs(b)
Ordered(f, q) == \A k \in 1..(Len(q) - 1) : ~Before(f, q[k + 1], q[k])
Times_(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
IsPerm(p, q) == Len(p) = Len(q) /\ \A x \in Range(p) : Times_(p, x) = Times_(q, x)
Pred(p, x) == CASE p = "even" -> x % 2 = 0
                [] p = "pos" -> x > 0
                [] p = "none" -> FALSE
                [] p = "every" -> TRUE
\* a filter over a sequence of positions of d keeps the qualifying ones in order
FilterOk(g) == g.f = "cond" \/ g.lo <= g.hi
Keeps(g, x) == CASE g.f = "open" -> g.lo < x /\ x < g.hi
                 [] g.f = "closed" -> g.lo <= x /\ x <= g.hi
                 [] g.f = "cond" -> Pred(g.p, x)
RECURSIVE Filtered(_, _, _)
Filtered(d, pos, gs) == IF gs = <<>> THEN pos
                        ELSE Filtered(d, SelectSeq(pos, LAMBDA p : Keeps(Head(gs), d[p + 1])), Tail(gs))
RECURSIVE PutAll(_, _, _)
PutAll(d, pos, xs) == IF pos = <<>> THEN d ELSE PutAll([d EXCEPT ![Head(pos) + 1] = Head(xs)], Tail(pos), Tail(xs))
\* for_each with the function x -> 2x + 1 visits the elements in order, once per occurrence
RECURSIVE Visit(_, _, _)
Visit(d, pos, seen) == IF pos = <<>> THEN [d |-> d, seen |-> seen]
                       ELSE Visit([d EXCEPT ![Head(pos) + 1] = 2 * @ + 1], Tail(pos), Append(seen, d[Head(pos) + 1]))

SameElsewhere(d, e, pos) == Len(d) = Len(e) /\ \A k \in 1..Len(d) : (k - 1) \notin Range(pos) => d[k] = e[k]
Free(c) == c.op # "init" /\ c.a.k \in {"sort", "shuffle"}
\* the outcome of the deterministic commands
Det(q, c) ==
  IF c.op = "init" THEN [o |-> Ok, t |-> [base |-> c.base, d |-> c.d]]
  ELSE LET r == Walk(Whole(q.base), c.path)
           pos == r.v.pos
           a == c.a
           To(v, d) == [o |-> OkV(v), t |-> [base |-> q.base, d |-> d]]
       IN
       CASE ~r.ok -> [o |-> Err, t |-> q]
         [] a.k = "see" -> To(Pick(q.d, pos), q.d)
         [] a.k = "each" -> LET w == Visit(q.d, pos, <<>>) IN To(w.seen, w.d)
         [] a.k = "filter" ->
              IF ~\A k \in 1..Len(a.fs) : FilterOk(a.fs[k]) THEN [o |-> Err, t |-> q]
              ELSE LET f == Filtered(q.d, pos, a.fs) IN
                   To(Pick(q.d, f), IF a.wr = 1 THEN PutAll(q.d, f, Rep(Len(f), a.x)) ELSE q.d)
Legal(q, c, o, t) ==
  LET r == Walk(Whole(q.base), c.path) IN
  IF Free(c) /\ r.ok
  THEN LET pos == r.v.pos
           x == Pick(q.d, pos)
       IN /\ o = Ok /\ t.base = q.base /\ SameElsewhere(q.d, t.d, pos) /\ IsPerm(Pick(t.d, pos), x)
          /\ c.a.k = "sort" => Ordered(c.a.f, Pick(t.d, pos))
  ELSE LET z == IF Free(c) THEN [o |-> Err, t |-> q] ELSE Det(q, c) IN o = z.o /\ t = z.t
\* oracle form, for observations recorded elsewhere
Admits(in) == Legal(in.s, in.c, in.o, in.t)

(* -------------------- exhaustive exploration, small arrays -------------------- *)
Perms(n) == {p \in [1..n -> 1..n] : Cardinality(Range(p)) = n}
Posts(q, c) ==
  LET r == Walk(Whole(q.base), c.path)
      pos == r.v.pos
      x == Pick(q.d, pos)
  IN IF ~Free(c) THEN {Det(q, c)}
     ELSE IF ~r.ok THEN {[o |-> Err, t |-> q]}
     ELSE {z \in {[o |-> Ok, t |-> [base |-> q.base, d |-> PutAll(q.d, pos, [k \in 1..Len(pos) |-> x[p[k]]])]] : p \in Perms(Len(pos))} :
             Legal(q, c, z.o, z.t)}

Size(b) == IF b.d = 1 THEN b.n ELSE b.m * b.n
Filters == {[f |-> f, lo |-> lo, hi |-> hi] : f \in {"open", "closed"}, lo \in Vals, hi \in Vals} \cup {[f |-> "cond", p |-> p] : p \in {"even", "pos", "none", "every"}}
Actions(v) ==
  {[k |-> "sort", f |-> f] : f \in {"inc", "dec", "mod", "abs"}} \cup {[k |-> "see"], [k |-> "each"]} \cup
  (IF Len(v.pos) <= 3 THEN {[k |-> "shuffle"]} ELSE {}) \cup
  (IF v.d = 1 THEN {[k |-> "filter", fs |-> <<g>>, wr |-> w, x |-> 9] : g \in Filters, w \in 0..1} \cup
                   {[k |-> "filter", fs |-> <<g, [f |-> "cond", p |-> "even"]>>, wr |-> 1, x |-> 9] : g \in Filters}
   ELSE {})
PathsOf(b) ==
  LET v0 == Whole(b)
      k == Size(b)
      one == IF b.d = 1 THEN {<<S(x)>> : x \in {[sel |-> "rev"], [sel |-> "even"], [sel |-> "list", ix |-> <<k - 1, 0>>], [sel |-> "compl", ix |-> <<1>>],
                                                 [sel |-> "seqN", f |-> k - 1, c |-> k - 1, st |-> -1], [sel |-> "first", c |-> k + 1], [sel |-> "first", c |-> 0]}}
             ELSE {<<x>> : x \in {y \in Rep2(b.m, b.n) : ~(y.st = "sub" /\ y.r = [sel |-> "list", ix |-> <<0, 0>>])}}
  IN {<<>>} \cup one
Distinct(q) == Cardinality(Range(q)) = Len(q)
Init == s \in UNION {{[base |-> b, d |-> d] : d \in [1..Size(b) -> Vals]} : b \in Bases} /\ last = <<>>
Next == /\ last = <<>>
        /\ \E p \in PathsOf(s.base) :
             LET r == Walk(Whole(s.base), p) IN
             (r.ok => Distinct(r.v.pos)) /\
             \E a \in IF r.ok THEN Actions(r.v) ELSE {[k |-> "see"]} :
             LET c == [op |-> "do", path |-> p, a |-> a] IN
             \E z \in Posts(s, c) : s' = z.t /\ last' = [c |-> c, o |-> z.o]
Spec == Init /\ [][Next]_vars
View == <<s, last>>

(* ------------------------------- properties ------------------------------- *)
Touched(q, c) == LET r == Walk(Whole(q.base), c.path) IN IF r.ok THEN r.v.pos ELSE <<>>
OnlySelected == [][SameElsewhere(s.d, s'.d, Touched(s, last'.c))]_vars
KeepsElements == [][last'.c.a.k \in {"sort", "shuffle"} => IsPerm(s.d, s'.d)]_vars
\* a total order leaves exactly one result; sorting twice is sorting once
Determined == [][(last'.c.a.k = "sort" /\ last'.c.a.f \in {"inc", "dec"}) =>
                   Cardinality(Posts(s, last'.c)) = 1 /\ Posts(s', last'.c) = {[o |-> Ok, t |-> s']}]_vars
\* every command has an outcome
Total == \A p \in PathsOf(s.base) : LET r == Walk(Whole(s.base), p) IN
           (last = <<>> /\ r.ok /\ Distinct(r.v.pos)) => \A a \in {x \in Actions(r.v) : x.k \in {"sort", "shuffle"}} : Posts(s, [op |-> "do", path |-> p, a |-> a]) # {}
===========================================================================
