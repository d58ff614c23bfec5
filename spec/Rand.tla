------------------------------- MODULE Rand -------------------------------
(* Random and pseudo-random numbers.  Which numbers are drawn is open: the *)
(* specification says what may be observed of a request.  A request names  *)
(* the function family, the element type, the bounds, the seed and what is *)
(* filled; the answer lists the numbers drawn or everything in the filled  *)
(* arrays afterwards, including elements that had to stay as they were.    *)
EXTENDS Types
CONSTANTS Types_, Seeds, Spread
VARIABLES s, last
vars == <<s, last>>

(* bounds: with defaults, zero and one *)
Low(c) == IF c.dflt = 1 THEN Int_(0) ELSE c.low
High(c) == IF c.dflt = 1 THEN Int_(1) ELSE c.high
ValidBounds(c) == /\ NLe(Low(c), High(c))
                  /\ c.not0 = 1 => ~(IsZero(Low(c)) /\ IsZero(High(c)))
\* floating bounds whose distance overflows are outside the domain; extended
\* precision numbers are drawn as double precision numbers, between such bounds
InDomain(c) == /\ IsNum(Low(c)) /\ IsNum(High(c))
               /\ Fits(c.t, Low(c)) /\ Fits(c.t, High(c))
               /\ c.t \in FloatTypes => \A x \in {Low(c), High(c)} : x.e + BitLen(x.m) < Fmt(c.t).top
               /\ c.t = "quad" => Fits("double", Low(c)) /\ Fits("double", High(c))
Drawn(c, x) == /\ Fits(c.t, x)
               /\ NLe(Low(c), x) /\ NLe(x, High(c))
               /\ c.not0 = 1 => ~IsZero(x)
AllDrawn(c, q) == \A i \in 1..Len(q) : Drawn(c, q[i])

(* what is filled: the array a of length n, or the m x k matrix b *)
N1 == 7
M2 == 3
N2 == 4
Whole1 == [sel |-> "all"]
Picked1(w) == CASE w \in {"a", "multi"} -> Upto(N1)
                [] w = "even" -> SelectSeq(Upto(N1), LAMBDA p : p % 2 = 0)
                [] w = "rev" -> Rev(Upto(N1))
                [] w = "list" -> <<5, 1, 2>>
                [] OTHER -> <<>>
Picked2(w) == CASE w \in {"b", "multi"} -> Upto(M2 * N2)
                [] w = "row" -> [i \in 1..N2 |-> N2 + i - 1]
                [] w = "col" -> [i \in 1..M2 |-> 2 + (i - 1) * N2]
                [] w = "diag" -> [i \in 1..M2 |-> (i - 1) * (N2 + 1)]
                [] w = "blk" -> <<0, 3, 8, 11>>
                [] OTHER -> <<>>
Before1(c) == [i \in 1..N1 |-> c.old]
Before2(c) == [i \in 1..(M2 * N2) |-> c.old]
Filled(c, q, ix) == \A i \in 1..Len(q) : IF (i - 1) \in Range(ix) THEN Drawn(c, q[i]) ELSE q[i] = c.old
\* whatever was given as the size has to be a size
SizeOk(c) == CASE c.form = "expr1" -> c.n >= 0 [] c.form = "expr2" -> ShapeOk(c.n, c.k) [] OTHER -> TRUE
Legal(c, o) ==
  IF ~ValidBounds(c) \/ ~SizeOk(c) THEN o.k = "err" /\ o.v.a = Before1(c) /\ o.v.b = Before2(c)
  ELSE /\ o.k = "ok"
       /\ CASE c.form = "scalar" -> Len(o.v.q) = c.n /\ AllDrawn(c, o.v.q) /\ o.v.a = Before1(c) /\ o.v.b = Before2(c)
            [] c.form = "fill" -> /\ Len(o.v.a) = N1 /\ Len(o.v.b) = M2 * N2
                                  /\ Filled(c, o.v.a, Picked1(c.what)) /\ Filled(c, o.v.b, Picked2(c.what))
            [] c.form = "expr1" -> Len(o.v.q) = c.n /\ AllDrawn(c, o.v.q)
            [] c.form = "expr2" -> Len(o.v.q) = c.n * c.k /\ AllDrawn(c, o.v.q)
       \* a lazy request tells the bounds it was made with
       /\ o.v.lh = <<>> \/ (c.form \in {"expr1", "expr2"} /\ Len(o.v.lh) = 2 /\ NEq(o.v.lh[1], Low(c)) /\ NEq(o.v.lh[2], High(c)))
       \* the same request with the same seed gives the same numbers
       /\ c.semi = 1 => o.v.again = 1
Admits(in) == Legal(in.c, in.o)

(* ------------------------------- requests ------------------------------- *)
Fr(n, e) == Frac(n, e)
Edge(t) == CASE t = "bool" -> {Int_(0), Int_(1)}
             [] t \in IntTypes -> {Int_(0), Int_(1), Int_(2), Int_(7), MaxInt(t), NSub(MaxInt(t), Int_(1))}
                                  \cup (IF Signed(t) THEN {Int_(-1), Int_(-3), MinInt(t), Clean(NAdd(MinInt(t), Int_(1)))} ELSE {})
             [] OTHER -> {Int_(0), Int_(1), Int_(-1), Fr(5, -1), Fr(-3, -2), Fr(1, -20), Num(0, <<1>>, 40), Num(1, <<1>>, 40), Num(0, <<1>>, Fmt(t).low), Num(0, <<1>>, Fmt(t).top - 2)}
Forms == {"scalar", "expr1", "expr2"}
Whats == {"a", "even", "rev", "list", "b", "row", "col", "diag", "blk"}
Req(t, semi, not0, form) == [t |-> t, semi |-> semi, not0 |-> not0, form |-> form, what |-> "a", n |-> IF form = "scalar" THEN 8 ELSE IF form = "expr1" THEN 9 ELSE 3, k |-> 4,
                             dflt |-> 0, low |-> Int_(0), high |-> Int_(1), named |-> 0, seed |-> -1, old |-> IF t = "bool" THEN Int_(0) ELSE Int_(100)]
Shapes_ == {<<form, "a">> : form \in Forms} \cup {<<"fill", w>> : w \in Whats}
Nots(t) == IF t = "bool" THEN {0} ELSE {0, 1}
Seeded(c) == IF c.semi = 0 THEN {-1} ELSE {-1} \cup Seeds
\* a few bounds with everything else
Few == {<<Int_(2), Int_(7)>>, <<Int_(7), Int_(2)>>, <<Int_(0), Int_(0)>>, <<Int_(3), Int_(3)>>, <<Int_(0), Int_(1)>>}
\* bounds around zero
Near(t) == IF t \in {"uint", "ulong"} THEN 0..Spread ELSE (-Spread)..Spread
Ask(c) == s' = c /\ last' = 1
\* default bounds; filling with default bounds takes no seed
Default(t) == \E semi \in {0, 1}, not0 \in Nots(t), sh \in Shapes_, nm \in {0, 1} :
  LET c == [Req(t, semi, not0, sh[1]) EXCEPT !.what = sh[2], !.dflt = 1, !.named = nm]
  IN \E z \in IF sh[1] = "fill" THEN {-1} ELSE Seeded(c) : Ask([c EXCEPT !.seed = z])
Several(t) == t # "bool" /\ \E semi \in {0, 1}, not0 \in {0, 1} : Ask([Req(t, semi, not0, "fill") EXCEPT !.what = "multi", !.dflt = 1])
Sizes(t) == \E semi \in {0, 1}, not0 \in Nots(t), form \in {"expr1", "expr2"}, n \in -1..2, k \in -1..1 : (form = "expr1" => k = 1) /\
  Ask([Req(t, semi, not0, form) EXCEPT !.dflt = 1, !.n = n, !.k = k])
FewBounds(t) == t # "bool" /\ \E semi \in {0, 1}, not0 \in {0, 1}, sh \in Shapes_ \cup {<<"fill", "multi">>}, p \in Few, nm \in {0, 1} :
  LET c == [Req(t, semi, not0, sh[1]) EXCEPT !.what = sh[2], !.low = p[1], !.high = p[2], !.named = nm]
  IN ~(sh[2] = "multi" /\ semi = 1) /\ InDomain(c) /\ \E z \in Seeded(c) : Ask([c EXCEPT !.seed = z])
Edges(t) == t # "bool" /\ \E semi \in {0, 1}, not0 \in {0, 1}, form \in {"scalar", "expr1", "expr2", "fill"}, lo \in Edge(t), hi \in Edge(t) :
  LET c == [Req(t, semi, not0, form) EXCEPT !.low = lo, !.high = hi] IN InDomain(c) /\ Ask(c)
Narrow(t) == t # "bool" /\ \E semi \in {0, 1}, not0 \in {0, 1}, a \in Near(t), b \in Near(t) :
  LET c == [Req(t, semi, not0, "scalar") EXCEPT !.low = Int_(a), !.high = Int_(b), !.n = 5]
  IN \E z \in Seeded(c) : Ask([c EXCEPT !.seed = z])
\* a request is made, once
Init == s \in [t : Types_] /\ last = 0
Next == last = 0 /\ (Default(s.t) \/ Several(s.t) \/ Sizes(s.t) \/ FewBounds(s.t) \/ Edges(s.t) \/ Narrow(s.t))
View == vars
Spec == Init /\ [][Next]_vars
\* every valid request has a legal answer: some number can be drawn
Possible == LET c == s IN last = 1 /\ ValidBounds(c) =>
  \E x \in {Low(c), High(c), Int_(1), Int_(-1)} : Drawn(c, x)
===========================================================================
