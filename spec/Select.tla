------------------------------ MODULE Select ------------------------------
(* Exhaustive exploration of selection paths over small bases.              *)
EXTENDS Paths
CONSTANTS Bases, Depth, MaxIx, Full
VARIABLES base, path, view, rep, last
vars == <<base, path, view, rep, last>>

(* ------------------------- exhaustive exploration ------------------------- *)
SeqsUpto(n, V) == UNION {[1..q -> V] : q \in 0..n}
Counts(n) == {[sel |-> x, c |-> c] : x \in {"skip", "first", "last"}, c \in (-1)..(n + 1)}
SeqSels(n) == {[sel |-> "seq", f |-> f, l |-> l, st |-> st] : f \in (-1)..n, l \in (-1)..n, st \in (-2)..2}
SeqNSels(n) == {[sel |-> "seqN", f |-> f, c |-> c, st |-> st] : f \in (-1)..n, c \in (-1)..(n + 1), st \in (-2)..2}
ListSels(n, k) == {[sel |-> x, ix |-> ix] : x \in {"list", "compl"}, ix \in SeqsUpto(k, (-1)..n)}
AllSels(n) == Named \cup Counts(n) \cup SeqSels(n) \cup SeqNSels(n) \cup ListSels(n, MaxIx)
DimSel(n) == IF Full THEN AllSels(n) ELSE SeqNSels(n) \cup Named \cup Counts(n) \cup ListSels(n, 2)
Steps1(k) ==
  {S(x) : x \in AllSels(k)} \cup {[st |-> "view1"]} \cup
  {[st |-> "view2", m |-> m, n |-> n] : m \in (-1)..(k + 1), n \in (-1)..(k + 1)}
Steps2(m, n, deep) ==
  {[st |-> "sub", r |-> r, c |-> c] : r \in IF deep THEN DeepSels(m) ELSE FewSels(m), c \in IF deep THEN DeepSels(n) ELSE FewSels(n)} \cup
  {[st |-> "rows", s |-> x] : x \in DimSel(m)} \cup {[st |-> "cols", s |-> x] : x \in DimSel(n)} \cup
  {[st |-> "row", i |-> i, e |-> e] : i \in (-1)..m, e \in 0..1} \cup
  {[st |-> "col", i |-> i, e |-> e] : i \in (-1)..n, e \in 0..1} \cup
  {[st |-> "diag0"], [st |-> "view1"]} \cup {[st |-> "diag", i |-> i] : i \in (-m - 1)..(n + 1)} \cup
  {[st |-> "block", i |-> i, j |-> j, i2 |-> i2, j2 |-> j2, e |-> 0] :
     i \in (-1)..m, j \in (-1)..n, i2 \in 0..m, j2 \in 0..n} \cup
  {[st |-> "block", i |-> i, j |-> 0, i2 |-> 0, j2 |-> j2, e |-> 1] : i \in (-1)..m, j2 \in (-1)..n} \cup
  {[st |-> "blockN", i |-> i, j |-> j, nr |-> nr, nc |-> nc, e |-> 0] :
     i \in (-1)..m, j \in 0..n, nr \in (-1)..(m + 1), nc \in 0..(n + 1)} \cup
  {[st |-> "blockN", i |-> i, j |-> 0, nr |-> nr, nc |-> 1, e |-> 1] : i \in (-1)..m, nr \in 0..m} \cup
  {[st |-> "view2", m |-> a, n |-> b] : a \in (-1)..(m * n + 1), b \in {-1, 0, 1, 2, m, n, m * n}}
Steps(v) == IF v.d = 1 THEN Steps1(Len(v.pos)) ELSE Steps2(v.m, v.n, path # <<>>)

Init == /\ base \in Bases /\ path = <<>> /\ view = Whole(base) /\ rep = TRUE
        /\ last = Answer(Good(view))
Select(st) == LET r == Apply(view, st) IN
              /\ base' = base /\ path' = Append(path, st) /\ last' = Answer(r)
              /\ view' = IF r.ok THEN r.v ELSE view
              /\ rep' = (rep /\ r.ok /\ st \in Reps(view))
Next == rep /\ Len(path) < Depth /\ \E st \in Steps(view) : Select(st)
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------- *)
BaseSize == IF base.d = 1 THEN base.n ELSE base.m * base.n
\* a view only ever denotes positions of the base, and a matrix view is well shaped
InsideBase == AllIn(view.pos, BaseSize) /\ (view.d = 2 => WellShaped(MatOf(view)))
\* composing step by step is the same as walking the whole path
WalkAgrees == last.o.k = "ok" => last = Eval([base |-> base, path |-> path])
\* reversing twice, selecting all, and reshaping there and back change nothing
Involutions ==
  /\ view.d = 1 => LET r == Apply(view, S([sel |-> "rev"])) IN Apply(r.v, S([sel |-> "rev"])).v = view
  /\ view.d = 2 => /\ Apply(view, [st |-> "sub", r |-> AllSel, c |-> AllSel]).v = view
                   /\ Apply(Apply(view, [st |-> "view1"]).v, [st |-> "view2", m |-> view.m, n |-> view.n]).v = view
\* even and odd, a list and its complement, first k and last n-k partition the positions
Partitions ==
  view.d = 1 => LET k == Len(view.pos) IN
    /\ Range(Sel(k, [sel |-> "even"])) \cup Range(Sel(k, [sel |-> "odd"])) = Range(Upto(k))
    /\ \A q \in 0..k : Sel(k, [sel |-> "first", c |-> q]) \o Sel(k, [sel |-> "last", c |-> k - q]) = Upto(k)
View == <<base, path>>
===========================================================================
