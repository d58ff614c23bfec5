------------------------------- MODULE Paths -------------------------------
(* Selections and views, the part without variables.  A view is the         *)
(* sequence (or row-major matrix) of base positions it denotes; a step is   *)
(* one public selecting call.  A path of steps is either rejected or        *)
(* denotes exactly one view.                                                *)
EXTENDS Lib

V1(pos) == [d |-> 1, pos |-> pos]
V2(A) == [d |-> 2, m |-> A.m, n |-> A.n, pos |-> A.d]
MatOf(v) == [m |-> v.m, n |-> v.n, d |-> v.pos]
Whole(b) == IF b.d = 1 THEN V1(Upto(b.n)) ELSE V2([m |-> b.m, n |-> b.n, d |-> Upto(b.m * b.n)])

Bad == [ok |-> FALSE, v |-> V1(<<>>)]
Good(v) == [ok |-> TRUE, v |-> v]
\* an index argument: counted from the start, or from the end when e = 1
Ix(n, i, e) == IF e = 1 THEN n - 1 - i ELSE i
BlockSel(i, i2) == [sel |-> "seq", f |-> i, l |-> i2, st |-> 1]
CountSel(i, c) == [sel |-> "seqN", f |-> i, c |-> c, st |-> 1]
Sub(A, rs, cs) == IF SelOk(A.m, rs) /\ SelOk(A.n, cs)
                  THEN Good(V2(PickRC(A, Sel(A.m, rs), Sel(A.n, cs)))) ELSE Bad
AllSel == [sel |-> "all"]

Apply(v, st) ==
  LET A == MatOf(v)
      k == Len(v.pos)
  IN
  CASE st.st = "view1" -> Good(V1(v.pos))
    [] st.st = "view2" -> IF st.m >= 0 /\ st.n >= 0 /\ st.m * st.n = k
                          THEN Good(V2(IF k = 0 THEN MEmpty ELSE [m |-> st.m, n |-> st.n, d |-> v.pos])) ELSE Bad
    [] st.st = "sel" -> IF SelOk(k, st.s) THEN Good(V1(Pick(v.pos, Sel(k, st.s)))) ELSE Bad
    [] st.st = "sub" -> Sub(A, st.r, st.c)
    [] st.st = "rows" -> Sub(A, st.s, AllSel)
    [] st.st = "cols" -> Sub(A, AllSel, st.s)
    [] st.st = "row" -> LET i == Ix(v.m, st.i, st.e) IN IF InRange(v.m, i) THEN Good(V1(Row(A, i))) ELSE Bad
    [] st.st = "col" -> LET j == Ix(v.n, st.i, st.e) IN IF InRange(v.n, j) THEN Good(V1(Col(A, j))) ELSE Bad
    [] st.st = "diag0" -> Good(V1(Pick(v.pos, DiagIx(A, 0))))
    [] st.st = "diag" -> IF (st.i >= 0 /\ st.i < v.n) \/ (st.i < 0 /\ -st.i < v.m)
                         THEN Good(V1(Pick(v.pos, DiagIx(A, st.i)))) ELSE Bad
    [] st.st = "block" -> Sub(A, BlockSel(Ix(v.m, st.i, st.e), Ix(v.m, st.i2, st.e)),
                                 BlockSel(Ix(v.n, st.j, st.e), Ix(v.n, st.j2, st.e)))
    [] st.st = "blockN" -> Sub(A, CountSel(Ix(v.m, st.i, st.e), st.nr), CountSel(Ix(v.n, st.j, st.e), st.nc))

RECURSIVE Walk(_, _)
Walk(v, p) == IF p = <<>> THEN Good(v)
              ELSE LET r == Apply(v, Head(p)) IN IF r.ok THEN Walk(r.v, Tail(p)) ELSE Bad
\* what an observer sees: the element at base position p has the value p + 1
Inc(pos) == [q \in 1..Len(pos) |-> pos[q] + 1]
Shown(v) == IF v.d = 1 THEN Inc(v.pos) ELSE [m |-> v.m, n |-> v.n, d |-> Inc(v.pos)]
Answer(r) == IF r.ok THEN [o |-> Ok, t |-> Shown(r.v)] ELSE [o |-> Err, t |-> <<>>]
Eval(in) == Answer(Walk(Whole(in.base), in.path))

(* ---- representative steps, used to bound explorations ---- *)
S(sel) == [st |-> "sel", s |-> sel]
Named == {[sel |-> x] : x \in {"all", "even", "odd", "rev"}}
\* a few selectors of every kind, for products
FewSels(n) == Named \cup
  {[sel |-> "skip", c |-> 2], [sel |-> "first", c |-> n - 1], [sel |-> "last", c |-> 1], [sel |-> "last", c |-> n + 1],
   [sel |-> "seq", f |-> n - 1, l |-> 0, st |-> -1], [sel |-> "seq", f |-> 0, l |-> n, st |-> 1], [sel |-> "seq", f |-> 0, l |-> n - 1, st |-> 2],
   [sel |-> "seqN", f |-> 1, c |-> n - 1, st |-> 1], [sel |-> "seqN", f |-> 0, c |-> 0, st |-> 1],
   [sel |-> "list", ix |-> <<n - 1, 0>>], [sel |-> "list", ix |-> <<>>], [sel |-> "list", ix |-> <<n>>],
   [sel |-> "compl", ix |-> <<0>>], [sel |-> "compl", ix |-> <<>>], [sel |-> "compl", ix |-> <<0, n - 1>>]}
DeepSels(n) == {x \in FewSels(n) : x.sel \in {"seqN", "rev", "list"}}
\* prefixes after which every further step is explored: one of each kind
Rep1(k) ==
  {S(x) : x \in {[sel |-> "seqN", f |-> 1, c |-> k - 1, st |-> 1], [sel |-> "seqN", f |-> k - 1, c |-> k, st |-> -1],
                 [sel |-> "list", ix |-> <<k - 1, 0, k - 1>>], [sel |-> "compl", ix |-> <<0>>], [sel |-> "even"],
                 [sel |-> "first", c |-> 1], [sel |-> "seq", f |-> 0, l |-> k - 1, st |-> 2], [sel |-> "first", c |-> 0]}}
  \cup {[st |-> "view1"], [st |-> "view2", m |-> 1, n |-> k], [st |-> "view2", m |-> 2, n |-> k \div 2]}
Rep2(m, n) ==
  {[st |-> "sub", r |-> [sel |-> "rev"], c |-> [sel |-> "list", ix |-> <<n - 1, 0>>]],
   [st |-> "sub", r |-> [sel |-> "list", ix |-> <<0, 0>>], c |-> [sel |-> "list", ix |-> <<n - 1, 0>>]],
   [st |-> "sub", r |-> [sel |-> "compl", ix |-> <<0>>], c |-> [sel |-> "seqN", f |-> 0, c |-> n, st |-> 1]],
   [st |-> "sub", r |-> [sel |-> "seqN", f |-> 0, c |-> 0, st |-> 1], c |-> [sel |-> "seqN", f |-> 0, c |-> n, st |-> 1]],
   [st |-> "rows", s |-> [sel |-> "seqN", f |-> 0, c |-> m - 1, st |-> 1]],
   [st |-> "cols", s |-> [sel |-> "rev"]], [st |-> "row", i |-> 0, e |-> 0], [st |-> "col", i |-> 0, e |-> 1],
   [st |-> "diag0"], [st |-> "diag", i |-> 1], [st |-> "view1"], [st |-> "view2", m |-> n, n |-> m],
   [st |-> "block", i |-> 0, j |-> 1, i2 |-> m - 1, j2 |-> n - 1, e |-> 0]}
Reps(v) == IF v.d = 1 THEN Rep1(Len(v.pos)) ELSE Rep2(v.m, v.n)
============================================================================
