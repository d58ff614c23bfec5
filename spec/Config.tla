------------------------------ MODULE Config ------------------------------
(* Whole programs under every build configuration.  A configuration says   *)
(* whether checks are compiled in and how a failed check ends: with the     *)
(* library's exception or with a diagnostic and the death of the program.   *)
(* Some requests are checked in every configuration.  A request that is     *)
(* invalid and not checked has no meaning at all: the program is lost.      *)
EXTENDS Lib
CONSTANTS Configs, Seqs, Mats, Ks, Length
VARIABLES s, last
vars == <<s, last>>

(* the contract, for any request whatsoever *)
Checked(g, always) == g.checks \/ always
Ending(g, always, o) ==
  IF o.k # "err" THEN o
  ELSE IF ~Checked(g, always) THEN [k |-> "lost", v |-> <<>>]
  ELSE IF g.thrown THEN Err ELSE Abort
EndingOf(x) == Ending(x.g, x.always, x.o)

\* what the library says about the way it was built
B01(x) == IF x THEN 1 ELSE 0
Banner(x) == OkV(<<B01(x.g.checks), B01(~x.g.checks), B01(x.g.thrown), B01(x.quad), B01(x.trace)>>)

(* a program over one sequence a and one matrix b *)
Src1(q, h) ==
  CASE h \in {"own", "const"} -> q.a
    [] h \in {"rev", "crev"} -> Rev(q.a)
    [] h = "even" -> Pick(q.a, SelectSeq(Upto(Len(q.a)), LAMBDA p : p % 2 = 0))
    [] h = "expr" -> Map(q.a, LAMBDA x : x + x)
    [] h = "temp" -> q.a
    [] h \in {"view", "cview"} -> q.b.d
    [] h = "row" -> Row(q.b, 0)
    [] h = "col" -> Col(q.b, 0)
    [] h = "fixed" -> <<11, 12, 13>>
Src2(q, h) ==
  CASE h \in {"own", "const", "temp"} -> q.b
    [] h = "brev" -> PickRC(q.b, Rev(Upto(q.b.m)), Upto(q.b.n))
    [] h = "trans" -> IF q.b.m = 0 THEN MEmpty ELSE Mx(q.b.n, q.b.m, LAMBDA i, j : El(q.b, j, i))
    [] h = "expr" -> [q.b EXCEPT !.d = Map(@, LAMBDA x : x + x)]
    [] h = "view2" -> [m |-> 1, n |-> Len(q.a), d |-> q.a]
    [] h = "fixed" -> [m |-> 2, n |-> 2, d |-> <<11, 12, 13, 14>>]
Index(n, c, k) == IF c.last THEN n - 1 - k ELSE k
Defined1(q, h) == h \in {"row", "col"} => q.b.m > 0
Defined2(q, h) == h = "view2" => q.a # <<>>
Same(q, o) == [o |-> o, t |-> q]
Write(q, x) == [o |-> Ok, t |-> x]
ShapeFits(m, n, size) == m * n = size
\* o is the outcome where every check is made; always says the check is made in every build
Do(q, c) ==
  CASE c.op \in {"at1", "sub1"} ->
         LET x == Src1(q, c.h)
             p == Index(Len(x), c, c.i)
         IN [always |-> c.op = "at1", r |-> IF InRange(Len(x), p) THEN Same(q, OkV(<<At(x, p)>>)) ELSE Same(q, Err)]
    [] c.op \in {"at2", "sub2"} ->
         LET x == Src2(q, c.h)
             i == Index(x.m, c, c.i)
             j == Index(x.n, c, c.j)
         IN [always |-> c.op = "at2", r |-> IF InRange(x.m, i) /\ InRange(x.n, j) THEN Same(q, OkV(<<El(x, i, j)>>)) ELSE Same(q, Err)]
    \* writes through checked access; h is a holder that shares its elements
    [] c.op = "put1" ->
         LET n == Len(Src1(q, c.h))
             p == Index(n, c, c.i)
             z == CASE c.h = "own" -> p [] c.h = "rev" -> n - 1 - p [] c.h = "even" -> 2 * p [] c.h = "view" -> p
         IN [always |-> TRUE, r |-> IF ~InRange(n, p) THEN Same(q, Err) ELSE Write(q, IF c.h = "view" THEN [q EXCEPT !.b.d = Set0(@, z, 99)] ELSE [q EXCEPT !.a = Set0(@, z, 99)])]
    [] c.op = "put2" ->
         LET i == Index(q.b.m, c, c.i)
             j == Index(q.b.n, c, c.j)
             z == (IF c.h = "brev" THEN q.b.m - 1 - i ELSE i) * q.b.n + j
         IN [always |-> TRUE, r |-> IF InRange(q.b.m, i) /\ InRange(q.b.n, j) THEN Write(q, [q EXCEPT !.b.d = Set0(@, z, 99)]) ELSE Same(q, Err)]
    \* the same elements in another shape
    [] c.op \in {"v1", "v2"} ->
         LET d == IF c.op = "v1" THEN Src1(q, c.h) ELSE Src2(q, c.h).d IN
         [always |-> ~ShapeFits(c.i, c.j, Len(d)),
          r |-> IF ShapeFits(c.i, c.j, Len(d)) /\ c.i >= 0 /\ c.j >= 0 THEN Same(q, OkV(IF d = <<>> THEN MEmpty ELSE [m |-> c.i, n |-> c.j, d |-> d])) ELSE Same(q, Err)]
    \* requests checked only where checks are compiled in
    [] c.op = "div" -> [always |-> FALSE, r |-> IF c.j = 0 THEN Same(q, Err) ELSE Same(q, OkV(<<TDiv(c.i, c.j)>>))]
    [] c.op = "resize" -> [always |-> FALSE, r |-> IF c.i < 0 THEN Same(q, Err) ELSE Write(q, [q EXCEPT !.a = [k \in 1..c.i |-> IF k <= Len(@) THEN @[k] ELSE 0]])]
    [] c.op = "pop" -> [always |-> FALSE, r |-> IF q.a = <<>> THEN Same(q, Err) ELSE Write(q, [q EXCEPT !.a = Cut(@, 0, Len(@) - 1)])]
    [] c.op = "cut" -> [always |-> FALSE, r |-> IF SeqNOk(Len(q.a), c.i, c.j, 1) THEN Same(q, OkV(Cut(q.a, c.i, c.i + c.j))) ELSE Same(q, Err)]
    [] c.op = "max" -> [always |-> FALSE, r |-> Same(q, OkV(<<IF q.a = <<>> THEN 0 ELSE Fold(Max2, Head(q.a), q.a)>>))]
    [] c.op = "add" -> [always |-> FALSE, r |-> IF Len(q.a) # Len(q.b.d) THEN Same(q, Err) ELSE Write(q, [q EXCEPT !.a = [k \in 1..Len(@) |-> @[k] + q.b.d[k]]])]
    [] c.op = "list" -> [always |-> FALSE, r |-> IF Len(q.a) # 2 THEN Same(q, Err) ELSE Write(q, [q EXCEPT !.a = <<5, 6>>])]
    \* unchecked access is for valid positions only
    [] c.op = "un" -> IF InRange(Len(q.a), c.i) THEN [always |-> FALSE, r |-> Same(q, OkV(<<At(q.a, c.i)>>))] ELSE [always |-> FALSE, r |-> Same(q, [k |-> "lost", v |-> <<>>])]

\* one step of a running program
Step(g, q, c) ==
  LET d == Do(q, c)
      o == Ending(g, d.always, d.r.o)
  IN [o |-> o, t |-> IF o.k = "ok" THEN d.r.t ELSE q]
Over(o) == o.k \in {"abort", "lost"}
RECURSIVE Play(_, _, _)
\* the answers up to the end of the program; a lost program is cut before the request
Play(g, q, cs) ==
  IF cs = <<>> THEN [os |-> <<>>, t |-> q, end |-> "ok"]
  ELSE LET st == Step(g, q, Head(cs)) IN
       IF st.o.k = "lost" THEN [os |-> <<>>, t |-> q, end |-> "lost"]
       ELSE IF st.o.k = "abort" THEN [os |-> <<>>, t |-> q, end |-> "abort"]
       ELSE LET r == Play(g, st.t, Tail(cs)) IN [r EXCEPT !.os = <<st.o>> \o @]
Program(x) == Play(x.g, x.q, x.cs)

(* ------------------------- all programs, in bounds ------------------------- *)
Holders1 == {"own", "const", "rev", "crev", "even", "expr", "temp", "view", "cview", "row", "col", "fixed"}
Holders2 == {"own", "const", "temp", "brev", "trans", "expr", "view2", "fixed"}
C(op, h, l, i, j) == [op |-> op, h |-> h, last |-> l, i |-> i, j |-> j]
Commands(q) ==
  {C(op, h, l, i, 0) : op \in {"at1", "sub1"}, h \in {x \in Holders1 : Defined1(q, x)}, l \in BOOLEAN, i \in Ks}
  \cup {C("put1", h, l, i, 0) : h \in {"own", "rev", "even", "view"}, l \in BOOLEAN, i \in Ks}
  \cup {C(op, h, l, i, j) : op \in {"at2", "sub2"}, h \in {x \in Holders2 : Defined2(q, x)}, l \in BOOLEAN, i \in Ks, j \in Ks}
  \cup {C("put2", h, l, i, j) : h \in {"own", "brev"}, l \in BOOLEAN, i \in Ks, j \in Ks}
  \cup {C("v1", h, FALSE, i, j) : h \in {"own", "const", "rev", "crev", "view", "cview"}, i \in Ks, j \in Ks}
  \cup {C("v2", h, FALSE, i, j) : h \in {"own", "const", "brev"}, i \in Ks, j \in Ks}
  \cup {C(op, "own", FALSE, i, j) : op \in {"div", "cut"}, i \in Ks, j \in Ks}
  \cup {C(op, "own", FALSE, i, 0) : op \in {"resize", "un"}, i \in Ks}
  \cup {C(op, "own", FALSE, 0, 0) : op \in {"pop", "max", "add", "list"}}
Init == /\ \E g \in Configs, a \in Seqs, b \in Mats : s = [g |-> g, q |-> [a |-> a, b |-> b], over |-> FALSE]
        /\ last = [c |-> C("none", "own", FALSE, 0, 0), o |-> Ok, n |-> 0]
Next == /\ ~s.over /\ last.n < Length
        /\ \E c \in Commands(s.q) :
             LET st == Step(s.g, s.q, c) IN
             /\ last' = [c |-> c, o |-> st.o, n |-> last.n + 1]
             /\ s' = [s EXCEPT !.q = st.t, !.over = Over(st.o)]
Spec == Init /\ [][Next]_vars
View == <<s, last>>
(* ------------------------------ the promises ------------------------------ *)
\* what was rejected changed nothing, in any configuration
NoTrace == [][last'.o.k # "ok" => s'.q = s.q]_vars
\* the error mode alone decides how a rejection ends
Modes == [][(last'.o.k = "err" => s.g.thrown) /\ (last'.o.k = "abort" => ~s.g.thrown)]_vars
\* programs are lost only where checks are off, and never by an always-checked request
Lost == [][last'.o.k = "lost" => (~s.g.checks /\ ~Do(s.q, last'.c).always) \/ last'.c.op = "un"]_vars
\* an answer is the same answer in every configuration
Agree == [][last'.o.k = "ok" => \A g \in Configs : Step(g, s.q, last'.c) = [o |-> last'.o, t |-> s'.q]]_vars
\* and a rejection is one wherever the request is checked
Refused == [][last'.o.k \in {"err", "abort"} => \A g \in Configs : Step(g, s.q, last'.c).o.k \in {"err", "abort", "lost"} /\ (g.checks => Step(g, s.q, last'.c).o.k # "lost")]_vars
Sound == WellShaped(s.q.b)
===========================================================================
