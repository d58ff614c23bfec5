------------------------------- MODULE Bridge -------------------------------
(* The bridge to the external linear-algebra library: three matrices, each  *)
(* reachable through its own interface and through a map of it, and the     *)
(* products computed through such maps.  A matrix is its shape and its      *)
(* elements in row-major order.                                             *)
EXTENDS Lib
CONSTANTS Pools                 \* triples of shapes
VARIABLES p, last
vars == <<p, last>>

Mat(m, n, d) == [m |-> m, n |-> n, d |-> d]
Elem(a, i, k) == a.d[i * a.n + k + 1]
Prod(a, b) == Mat(a.m, b.n, [q \in 1..(a.m * b.n) |->
                LET i == (q - 1) \div b.n k == (q - 1) % b.n
                IN SumSeq([l \in 1..a.n |-> Elem(a, i, l - 1) * Elem(b, l - 1, k)])])
Inside(a, i, k) == i >= 0 /\ i < a.m /\ k >= 0 /\ k < a.n
Put(a, i, k, x) == [a EXCEPT !.d[i * a.n + k + 1] = x]
Quiet(q, v) == [o |-> OkV(v), t |-> q]
Show(a) == <<a.m, a.n>> \o a.d
\* writes through the map and through the matrix are the same write
Step(q, c) ==
  CASE c.op \in {"put", "map_put"} -> [o |-> Ok, t |-> [q EXCEPT ![c.i] = Put(@, c.r, c.c, c.x)]]
    [] c.op \in {"get", "map_get"} -> Quiet(q, <<Elem(q[c.i], c.r, c.c)>>)
    [] c.op = "map_shape" -> Quiet(q, <<q[c.i].m, q[c.i].n>>)
    \* a map of a constant shows the same and cannot be written through
    [] c.op = "map_const" -> Quiet(q, <<0>> \o Show(q[c.i]))
    [] c.op = "map_fill" -> [o |-> Ok, t |-> [q EXCEPT ![c.i].d = [z \in 1..Len(@) |-> c.x]]]
    [] c.op = "map_scale" -> [o |-> Ok, t |-> [q EXCEPT ![c.i].d = [z \in 1..Len(@) |-> @[z] * c.x]]]
    [] c.op = "map_copy" -> [o |-> Ok, t |-> [q EXCEPT ![c.i] = q[c.j]]]
    [] c.op = "prod" -> IF q[c.i].n # q[c.j].m THEN [o |-> Err, t |-> q] ELSE Quiet(q, Show(Prod(q[c.i], q[c.j])))
    [] c.op = "prod_into" -> IF q[c.i].n # q[c.j].m \/ q[c.k].m # q[c.i].m \/ q[c.k].n # q[c.j].n THEN [o |-> Err, t |-> q]
                             ELSE [o |-> Ok, t |-> [q EXCEPT ![c.k] = Prod(q[c.i], q[c.j])]]
Slots == 1..3
\* what may be asked in a state: positions inside, copies between equal shapes
Asks(q) ==
  {[op |-> o, i |-> i, r |-> r, c |-> c] : o \in {"get", "map_get"}, i \in Slots, r \in 0..2, c \in 0..2} \cup
  {[op |-> o, i |-> i, r |-> r, c |-> c, x |-> 7] : o \in {"put", "map_put"}, i \in Slots, r \in 0..2, c \in 0..2} \cup
  {[op |-> o, i |-> i] : o \in {"map_shape", "map_const"}, i \in Slots} \cup
  {[op |-> o, i |-> i, x |-> 3] : o \in {"map_fill", "map_scale"}, i \in Slots} \cup
  {[op |-> "map_copy", i |-> i, j |-> j] : i \in Slots, j \in Slots} \cup
  {[op |-> "prod", i |-> i, j |-> j] : i \in Slots, j \in Slots} \cup
  {[op |-> "prod_into", i |-> i, j |-> j, k |-> k] : i \in Slots, j \in Slots, k \in Slots}
Askable(q, c) == CASE c.op \in {"get", "map_get", "put", "map_put"} -> Inside(q[c.i], c.r, c.c)
                   [] c.op = "map_copy" -> q[c.i].m = q[c.j].m /\ q[c.i].n = q[c.j].n
                   [] OTHER -> TRUE
Fill(w, b) == Mat(w[1], w[2], [z \in 1..(w[1] * w[2]) |-> ((z * z + b * z) % 11) - 3])
Init == p \in {<<Fill(w[1], 1), Fill(w[2], 3), Fill(w[3], 4)>> : w \in Pools} /\ last = <<>>
Next == last = <<>> /\ \E c \in Asks(p) : Askable(p, c) /\ LET z == Step(p, c) IN p' = z.t /\ last' = [c |-> c, o |-> z.o]
Spec == Init /\ [][Next]_vars
View == <<p, last>>
\* histories leave out requests whose numbers would become too large
Tame(q, c) == c.op \in {"prod", "prod_into", "map_scale"} => \A i \in Slots : \A z \in 1..Len(q[i].d) : Abs(q[i].d[z]) <= 2000
Session(in) == Fold(LAMBDA a, c : LET z == IF Tame(a.t, c) THEN Step(a.t, c) ELSE Quiet(a.t, <<"skip">>) IN [t |-> z.t, os |-> Append(a.os, [o |-> z.o, t |-> z.t])], [t |-> in.s, os |-> <<>>], in.cs).os

(* ------------------------------- properties ------------------------------- *)
Shaped == \A i \in Slots : Len(p[i].d) = p[i].m * p[i].n
\* shapes never change, and a call touches one matrix at most
Still == [][\A i \in Slots : p'[i].m = p[i].m /\ p'[i].n = p[i].n /\ (p'[i] # p[i] => \A j \in Slots \ {i} : p'[j] = p[j])]_vars
Rejected == [][last'.o.k = "err" => p' = p /\ last'.c.op \in {"prod", "prod_into"}]_vars
Unit(n) == Mat(n, n, [z \in 1..(n * n) |-> IF ((z - 1) \div n) = ((z - 1) % n) THEN 1 ELSE 0])
Flip(a) == Mat(a.n, a.m, [z \in 1..(a.m * a.n) |-> Elem(a, (z - 1) % a.m, (z - 1) \div a.m)])
Laws == /\ \A i \in Slots : Prod(p[i], Unit(p[i].n)) = p[i] /\ Prod(Unit(p[i].m), p[i]) = p[i]
        /\ p[1].n = p[2].m => Flip(Prod(p[1], p[2])) = Prod(Flip(p[2]), Flip(p[1]))
        /\ (p[1].n = p[2].m /\ p[2].n = p[3].m) => Prod(Prod(p[1], p[2]), p[3]) = Prod(p[1], Prod(p[2], p[3]))
===========================================================================
