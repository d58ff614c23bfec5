------------------------------ MODULE Fixed ------------------------------
(* A pool of fixed-size arrays of several declared shapes together with a  *)
(* resizable one.  Every slot holds a row-major matrix [m, n, d]; when     *)
(* Dim = 1 all are single rows.  A fixed slot always has its declared      *)
(* shape: constructions and assignments from anything else are rejected,   *)
(* a source that is moved from holds zeros.  Everything that is not about  *)
(* shapes is stated once for fixed and resizable slots alike.              *)
EXTENDS Lib
CONSTANTS Dim, Decl, Types_, MaxDim, Vals, Tags, Active
\* Decl: the declared shape of each slot, <<>> for the resizable one; Types_: which slots share a type
VARIABLES s, last
vars == <<s, last>>

P == Len(Decl)
Upd(t, i, q) == [t EXCEPT ![i + 1] = q]
R(t, o) == [t |-> t, o |-> o]
Rej(t) == R(t, Err)
When(cond, t, newT) == IF cond THEN R(newT, Ok) ELSE Rej(t)
IsFixed(i) == Decl[i + 1] # <<>>
TypeOf(i) == Types_[i + 1]
Same(A, B) == A.m = B.m /\ A.n = B.n
Of(A, d) == [m |-> A.m, n |-> A.n, d |-> d]
Zeros(A) == Of(A, Rep(Len(A.d), 0))
Plus2(A, B) == Of(A, [q \in 1..Len(A.d) |-> A.d[q] + B.d[q]])
EmptyR == IF Dim = 1 THEN [m |-> 1, n |-> 0, d |-> <<>>] ELSE MEmpty
Fresh(i) == IF IsFixed(i) THEN Const2(Decl[i + 1][1], Decl[i + 1][2], 0) ELSE EmptyR
\* what a moved-from slot holds
Spent(i, A) == IF IsFixed(i) THEN Zeros(A) ELSE EmptyR
ListOk(ll) == \/ ll = <<>> \/ ll = <<<<>>>>
              \/ Len(ll[1]) > 0 /\ \A q \in 1..Len(ll) : Len(ll[q]) = Len(ll[1])
OfList(ll) == IF Dim = 1 THEN [m |-> 1, n |-> Len(ll[1]), d |-> ll[1]]
              ELSE IF ll = <<>> \/ ll = <<<<>>>> THEN MEmpty
              ELSE Mx(Len(ll), Len(ll[1]), LAMBDA i, j : ll[i + 1][j + 1])
\* a selection of rows and columns; of elements when Dim = 1
RSel(c) == [sel |-> "seqN", f |-> c.b, c |-> c.n, st |-> c.st]
CSel(c) == [sel |-> "seqN", f |-> c.b2, c |-> c.n2, st |-> c.st2]
PartOk(A, c) == (Dim = 2 => SelOk(A.m, RSel(c))) /\ SelOk(A.n, CSel(c))
RIx(A, c) == IF Dim = 1 THEN <<0>> ELSE Sel(A.m, RSel(c))
CIx(A, c) == Sel(A.n, CSel(c))
Part(A, c) == IF Dim = 1 THEN [m |-> 1, n |-> Len(CIx(A, c)), d |-> Pick(A.d, CIx(A, c))] ELSE PickRC(A, RIx(A, c), CIx(A, c))
\* A with the elements of that part replaced, in order, by those of d
Put(A, c, d) == LET ri == RIx(A, c)
                    ci == CIx(A, c)
                    ix == [q \in 1..(Len(ri) * Len(ci)) |-> ri[(q - 1) \div Len(ci) + 1] * A.n + ci[((q - 1) % Len(ci)) + 1]]
                IN Of(A, [p \in 1..Len(A.d) |-> IF p - 1 \in Range(ix) THEN d[CHOOSE q \in 1..Len(ix) : ix[q] = p - 1] ELSE A.d[p]])
\* may slot i be given the value V by construction, and by assignment
Takes(i, V) == IsFixed(i) => Same(Fresh(i), V)
AtOk(A, c) == (Dim = 2 => InRange(A.m, c.p)) /\ InRange(A.n, c.q)
AtIx(A, c) == IF Dim = 1 THEN c.q + 1 ELSE c.p * A.n + c.q + 1
FromEnd(A, c) == [p |-> A.m - 1 - c.p, q |-> A.n - 1 - c.q]

Step(t, c) ==
  LET A == t[c.i + 1]
      B == t[c.j + 1]
      E == t[c.k + 1]
      L == OfList(c.ll)
      lok == Dim = 1 \/ ListOk(c.ll)
  IN
  CASE c.op = "init" -> R([q \in 1..P |-> Fresh(q - 1)], Ok)
    \* --- construction ---
    [] c.op = "new0" -> R(Upd(t, c.i, Fresh(c.i)), Ok)
    [] c.op = "new_x" -> R(Upd(t, c.i, Of(Fresh(c.i), Rep(Len(Fresh(c.i).d), c.x))), Ok)
    [] c.op = "new_list" -> When(lok /\ Takes(c.i, L), t, Upd(t, c.i, L))
    [] c.op = "new_copy" -> When(Takes(c.i, B), t, Upd(t, c.i, B))
    [] c.op = "new_move" -> R(Upd(Upd(t, c.i, B), c.j, Spent(c.j, B)), Ok)
    [] c.op = "new_iter" -> LET V == [m |-> 1, n |-> c.e - c.b, d |-> Cut(B.d, c.b, c.e)] IN When(c.b <= c.e /\ Takes(c.i, V), t, Upd(t, c.i, V))
    [] c.op = "new_part" -> When(PartOk(B, c) /\ Takes(c.i, Part(B, c)), t, Upd(t, c.i, Part(B, c)))
    [] c.op = "new_sum" -> When(Same(B, E) /\ Takes(c.i, B), t, Upd(t, c.i, Plus2(B, E)))
    \* --- assignment ---
    [] c.op = "set_x" -> R(Upd(t, c.i, Of(A, Rep(Len(A.d), c.x))), Ok)
    [] c.op = "set_list" -> When(lok /\ Same(A, L), t, Upd(t, c.i, L))
    [] c.op = "assign" -> When(Same(A, B), t, Upd(t, c.i, B))
    [] c.op = "assign_part" -> When(PartOk(B, c) /\ Same(A, Part(B, c)), t, Upd(t, c.i, Part(B, c)))
    [] c.op = "assign_sum" -> When(Same(B, E) /\ Same(A, B), t, Upd(t, c.i, Plus2(B, E)))
    [] c.op = "move" -> R(IF c.i = c.j THEN t ELSE Upd(Upd(t, c.i, B), c.j, Spent(c.j, B)), Ok)
    [] c.op = "swap" -> R(Upd(Upd(t, c.i, B), c.j, A), Ok)
    [] c.op = "raa" -> R(Upd(t, c.i, B), Ok)
    \* --- elements ---
    [] c.op = "get" -> R(t, IF AtOk(A, c) THEN OkV(<<A.d[AtIx(A, c)]>>) ELSE Err)
    [] c.op = "get_last" -> R(t, IF AtOk(A, FromEnd(A, c)) THEN OkV(<<A.d[AtIx(A, FromEnd(A, c))]>>) ELSE Err)
    [] c.op = "put" -> When(AtOk(A, c), t, Upd(t, c.i, Of(A, [A.d EXCEPT ![AtIx(A, c)] = c.x])))
    [] c.op = "put_part_x" -> When(PartOk(A, c), t, Upd(t, c.i, Put(A, c, Rep(Len(Part(A, c).d), c.x))))
    [] c.op = "put_part" -> When(PartOk(A, c) /\ Same(Part(A, c), B), t, Upd(t, c.i, Put(A, c, B.d)))
    [] c.op = "get_part" -> R(t, IF PartOk(A, c) THEN OkV(Part(A, c).d) ELSE Err)
    \* --- arithmetic ---
    [] c.op = "add" -> When(Same(A, B), t, Upd(t, c.i, Plus2(A, B)))
    [] c.op = "sub" -> When(Same(A, B), t, Upd(t, c.i, Of(A, [q \in 1..Len(A.d) |-> A.d[q] - B.d[q]])))
    [] c.op = "addx" -> R(Upd(t, c.i, Of(A, [q \in 1..Len(A.d) |-> A.d[q] + c.x])), Ok)
    [] c.op = "sort" -> R(Upd(t, c.i, Of(A, SortSeq(A.d, LAMBDA x, y : x < y))), Ok)
    [] c.op = "sum" -> R(t, OkV(<<SumSeq(A.d)>>))
    [] c.op = "dot" -> R(t, IF Same(A, B) THEN OkV(<<SumSeq([q \in 1..Len(A.d) |-> A.d[q] * B.d[q]])>>) ELSE Err)
    [] c.op = "eq" -> R(t, OkV(LET q == IF Same(A, B) /\ A.d = B.d THEN 1 ELSE 0 IN <<q, 1 - q, q, IF Same(A, B) THEN 1 ELSE 0>>))
    \* --- a function that takes its argument and gives back its result by value ---
    [] c.op = "pass" -> R(Upd(t, c.i, B), Ok)

(* ------------------------- exhaustive exploration ------------------------- *)
Slots == Active
FixedSlots == {i \in Slots : IsFixed(i)}
Do(c) == LET r == Step(s, c) IN s' = r.t /\ last' = [c |-> c, o |-> r.o]
Seqs(n, V) == UNION {[1..q -> V] : q \in 0..n}
Lists == IF Dim = 1 THEN {<<q>> : q \in Seqs(MaxDim, Vals)}
         ELSE {<<>>, <<<<>>>>} \cup UNION {[1..m -> [1..n -> Vals]] : m \in 1..MaxDim, n \in 1..MaxDim}
              \cup {<<<<1>>, <<1, 2>>>>, <<<<1, 2>>, <<1>>>>, <<<<1>>, <<>>>>}
\* resizable contents within the bounds
Shapes == IF Dim = 1 THEN {<<1, n>> : n \in 0..MaxDim} ELSE {<<0, 0>>} \cup ((1..MaxDim) \X (1..MaxDim))
Mat(k, sh, tagged) == [m |-> sh[1], n |-> sh[2], d |-> [q \in 1..(sh[1] * sh[2]) |-> IF tagged THEN 10 * k + q ELSE 0]]
Init == /\ IF Tags THEN \E sh \in Shapes : s = [q \in 1..P |-> Mat(q, IF Decl[q] = <<>> THEN sh ELSE Decl[q], TRUE)]
           ELSE s = [q \in 1..P |-> Fresh(q - 1)]
        /\ last = [c |-> [op |-> "init", i |-> 0], o |-> Ok]
Ends(n) == {[b |-> b, n |-> k, st |-> st] : b \in 0..n, k \in 0..(n + 1), st \in {-1, 0, 1, 2}}
Pair(r, q) == [b |-> r.b, n |-> r.n, st |-> r.st, b2 |-> q.b, n2 |-> q.n, st2 |-> q.st]
Whole(n) == [b |-> 0, n |-> n, st |-> 1]
\* parts of slot j: any one of rows and columns varies
PartsOf(j) == LET A == s[j + 1] IN
  IF Dim = 1 THEN {Pair(Whole(1), q) : q \in Ends(A.n)}
  ELSE {Pair(Whole(A.m), q) : q \in Ends(A.n)} \cup {Pair(r, Whole(A.n)) : r \in Ends(A.m)}
With(c, op, i, j) == [op |-> op, i |-> i, j |-> j, b |-> c.b, n |-> c.n, st |-> c.st, b2 |-> c.b2, n2 |-> c.n2, st2 |-> c.st2]
Alone(i) ==
  \/ Do([op |-> "new0", i |-> i])
  \/ Do([op |-> "sort", i |-> i])
  \/ Do([op |-> "sum", i |-> i])
  \/ \E x \in Vals, op \in (IF IsFixed(i) THEN {"new_x", "set_x", "addx"} ELSE {"set_x", "addx"}) : Do([op |-> op, i |-> i, x |-> x])
  \/ \E l \in Lists, op \in {"new_list", "set_list"} : Do([op |-> op, i |-> i, ll |-> l])
  \/ \E p \in (IF Dim = 1 THEN {0} ELSE -1..s[i + 1].m), q \in -1..s[i + 1].n, op \in {"get", "get_last"} : Do([op |-> op, i |-> i, p |-> p, q |-> q])
  \/ \E p \in (IF Dim = 1 THEN {0} ELSE -1..s[i + 1].m), q \in -1..s[i + 1].n, x \in Vals : Do([op |-> "put", i |-> i, p |-> p, q |-> q, x |-> x])
  \/ \E c \in PartsOf(i), x \in Vals : (c.st # 0 /\ c.st2 # 0) /\ Do([op |-> "put_part_x", i |-> i, x |-> x, b |-> c.b, n |-> c.n, st |-> c.st, b2 |-> c.b2, n2 |-> c.n2, st2 |-> c.st2])
  \/ \E c \in PartsOf(i) : Do(With(c, "get_part", i, i))
Two(i, j) ==
  \/ \E op \in {"new_copy", "assign", "add", "sub", "dot", "eq"} : Do([op |-> op, i |-> i, j |-> j])
  \/ TypeOf(i) = TypeOf(j) /\ i # j /\ Do([op |-> "new_move", i |-> i, j |-> j])
  \/ TypeOf(i) = TypeOf(j) /\ (IsFixed(i) \/ i = j) /\ \E op \in (IF IsFixed(i) THEN {"move", "swap", "pass"} ELSE {"move", "pass"}) : Do([op |-> op, i |-> i, j |-> j])
  \/ ~IsFixed(i) /\ Do([op |-> "raa", i |-> i, j |-> j])
  \/ Dim = 1 /\ \E b \in 0..s[j + 1].n, e \in 0..s[j + 1].n : Do([op |-> "new_iter", i |-> i, j |-> j, b |-> b, e |-> e])
  \/ \E c \in PartsOf(j) : Do(With(c, "new_part", i, j))
  \/ i # j /\ \E c \in PartsOf(j) : Do(With(c, "assign_part", i, j))
  \/ i # j /\ \E c \in PartsOf(i) : c.st # 0 /\ c.st2 # 0 /\ Do(With(c, "put_part", i, j))
  \/ \E k \in Slots, op \in {"new_sum", "assign_sum"} : Do([op |-> op, i |-> i, j |-> j, k |-> k])
Small == \A q \in 1..P : s[q].m <= MaxDim /\ s[q].n <= MaxDim /\ (Tags \/ \A r \in 1..Len(s[q].d) : s[q].d[r] \in Vals \cup {0})
Start == Tags => last.c.op = "init"
\* the other slots stay as they are
Next == Small /\ Start /\ \E i \in Slots : Alone(i) \/ \E j \in Slots : Two(i, j)
Spec == Init /\ [][Next]_vars
View == s

(* ------------------------------- properties ------------------------------- *)
\* a fixed array has its declared shape in every reachable state
Declared == \A i \in FixedSlots : s[i + 1].m = Decl[i + 1][1] /\ s[i + 1].n = Decl[i + 1][2] /\ Len(s[i + 1].d) = s[i + 1].m * s[i + 1].n
RejectedLeavesNoTrace == [][last'.o.k # "ok" => s' = s]_vars
Touched(c) == {c.i} \cup (IF c.op \in {"swap", "move", "new_move"} THEN {c.j} ELSE {})
OnlyTouched == [][\A q \in Slots : q \notin Touched(last'.c) => s'[q + 1] = s[q + 1]]_vars
\* moving leaves zeros behind, and what was there arrives
MoveLeavesZeros == [][(last'.c.op \in {"move", "new_move"} /\ last'.c.i # last'.c.j /\ IsFixed(last'.c.j))
                      => /\ \A q \in 1..Len(s'[last'.c.j + 1].d) : s'[last'.c.j + 1].d[q] = 0
                         /\ s'[last'.c.i + 1] = s[last'.c.j + 1]]_vars
\* swapping twice changes nothing; a swap with itself changes nothing
SelfNoOp == [][(last'.c.op \in {"swap", "move", "assign", "new_copy", "pass"} /\ last'.c.i = last'.c.j) => s' = s]_vars
\* whatever a fixed slot accepts, a resizable slot of that shape accepts, with the same result
SameAsResizable == \A i \in FixedSlots, j \in Slots \ FixedSlots :
  Same(s[i + 1], s[j + 1]) =>
    LET t == Upd(s, j, s[i + 1]) IN
    \A k \in Slots \ {i, j} : \A op \in {"assign", "add", "dot", "eq"} :
      LET a == Step(t, [op |-> op, i |-> i, j |-> k])
          b == Step(t, [op |-> op, i |-> j, j |-> k])
      IN a.o = b.o /\ a.t[i + 1] = b.t[j + 1]
===========================================================================
