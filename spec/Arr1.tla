------------------------------- MODULE Arr1 -------------------------------
(* A pool of resizable one-dimensional arrays.  The abstract state is one  *)
(* sequence of integers per array; every public call is one action, named  *)
(* by c.op, whose effect and outcome Step(s, c) defines.  Rejected calls   *)
(* have outcome "err" and leave the whole pool unchanged.                  *)
EXTENDS Lib
CONSTANTS P, MaxLen, Vals, Tags
VARIABLES s, last
vars == <<s, last>>

Slot(i) == i + 1
Upd(t, i, q) == [t EXCEPT ![i + 1] = q]
R(t, o) == [t |-> t, o |-> o]
Rej(t) == R(t, Err)
When(cond, t, newT) == IF cond THEN R(newT, Ok) ELSE Rej(t)

Step(t, c) ==
  LET a == t[c.i + 1]
      n == Len(a)
      b == t[c.j + 1]
      e == t[c.k + 1]
      seln == [sel |-> "seqN", f |-> c.b, c |-> c.n, st |-> c.st]
      sl == Pick(b, Sel(Len(b), seln))
      slok == SelOk(Len(b), seln)
      sum == [q \in 1..Len(b) |-> b[q] + e[q]]
  IN
  CASE c.op = "init" -> R([q \in 1..c.n |-> <<>>], Ok)
    \* --- construction ---
    [] c.op = "new0" -> R(Upd(t, c.i, <<>>), Ok)
    [] c.op = "new_n" -> When(c.n >= 0, t, Upd(t, c.i, Rep(c.n, 0)))
    [] c.op = "new_nx" -> When(c.n >= 0, t, Upd(t, c.i, Rep(c.n, c.x)))
    [] c.op = "new_list" -> R(Upd(t, c.i, c.xs), Ok)
    [] c.op = "new_iter" -> When(c.b <= c.e, t, Upd(t, c.i, Cut(b, c.b, c.e)))
    [] c.op \in {"new_copy", "new_conv", "new_eval"} -> R(Upd(t, c.i, b), Ok)
    [] c.op = "new_move" -> R(IF c.i = c.j THEN t ELSE Upd(Upd(t, c.i, b), c.j, <<>>), Ok)
    [] c.op = "new_slice" -> When(slok, t, Upd(t, c.i, sl))
    [] c.op = "new_expr" -> When(Len(b) = Len(e), t, Upd(t, c.i, sum))
    \* --- assignment: sizes have to match ---
    [] c.op = "set_x" -> R(Upd(t, c.i, Rep(n, c.x)), Ok)
    [] c.op = "set_list" -> When(Len(c.xs) = n, t, Upd(t, c.i, c.xs))
    [] c.op \in {"assign", "assign_conv"} -> When(Len(b) = n, t, Upd(t, c.i, b))
    [] c.op = "assign_expr" -> When(Len(b) = n /\ Len(e) = n, t, Upd(t, c.i, sum))
    [] c.op = "assign_slice" -> When(slok /\ c.n = n, t, Upd(t, c.i, sl))
    [] c.op = "move_assign" -> \* only used with equal sizes; otherwise see move_assign_abort
         R(IF c.i = c.j THEN t ELSE Upd(Upd(t, c.i, b), c.j, <<>>), Ok)
    [] c.op = "move_assign_abort" -> R(t, IF c.i = c.j \/ Len(b) = n THEN Ok ELSE Abort)
    [] c.op = "swap" -> R(Upd(Upd(t, c.i, b), c.j, a), Ok)
    \* --- resizing ---
    [] c.op = "resize" ->
         When(c.n >= 0, t, Upd(t, c.i, [q \in 1..c.n |-> IF q <= n THEN a[q] ELSE 0]))
    [] c.op = "resize_fill" -> When(c.n >= 0, t, Upd(t, c.i, Rep(c.n, c.x)))
    [] c.op = "raa" -> R(Upd(t, c.i, b), Ok)
    [] c.op = "raa_move" -> R(IF c.i = c.j THEN t ELSE Upd(Upd(t, c.i, b), c.j, <<>>), Ok)
    [] c.op = "raa_expr" -> When(Len(b) = Len(e), t, Upd(t, c.i, sum))
    [] c.op = "raa_slice" -> When(slok, t, Upd(t, c.i, sl))
    \* --- removal ---
    [] c.op = "remove" ->
         When(c.n > 0 /\ c.p >= 0 /\ c.p + c.n <= n, t, Upd(t, c.i, RemoveAt(a, c.p, c.n)))
    [] c.op = "remove1" -> When(InRange(n, c.p), t, Upd(t, c.i, RemoveAt(a, c.p, 1)))
    [] c.op = "remove_front" -> When(0 < c.n /\ c.n <= n, t, Upd(t, c.i, Cut(a, c.n, n)))
    [] c.op = "remove_back" -> When(0 < c.n /\ c.n <= n, t, Upd(t, c.i, Cut(a, 0, n - c.n)))
    [] c.op = "remove_last" -> When(InRange(n, n - 1 - c.p), t, Upd(t, c.i, RemoveAt(a, n - 1 - c.p, 1)))
    [] c.op = "remove_list" ->
         When(StrictlyUp(c.xs) /\ AllIn(c.xs, n), t, Upd(t, c.i, Pick(a, Without(n, c.xs))))
    \* --- insertion ---
    [] c.op = "insert" -> When(0 <= c.p /\ c.p <= n, t, Upd(t, c.i, InsertAt(a, c.p, <<c.x>>)))
    [] c.op = "insert_elem" ->
         When(0 <= c.p /\ c.p <= n /\ InRange(n, c.q), t, Upd(t, c.i, InsertAt(a, c.p, <<At(a, c.q)>>)))
    [] c.op = "insert_front" -> R(Upd(t, c.i, <<c.x>> \o a), Ok)
    [] c.op = "insert_back" -> R(Upd(t, c.i, Append(a, c.x)), Ok)
    [] c.op = "insert_arr" -> When(0 <= c.p /\ c.p <= n, t, Upd(t, c.i, InsertAt(a, c.p, b)))
    [] c.op = "insert_arr_front" -> R(Upd(t, c.i, b \o a), Ok)
    [] c.op = "insert_arr_back" -> R(Upd(t, c.i, a \o b), Ok)
    [] c.op = "insert_slice" ->
         When(0 <= c.p /\ c.p <= n /\ slok, t, Upd(t, c.i, InsertAt(a, c.p, sl)))
    \* --- element access ---
    [] c.op = "get" -> R(t, IF InRange(n, c.p) THEN OkV(<<At(a, c.p)>>) ELSE Err)
    [] c.op = "get_last" -> R(t, IF InRange(n, n - 1 - c.p) THEN OkV(<<At(a, n - 1 - c.p)>>) ELSE Err)
    [] c.op = "put" -> When(InRange(n, c.p), t, Upd(t, c.i, Set0(a, c.p, c.x)))
    [] c.op = "put_last" -> When(InRange(n, n - 1 - c.p), t, Upd(t, c.i, Set0(a, n - 1 - c.p, c.x)))
    [] c.op = "eq" ->
         R(t, OkV(LET q == IF a = b THEN 1 ELSE 0
                  IN <<q, 1 - q, q, IF n = Len(b) THEN 1 ELSE 0>>))

(* ------------------------- exhaustive exploration ------------------------- *)
Slots == 0..(P - 1)
Do(c) == LET r == Step(s, c) IN s' = r.t /\ last' = [c |-> c, o |-> r.o]
SeqsUpto(n, V) == UNION {[1..q -> V] : q \in 0..n}
UpSeqs(n) == {q \in SeqsUpto(3, (-1)..n) : TRUE}

\* Tags: every call treats elements as opaque, so all lengths are explored with one assignment
\* of pairwise distinct elements; otherwise all contents over Vals reachable from empty arrays.
Init == /\ IF Tags THEN \E f \in [1..P -> 0..MaxLen] : s = [q \in 1..P |-> [r \in 1..f[q] |-> 20 * q + r]]
           ELSE s = [q \in 1..P |-> <<>>]
        /\ last = [c |-> [op |-> "init", n |-> P], o |-> Ok]

L(i) == Len(s[i + 1])
Construct(i) ==
  \/ Do([op |-> "new0", i |-> i])
  \/ \E n \in (-2)..MaxLen : Do([op |-> "new_n", i |-> i, n |-> n])
  \/ \E n \in (-1)..MaxLen, x \in Vals : Do([op |-> "new_nx", i |-> i, n |-> n, x |-> x])
  \/ \E xs \in SeqsUpto(MaxLen, Vals) : Do([op |-> "new_list", i |-> i, xs |-> xs])
ConstructFrom(i, j) ==
  \/ \E b, e \in 0..L(j) : Do([op |-> "new_iter", i |-> i, j |-> j, b |-> b, e |-> e])
  \/ \E op \in {"new_copy", "new_conv", "new_eval", "new_move"} : Do([op |-> op, i |-> i, j |-> j])
  \/ \E op \in {"new_slice", "assign_slice", "raa_slice"}, b \in 0..L(j), n \in 0..L(j), st \in {-1, 0, 1, 2} :
       /\ op = "assign_slice" => i # j
       /\ Do([op |-> op, i |-> i, j |-> j, b |-> b, n |-> n, st |-> st])
  \/ \E k \in Slots, op \in {"new_expr", "raa_expr", "assign_expr"} :
       Do([op |-> op, i |-> i, j |-> j, k |-> k])
Assign(i) ==
  \/ \E x \in Vals : Do([op |-> "set_x", i |-> i, x |-> x])
  \/ \E xs \in SeqsUpto(MaxLen, Vals) : Do([op |-> "set_list", i |-> i, xs |-> xs])
  \/ \E j \in Slots, op \in {"assign", "assign_conv", "swap", "raa", "raa_move", "eq"} :
       Do([op |-> op, i |-> i, j |-> j])
  \/ \E j \in Slots : (i = j \/ L(i) = L(j)) /\ Do([op |-> "move_assign", i |-> i, j |-> j])
Resize(i) ==
  \/ \E n \in (-1)..(MaxLen + 1) : Do([op |-> "resize", i |-> i, n |-> n])
  \/ \E n \in (-1)..MaxLen, x \in Vals : Do([op |-> "resize_fill", i |-> i, n |-> n, x |-> x])
Remove(i) ==
  \/ \E p \in (-1)..(L(i) + 1), n \in (-1)..(L(i) + 1) : Do([op |-> "remove", i |-> i, p |-> p, n |-> n])
  \/ \E p \in (-2)..(L(i) + 1), op \in {"remove1", "remove_last"} : Do([op |-> op, i |-> i, p |-> p])
  \/ \E n \in (-1)..(L(i) + 1), op \in {"remove_front", "remove_back"} : Do([op |-> op, i |-> i, n |-> n])
  \/ \E xs \in UpSeqs(L(i)) : Do([op |-> "remove_list", i |-> i, xs |-> xs])
Insert(i) ==
  \/ \E p \in (-1)..(L(i) + 1), x \in Vals : Do([op |-> "insert", i |-> i, p |-> p, x |-> x])
  \/ \E p \in 0..L(i), q \in (-1)..L(i) : Do([op |-> "insert_elem", i |-> i, p |-> p, q |-> q])
  \/ \E x \in Vals, op \in {"insert_front", "insert_back"} : Do([op |-> op, i |-> i, x |-> x])
  \/ \E p \in (-1)..(L(i) + 1), j \in Slots : Do([op |-> "insert_arr", i |-> i, j |-> j, p |-> p])
  \/ \E j \in Slots, op \in {"insert_arr_front", "insert_arr_back"} : Do([op |-> op, i |-> i, j |-> j])
  \/ \E p \in 0..L(i), j \in Slots, b \in 0..1, n \in 0..2, st \in {-1, 1} :
       Do([op |-> "insert_slice", i |-> i, j |-> j, p |-> p, b |-> b, n |-> n, st |-> st])
Access(i) ==
  \/ \E p \in (-2)..(L(i) + 1), op \in {"get", "get_last"} : Do([op |-> op, i |-> i, p |-> p])
  \/ \E p \in (-1)..L(i), x \in Vals, op \in {"put", "put_last"} : Do([op |-> op, i |-> i, p |-> p, x |-> x])
AbortOps(i) ==
  \E j \in Slots : L(i) + L(j) <= 2 /\ Do([op |-> "move_assign_abort", i |-> i, j |-> j])

Small == \A q \in 1..P : Len(s[q]) <= MaxLen /\ (Tags \/ \A r \in 1..Len(s[q]) : s[q][r] \in Vals \cup {0})
\* States outside the bounds are reached and checked, but not left.
Next == Small /\ \E i \in Slots :
          \/ Construct(i) \/ Assign(i) \/ Resize(i) \/ Remove(i) \/ Insert(i) \/ Access(i)
          \/ \E j \in Slots : ConstructFrom(i, j)
          \/ AbortOps(i)
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------- *)
TypeOK == s \in Seq(Seq(Int)) /\ Len(s) = P
\* C03: a call with outcome err changes nothing.
RejectedLeavesNoTrace == [][last'.o.k # "ok" => s' = s]_vars
\* C04: a call changes only the arrays it names as target, source of a move, or swap partner.
Touched(c) == {c.i} \cup (IF c.op \in {"swap", "move_assign", "raa_move", "new_move"} THEN {c.j} ELSE {})
OnlyTouched == [][\A q \in Slots : q \notin Touched(last'.c) => s'[q + 1] = s[q + 1]]_vars
\* C04: self-operations are no-ops.
SelfNoOp == [][(last'.c.op \in {"swap", "move_assign", "raa_move", "new_move", "assign", "raa", "new_copy"}
                /\ last'.c.i = last'.c.j) => s' = s]_vars
\* C01: queries never modify.
QueriesPure == [][last'.c.op \in {"get", "get_last", "eq"} => s' = s]_vars
\* C04: moving empties the source and transfers the elements.
MoveEmpties == [][(last'.c.op \in {"move_assign", "raa_move", "new_move"} /\ last'.c.i # last'.c.j)
                  => /\ s'[last'.c.i + 1] = s[last'.c.j + 1] /\ s'[last'.c.j + 1] = <<>>]_vars
View == IF Tags THEN [q \in 1..P |-> Len(s[q])] ELSE s
===========================================================================
