------------------------------- MODULE Arr2 -------------------------------
(* A pool of resizable two-dimensional arrays.  The abstract state is one  *)
(* row-major matrix [m, n, d] per array.  One-dimensional operands are     *)
(* given as sequences c.xs.  Rejected calls leave the pool unchanged.      *)
EXTENDS Lib
CONSTANTS P, MaxDim, Vals
VARIABLES s, last
vars == <<s, last>>

Upd(t, i, q) == [t EXCEPT ![i + 1] = q]
R(t, o) == [t |-> t, o |-> o]
Rej(t) == R(t, Err)
When(cond, t, newT) == IF cond THEN R(newT, Ok) ELSE Rej(t)

Same(A, B) == A.m = B.m /\ A.n = B.n
Sum(A, B) == [m |-> A.m, n |-> A.n, d |-> [q \in 1..Len(A.d) |-> A.d[q] + B.d[q]]]
\* rows (columns) at the positions ri (ci); keeping none gives the empty matrix
Rows(A, ri) == PickRC(A, ri, Upto(A.n))
Cols(A, ci) == PickRC(A, Upto(A.m), ci)
RemoveIx(n, p, c) == SelectSeq(Upto(n), LAMBDA q : q < p \/ q >= p + c)
InsRows(A, p, B) ==
  Mx(A.m + B.m, A.n, LAMBDA i, j : IF i < p THEN El(A, i, j)
                                   ELSE IF i < p + B.m THEN El(B, i - p, j)
                                   ELSE El(A, i - B.m, j))
InsCols(A, p, B) ==
  Mx(A.m, A.n + B.n, LAMBDA i, j : IF j < p THEN El(A, i, j)
                                   ELSE IF j < p + B.n THEN El(B, i, j - p)
                                   ELSE El(A, i, j - B.n))
RowM(xs) == [m |-> 1, n |-> Len(xs), d |-> xs]
ColM(xs) == [m |-> Len(xs), n |-> 1, d |-> xs]
Empty(A) == A.m = 0

\* a list of rows is well formed when it is empty, {{}} or rectangular without empty rows
ListOk(ll) == \/ ll = <<>> \/ ll = <<<<>>>>
              \/ Len(ll[1]) > 0 /\ \A q \in 1..Len(ll) : Len(ll[q]) = Len(ll[1])
OfList(ll) == IF ll = <<>> \/ ll = <<<<>>>> THEN MEmpty
              ELSE Mx(Len(ll), Len(ll[1]), LAMBDA i, j : ll[i + 1][j + 1])
Resized(A, m, n) ==
  Mx(m, n, LAMBDA i, j : IF i < A.m /\ j < A.n THEN El(A, i, j) ELSE 0)

\* rows and columns inserted at p: an empty target takes the operand's shape
InsR(t, c, A, B) ==
  When(0 <= c.p /\ c.p <= A.m /\ (Empty(A) \/ A.n = B.n), t,
       Upd(t, c.i, IF Empty(A) THEN B ELSE InsRows(A, c.p, B)))
InsC(t, c, A, B) ==
  When(0 <= c.p /\ c.p <= A.n /\ (Empty(A) \/ A.m = B.m), t,
       Upd(t, c.i, IF Empty(A) THEN B ELSE InsCols(A, c.p, B)))
\* a single row or column: an empty one is never insertable
Ins1R(t, c, A, xs) ==
  When(0 <= c.p /\ c.p <= A.m /\ xs # <<>> /\ (Empty(A) \/ A.n = Len(xs)), t,
       Upd(t, c.i, IF Empty(A) THEN RowM(xs) ELSE InsRows(A, c.p, RowM(xs))))
Ins1C(t, c, A, xs) ==
  When(0 <= c.p /\ c.p <= A.n /\ xs # <<>> /\ (Empty(A) \/ A.m = Len(xs)), t,
       Upd(t, c.i, IF Empty(A) THEN ColM(xs) ELSE InsCols(A, c.p, ColM(xs))))
RemR(t, c, A, p, n) ==
  When(n > 0 /\ p >= 0 /\ p + n <= A.m, t, Upd(t, c.i, Rows(A, RemoveIx(A.m, p, n))))
RemC(t, c, A, p, n) ==
  When(n > 0 /\ p >= 0 /\ p + n <= A.n, t, Upd(t, c.i, Cols(A, RemoveIx(A.n, p, n))))

Step(t, c) ==
  LET A == t[c.i + 1]
      B == t[c.j + 1]
      E == t[c.k + 1]
      rsel == [sel |-> "seqN", f |-> c.b, c |-> c.n, st |-> c.st]
      csel == [sel |-> "seqN", f |-> c.b2, c |-> c.n2, st |-> c.st2]
      slok == SelOk(B.m, rsel) /\ SelOk(B.n, csel)
      sl == PickRC(B, Sel(B.m, rsel), Sel(B.n, csel))
  IN
  CASE c.op = "init" -> R([q \in 1..c.n |-> MEmpty], Ok)
    \* --- construction ---
    [] c.op = "new0" -> R(Upd(t, c.i, MEmpty), Ok)
    [] c.op = "new_mn" -> When(ShapeOk(c.m, c.n), t, Upd(t, c.i, Const2(c.m, c.n, 0)))
    [] c.op = "new_mnx" -> When(ShapeOk(c.m, c.n), t, Upd(t, c.i, Const2(c.m, c.n, c.x)))
    [] c.op = "new_list" -> When(ListOk(c.ll), t, Upd(t, c.i, OfList(c.ll)))
    [] c.op \in {"new_copy", "new_conv", "new_eval"} -> R(Upd(t, c.i, B), Ok)
    [] c.op = "new_move" -> R(IF c.i = c.j THEN t ELSE Upd(Upd(t, c.i, B), c.j, MEmpty), Ok)
    [] c.op = "new_slice" -> When(slok, t, Upd(t, c.i, sl))
    [] c.op = "new_expr" -> When(Same(B, E), t, Upd(t, c.i, Sum(B, E)))
    \* --- assignment: shapes have to match ---
    [] c.op = "set_x" -> R(Upd(t, c.i, Const2(A.m, A.n, c.x)), Ok)
    [] c.op = "set_list" ->
         When(ListOk(c.ll) /\ Same(OfList(c.ll), A), t, Upd(t, c.i, OfList(c.ll)))
    [] c.op \in {"assign", "assign_conv"} -> When(Same(A, B), t, Upd(t, c.i, B))
    [] c.op = "assign_expr" -> When(Same(B, E) /\ Same(A, B), t, Upd(t, c.i, Sum(B, E)))
    [] c.op = "assign_slice" -> When(slok /\ Same(A, sl), t, Upd(t, c.i, sl))
    [] c.op = "move_assign" -> \* only used with equal shapes; otherwise see move_assign_abort
         R(IF c.i = c.j THEN t ELSE Upd(Upd(t, c.i, B), c.j, MEmpty), Ok)
    [] c.op = "move_assign_abort" -> R(t, IF Same(A, B) THEN Ok ELSE Abort)
    [] c.op = "swap" -> R(Upd(Upd(t, c.i, B), c.j, A), Ok)
    \* --- resizing ---
    [] c.op = "resize" -> When(ShapeOk(c.m, c.n), t, Upd(t, c.i, Resized(A, c.m, c.n)))
    [] c.op = "resize_fill" -> When(ShapeOk(c.m, c.n), t, Upd(t, c.i, Const2(c.m, c.n, c.x)))
    [] c.op = "raa" -> R(Upd(t, c.i, B), Ok)
    [] c.op = "raa_move" -> R(IF c.i = c.j THEN t ELSE Upd(Upd(t, c.i, B), c.j, MEmpty), Ok)
    [] c.op = "raa_expr" -> When(Same(B, E), t, Upd(t, c.i, Sum(B, E)))
    [] c.op = "raa_slice" -> When(slok, t, Upd(t, c.i, sl))
    \* --- removal ---
    [] c.op = "rem_rows" -> RemR(t, c, A, c.p, c.n)
    [] c.op = "rem_cols" -> RemC(t, c, A, c.p, c.n)
    [] c.op = "rem_row" -> RemR(t, c, A, c.p, 1)
    [] c.op = "rem_col" -> RemC(t, c, A, c.p, 1)
    [] c.op = "rem_row_last" -> RemR(t, c, A, A.m - 1 - c.p, 1)
    [] c.op = "rem_col_last" -> RemC(t, c, A, A.n - 1 - c.p, 1)
    [] c.op = "rem_rows_front" -> RemR(t, c, A, 0, c.n)
    [] c.op = "rem_cols_front" -> RemC(t, c, A, 0, c.n)
    [] c.op = "rem_rows_back" -> RemR(t, c, A, A.m - c.n, c.n)
    [] c.op = "rem_cols_back" -> RemC(t, c, A, A.n - c.n, c.n)
    [] c.op = "rem_rows_list" ->
         When(StrictlyUp(c.xs) /\ AllIn(c.xs, A.m), t, Upd(t, c.i, Rows(A, Without(A.m, c.xs))))
    [] c.op = "rem_cols_list" ->
         When(StrictlyUp(c.xs) /\ AllIn(c.xs, A.n), t, Upd(t, c.i, Cols(A, Without(A.n, c.xs))))
    \* --- insertion ---
    [] c.op = "ins_rows" -> InsR(t, c, A, B)
    [] c.op = "ins_cols" -> InsC(t, c, A, B)
    [] c.op = "ins_rows_front" -> InsR(t, [c EXCEPT !.p = 0], A, B)
    [] c.op = "ins_rows_back" -> InsR(t, [c EXCEPT !.p = A.m], A, B)
    [] c.op = "ins_cols_front" -> InsC(t, [c EXCEPT !.p = 0], A, B)
    [] c.op = "ins_cols_back" -> InsC(t, [c EXCEPT !.p = A.n], A, B)
    [] c.op = "ins_rows_slice" -> IF slok THEN InsR(t, c, A, sl) ELSE Rej(t)
    [] c.op = "ins_cols_slice" -> IF slok THEN InsC(t, c, A, sl) ELSE Rej(t)
    [] c.op = "ins_row" -> Ins1R(t, c, A, c.xs)
    [] c.op = "ins_col" -> Ins1C(t, c, A, c.xs)
    [] c.op = "ins_row_front" -> Ins1R(t, [c EXCEPT !.p = 0], A, c.xs)
    [] c.op = "ins_row_back" -> Ins1R(t, [c EXCEPT !.p = A.m], A, c.xs)
    [] c.op = "ins_col_front" -> Ins1C(t, [c EXCEPT !.p = 0], A, c.xs)
    [] c.op = "ins_col_back" -> Ins1C(t, [c EXCEPT !.p = A.n], A, c.xs)
    \* a row (column) of an array of the pool, possibly of the target itself
    [] c.op = "ins_row_of" -> IF InRange(B.m, c.q) THEN Ins1R(t, c, A, Row(B, c.q)) ELSE Rej(t)
    [] c.op = "ins_col_of" -> IF InRange(B.n, c.q) THEN Ins1C(t, c, A, Col(B, c.q)) ELSE Rej(t)
    \* --- element access ---
    [] c.op = "get" -> R(t, IF InRange(A.m, c.p) /\ InRange(A.n, c.q) THEN OkV(<<El(A, c.p, c.q)>>) ELSE Err)
    [] c.op = "get_last" ->
         R(t, IF InRange(A.m, A.m - 1 - c.p) /\ InRange(A.n, A.n - 1 - c.q)
              THEN OkV(<<El(A, A.m - 1 - c.p, A.n - 1 - c.q)>>) ELSE Err)
    [] c.op = "put" ->
         When(InRange(A.m, c.p) /\ InRange(A.n, c.q), t,
              Upd(t, c.i, [A EXCEPT !.d = Set0(A.d, c.p * A.n + c.q, c.x)]))
    [] c.op = "row" -> R(t, IF InRange(A.m, c.p) THEN OkV(Row(A, c.p)) ELSE Err)
    [] c.op = "col" -> R(t, IF InRange(A.n, c.p) THEN OkV(Col(A, c.p)) ELSE Err)
    [] c.op = "row_last" -> R(t, IF InRange(A.m, A.m - 1 - c.p) THEN OkV(Row(A, A.m - 1 - c.p)) ELSE Err)
    [] c.op = "col_last" -> R(t, IF InRange(A.n, A.n - 1 - c.p) THEN OkV(Col(A, A.n - 1 - c.p)) ELSE Err)
    [] c.op = "eq" ->
         R(t, OkV(LET q == IF A = B THEN 1 ELSE 0
                      z == IF Same(A, B) THEN 1 ELSE 0
                  IN <<q, 1 - q, q, z>>))

(* ------------------------- exhaustive exploration ------------------------- *)
Slots == 0..(P - 1)
Do(c) == LET r == Step(s, c) IN s' = r.t /\ last' = [c |-> c, o |-> r.o]
SeqsUpto(n, V) == UNION {[1..q -> V] : q \in 0..n}
\* Every call treats elements as opaque, so each shape is explored with one assignment of
\* pairwise distinct elements (Tagged) and VIEW identifies states of equal shapes.
Tagged(m, n, base) == Mx(m, n, LAMBDA i, j : base + 10 * i + j)
TagSeq(n, base) == [q \in 1..n |-> base + q]
TagList(lens) == [q \in 1..Len(lens) |-> TagSeq(lens[q], 100 + 10 * q)]
Shapes == {<<0, 0>>} \cup ((1..MaxDim) \X (1..MaxDim))

Init == /\ \E f \in [1..P -> Shapes] : s = [q \in 1..P |-> Tagged(f[q][1], f[q][2], 30 * q)]
        /\ last = [c |-> [op |-> "init", n |-> P], o |-> Ok]
M(i) == s[i + 1].m
N(i) == s[i + 1].n
DimX == (-1)..MaxDim

Construct(i) ==
  \/ Do([op |-> "new0", i |-> i])
  \/ \E m, n \in (-2)..MaxDim : Do([op |-> "new_mn", i |-> i, m |-> m, n |-> n])
  \/ \E m, n \in DimX, x \in Vals, op \in {"new_mnx", "resize_fill"} :
       Do([op |-> op, i |-> i, m |-> m, n |-> n, x |-> x])
Lists(i) ==
  \* every list of row lengths within the bounds: rectangular and malformed ones
  \E lens \in SeqsUpto(MaxDim, 0..MaxDim), op \in {"new_list", "set_list"} :
       Do([op |-> op, i |-> i, ll |-> TagList(lens)])
ConstructFrom(i, j) ==
  \/ \E op \in {"new_copy", "new_conv", "new_eval", "new_move"} : Do([op |-> op, i |-> i, j |-> j])
  \/ \E k \in Slots, op \in {"new_expr", "raa_expr", "assign_expr"} :
       Do([op |-> op, i |-> i, j |-> j, k |-> k])
  \/ \E op \in {"new_slice", "assign_slice", "raa_slice", "ins_rows_slice", "ins_cols_slice"},
        b \in 0..Min2(1, M(j)), n \in 0..M(j), b2 \in 0..Min2(1, N(j)), n2 \in 0..N(j), st, st2 \in {-1, 1} :
       /\ op = "assign_slice" => i # j
       /\ Do([op |-> op, i |-> i, j |-> j, b |-> b, n |-> n, st |-> st, b2 |-> b2, n2 |-> n2, st2 |-> st2, p |-> 1])
Assign(i) ==
  \/ \E x \in Vals : Do([op |-> "set_x", i |-> i, x |-> x])
  \/ \E j \in Slots, op \in {"assign", "assign_conv", "swap", "raa", "raa_move", "eq"} :
       Do([op |-> op, i |-> i, j |-> j])
  \/ \E j \in Slots : Same(s[i + 1], s[j + 1]) /\ Do([op |-> "move_assign", i |-> i, j |-> j])
Resize(i) ==
  \E m, n \in DimX : Do([op |-> "resize", i |-> i, m |-> m, n |-> n])
Remove(i) ==
  \/ \E p \in (-1)..(M(i) + 1), n \in (-1)..(M(i) + 1) : Do([op |-> "rem_rows", i |-> i, p |-> p, n |-> n])
  \/ \E p \in (-1)..(N(i) + 1), n \in (-1)..(N(i) + 1) : Do([op |-> "rem_cols", i |-> i, p |-> p, n |-> n])
  \/ \E p \in (-2)..(M(i) + 1), op \in {"rem_row", "rem_row_last"} : Do([op |-> op, i |-> i, p |-> p])
  \/ \E p \in (-2)..(N(i) + 1), op \in {"rem_col", "rem_col_last"} : Do([op |-> op, i |-> i, p |-> p])
  \/ \E n \in (-1)..(M(i) + 1), op \in {"rem_rows_front", "rem_rows_back"} : Do([op |-> op, i |-> i, n |-> n])
  \/ \E n \in (-1)..(N(i) + 1), op \in {"rem_cols_front", "rem_cols_back"} : Do([op |-> op, i |-> i, n |-> n])
  \/ \E xs \in SeqsUpto(3, (-1)..M(i)) : Do([op |-> "rem_rows_list", i |-> i, xs |-> xs])
  \/ \E xs \in SeqsUpto(3, (-1)..N(i)) : Do([op |-> "rem_cols_list", i |-> i, xs |-> xs])
Insert(i) ==
  \/ \E p \in (-1)..(M(i) + 1), j \in Slots : Do([op |-> "ins_rows", i |-> i, j |-> j, p |-> p])
  \/ \E p \in (-1)..(N(i) + 1), j \in Slots : Do([op |-> "ins_cols", i |-> i, j |-> j, p |-> p])
  \/ \E j \in Slots, op \in {"ins_rows_front", "ins_rows_back", "ins_cols_front", "ins_cols_back"} :
       Do([op |-> op, i |-> i, j |-> j, p |-> 0])
  \/ \E p \in (-1)..(M(i) + 1), n \in 0..(MaxDim + 1) : Do([op |-> "ins_row", i |-> i, p |-> p, xs |-> TagSeq(n, 200)])
  \/ \E p \in (-1)..(N(i) + 1), n \in 0..(MaxDim + 1) : Do([op |-> "ins_col", i |-> i, p |-> p, xs |-> TagSeq(n, 200)])
  \/ \E op \in {"ins_row_front", "ins_row_back", "ins_col_front", "ins_col_back"}, n \in 0..MaxDim :
       Do([op |-> op, i |-> i, p |-> 0, xs |-> TagSeq(n, 200)])
  \/ \E p \in 0..M(i), j \in Slots : \E q \in (-1)..M(j) : Do([op |-> "ins_row_of", i |-> i, j |-> j, p |-> p, q |-> q])
  \/ \E p \in 0..N(i), j \in Slots : \E q \in (-1)..N(j) : Do([op |-> "ins_col_of", i |-> i, j |-> j, p |-> p, q |-> q])
Access(i) ==
  \/ \E p \in (-1)..(M(i) + 1), q \in (-1)..(N(i) + 1), op \in {"get", "get_last"} :
       Do([op |-> op, i |-> i, p |-> p, q |-> q])
  \/ \E p \in (-1)..M(i), q \in (-1)..N(i), x \in Vals : Do([op |-> "put", i |-> i, p |-> p, q |-> q, x |-> x])
  \/ \E p \in (-1)..(M(i) + 1), op \in {"row", "row_last"} : Do([op |-> op, i |-> i, p |-> p])
  \/ \E p \in (-1)..(N(i) + 1), op \in {"col", "col_last"} : Do([op |-> op, i |-> i, p |-> p])
AbortOps(i) ==
  \E j \in Slots : Len(s[i + 1].d) + Len(s[j + 1].d) <= 2 /\ Do([op |-> "move_assign_abort", i |-> i, j |-> j])

Small == \A q \in 1..P : s[q].m <= MaxDim /\ s[q].n <= MaxDim
\* States outside the bounds are reached and checked, but not left.
Next == Small /\ \E i \in Slots :
          \/ Construct(i) \/ Lists(i) \/ Assign(i) \/ Resize(i) \/ Remove(i) \/ Insert(i) \/ Access(i)
          \/ \E j \in Slots : ConstructFrom(i, j)
          \/ AbortOps(i)
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------- *)
\* C02: rows are zero exactly when columns are, and the size is rows times columns.
TypeOK == Len(s) = P /\ \A q \in 1..P : WellShaped(s[q])
RejectedLeavesNoTrace == [][last'.o.k # "ok" => s' = s]_vars
Touched(c) == {c.i} \cup (IF c.op \in {"swap", "move_assign", "raa_move", "new_move"} THEN {c.j} ELSE {})
OnlyTouched == [][\A q \in Slots : q \notin Touched(last'.c) => s'[q + 1] = s[q + 1]]_vars
SelfNoOp == [][(last'.c.op \in {"swap", "move_assign", "raa_move", "new_move", "assign", "raa", "new_copy"}
                /\ last'.c.i = last'.c.j) => s' = s]_vars
QueriesPure == [][last'.c.op \in {"get", "get_last", "eq", "row", "col", "row_last", "col_last"} => s' = s]_vars
MoveEmpties == [][(last'.c.op \in {"move_assign", "raa_move", "new_move"} /\ last'.c.i # last'.c.j)
                  => /\ s'[last'.c.i + 1] = s[last'.c.j + 1] /\ s'[last'.c.j + 1] = MEmpty]_vars
\* counting from the end selects the equal position counted from the start
LastIsFromEnd == [][\A i \in Slots :
   LET A == s[i + 1] IN
   (last'.c.op = "rem_row_last" /\ last'.c.i = i) =>
      s' = Step(s, [op |-> "rem_row", i |-> i, p |-> A.m - 1 - last'.c.p]).t]_vars
View == [q \in 1..P |-> <<s[q].m, s[q].n>>]
===========================================================================
