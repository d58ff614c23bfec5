------------------------------ MODULE Static ------------------------------
(* Which programs over arrays, views, expressions, iterators and scalars    *)
(* are well-formed.  A term is described by what matters for that:          *)
(*   k  what it is: own (resizable array), fix (fixed-size array), view,    *)
(*      cview (constant view), expr (lazy expression), it (iterator),       *)
(*      ptr (pointer), el (element), none (a result nobody goes on from)    *)
(*   d  dimension, e element type, c declared constant (for it, ptr, el:    *)
(*      leads to constant elements), v value category: l(value), r(value)   *)
(* A program applies operations one after the other; it is rejected at the  *)
(* first one that would dangle, write what is constant, or mix types.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Elts
VARIABLES x, last

vars == <<x, last>>
Ints == {"int", "long", "unsigned", "unsigned long"} \cap Elts
SInts == {"int", "long"} \cap Elts
Flts == {"float", "double", "long double"} \cap Elts
Reals == Ints \cup Flts
Kinds == {"own", "fix", "view", "cview", "expr"}
Term(k, d, e, c, v) == [k |-> k, d |-> d, e |-> e, c |-> c, v |-> v]

Owner(t) == t.k \in {"own", "fix"}
Temp(t) == t.v = "r"
\* may the elements of an array be changed through this term
Mutable(t) == t.k \in {"own", "fix", "view"} /\ ~t.c
\* what refers to the elements of t afterwards would outlive them
LosesElements(t) == Owner(t) /\ Temp(t)
\* what refers to the object t itself (iterators do) would outlive it
LosesObject(t) == Temp(t)
\* is t a whole that can be assigned to; for owners only named ones are considered
Assignable(t) == Mutable(t) /\ (Owner(t) => ~Temp(t))
Done == Term("none", 0, "bool", TRUE, "r")
ViewOf(t, d) == Term(IF Mutable(t) THEN "view" ELSE "cview", d, t.e, FALSE, "r")
ExprOf(d, e) == Term("expr", d, e, FALSE, "r")

(* --------------------- operations on one array ----------------------- *)
Sel1 == {"slice_all", "slice_even", "slice_seq", "slice_seqN", "slice_list", "slice_vec", "slice_excl"}
SelReal == {"in_closed", "in_open", "in_cond"}
Sel2 == {"block2", "blockN2", "rows_all", "cols_all", "rows_list", "cols_list", "rows_seq", "cols_seqN",
         "sl_ss", "sl_sl", "sl_ls", "sl_ll"}
To1 == {"row", "row_last", "col", "col_last", "diag", "diag_k"}
Views == {"view1D", "view2D"}
Iters == {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend"}
LineIters == {"RowIt", "ColIt"}
Ptrs == {"data", "blas_data"}
UnReal == {"un_minus", "un_plus", "un_abs"}
UnFlt == {"un_sqrt", "un_exp", "un_sin", "un_cbrt", "un_log", "un_pow", "un_pow_int", "un_fast_pow", "un_inv", "un_cos", "un_tan", "un_log2", "un_log10"}
UnInt == {"un_not"}
UnBool == {"un_lnot"}
UnAny == {"cast_double", "cast_int", "gen"}
On1 == {"exclude", "exclude_named", "exclude_last", "row_broadcast", "col_broadcast", "merge_xs", "merge_sx", "merge_ssx", "merge_xss"}
On2 == {"transpose", "row_reduce", "col_reduce"}
ScalReal == {"add_s", "sub_s", "mul_s", "div_s", "s_add", "s_sub", "s_mul", "s_div"}
ScalInt == {"mod_s", "shl_s", "shr_s", "and_s", "or_s", "s_mod", "s_shl", "s_shr", "s_and", "s_or"}
ScalNotFlt == {"xor_s", "s_xor"}
ScalBool == {"land_s", "lor_s", "s_land", "s_lor"}
\* reading is always possible
Reads == {"size", "get", "get_at", "get_un", "eq_self", "range_check"}
ReadReal == {"sum", "max", "has_zero"}
ReadFlt == {"norm_inf", "mean"}
Ranges == {"irange"}
Writes == {"fill", "assign_list"}
WriteEl == {"put", "put_at", "put_un"}
WriteAddReal == {"add_fill", "mul_fill"}
WriteInt == {"mod_fill", "shl_fill", "xor_fill"}
Algos == {"sort_algo", "sort_down", "sort_by", "rand", "rand_not0", "rand_low", "semi_rand"}
AlgosAny == {"shuffle", "each_write"}
Resizes == {"resize", "reassign"}
ElWrites == {"it_put", "it_at_put", "ptr_put"}

Dangles(t, op) ==
  \/ op \in Iters \cup LineIters /\ LosesObject(t)
  \/ op \in Ptrs /\ Temp(t)
  \/ op \in Sel1 \cup SelReal \cup Sel2 \cup To1 \cup Views /\ LosesElements(t)
  \/ op \in UnReal \cup UnFlt \cup UnInt \cup UnBool \cup UnAny \cup On1 \cup On2 \cup ScalReal \cup ScalInt \cup ScalBool \cup ScalNotFlt /\ LosesElements(t)
WritesConst(t, op) ==
  \/ op \in Writes \cup WriteAddReal \cup WriteInt \cup WriteEl \cup Algos \cup AlgosAny \cup Resizes /\ ~Mutable(t)
  \/ op \in ElWrites /\ t.c
\* operations that are only defined for some element types
DomainOk(t, op) ==
  /\ op \in SelReal \cup UnReal \cup ScalReal \cup ReadReal \cup WriteAddReal \cup Algos => t.e \in Reals
  /\ op \in UnFlt \cup ReadFlt => t.e \in Flts
  /\ op \in UnInt \cup ScalInt \cup WriteInt => t.e \in Ints
  /\ op \in UnBool \cup ScalBool => t.e = "bool"
  /\ op \in ScalNotFlt => t.e \in Ints \cup {"bool"}
\* which operations a term has at all
Has(t, op) ==
  CASE t.k \in {"el", "none"} -> FALSE
    [] t.k \in {"it"} -> op \in {"it_put", "it_at_put"}
    [] t.k \in {"ptr"} -> op = "ptr_put"
    [] OTHER ->
       CASE op \in Sel1 \cup SelReal \cup On1 -> t.d = 1
         [] op \in Sel2 \cup To1 \cup On2 \cup LineIters -> t.d = 2
         [] op \in Ptrs -> Owner(t)
         [] op \in Resizes -> t.k = "own" /\ ~Temp(t)
         \* whole temporaries of arrays may be changed or not, nobody can tell
         [] op \in Writes \cup WriteAddReal \cup WriteInt \cup WriteEl \cup Algos \cup AlgosAny -> (Owner(t) => ~Temp(t)) /\ (op \in {"rand", "semi_rand"} => t.e \in Reals)
         [] op = "lval" -> Temp(t)
         \* negating unsigned elements is only rejected once an element is read
         [] op \in {"un_minus", "un_abs"} -> t.e \notin {"unsigned", "unsigned long"}
         [] op = "as_const" -> ~Temp(t)
         [] op = "move" -> ~Temp(t)
         [] op \in ElWrites -> FALSE
         [] op \in {"get_at", "get", "get_un"} -> TRUE
         [] OTHER -> TRUE
Ops1 == Sel1 \cup SelReal \cup Sel2 \cup To1 \cup Views \cup Iters \cup LineIters \cup Ptrs \cup UnReal \cup UnFlt \cup UnInt \cup UnBool \cup UnAny \cup On1 \cup On2
        \cup ScalReal \cup ScalInt \cup ScalBool \cup ScalNotFlt \cup Reads \cup ReadReal \cup ReadFlt \cup Ranges \cup Writes \cup WriteEl \cup WriteAddReal \cup WriteInt
        \cup Algos \cup AlgosAny \cup Resizes \cup ElWrites \cup {"lval", "as_const", "move", "eval"}
Accepts1(t, op) == Has(t, op) /\ ~Dangles(t, op) /\ ~WritesConst(t, op) /\ DomainOk(t, op)
\* what comes out
Result(t, op) ==
  CASE op \in Sel1 \cup SelReal \cup Sel2 -> ViewOf(t, t.d)
    [] op \in To1 \cup {"view1D"} -> ViewOf(t, 1)
    [] op = "view2D" -> ViewOf(t, 2)
    [] op \in Iters -> Term("it", t.d, t.e, ~Mutable(t) \/ op \in {"cbegin", "cend", "crbegin", "crend"}, "r")
    [] op \in Ptrs -> Term("ptr", t.d, t.e, ~Mutable(t), "r")
    [] op \in UnReal \cup UnFlt \cup UnInt \cup UnBool \cup ScalReal \cup ScalInt \cup ScalBool -> ExprOf(t.d, t.e)
    [] op \in ScalNotFlt \cup {"gen"} -> ExprOf(t.d, t.e)
    [] op = "cast_double" -> ExprOf(t.d, "double")
    [] op = "cast_int" -> ExprOf(t.d, "int")
    [] op \in {"exclude", "exclude_named", "exclude_last", "merge_xs", "merge_sx", "merge_ssx", "merge_xss", "row_reduce", "col_reduce"} -> ExprOf(1, t.e)
    [] op \in {"row_broadcast", "col_broadcast", "transpose"} -> ExprOf(2, t.e)
    [] op = "lval" -> [t EXCEPT !.v = "l"]
    [] op = "as_const" -> [t EXCEPT !.c = TRUE]
    [] op = "move" -> [t EXCEPT !.v = "r"]
    [] op = "eval" -> Term("own", t.d, t.e, FALSE, "r")
    [] OTHER -> Done
\* a program may only go on from these
Continues(op) == Result(Term("own", 1, "int", FALSE, "l"), op) # Done

(* -------------------- operations on two arrays ----------------------- *)
BinReal == {"add", "sub", "mul", "div"}
BinInt == {"mod", "shl", "shr", "and", "or", "xor"}
BinBool == {"land", "lor"}
Lazy2 == BinReal \cup BinInt \cup BinBool \cup {"two_prod", "pow_prod", "matvec_prod", "tensor_prod", "merge", "merge3", "merge_h", "merge_v", "merge_h3", "gen2"}
Eager2 == {"eq", "ne", "dot"}
Set2 == {"set", "new"}
SetReal == {"set_add", "set_mul", "set_div"}
SetInt == {"set_mod", "set_shl", "set_and"}
Ops2 == Lazy2 \cup Eager2 \cup Set2 \cup SetReal \cup SetInt
Dims(op, t, u) ==
  CASE op = "matvec_prod" -> t.d = 2 /\ u.d = 1
    [] op \in {"tensor_prod", "merge", "merge3"} -> t.d = 1 /\ u.d = 1
    [] op \in {"merge_h", "merge_v", "merge_h3"} -> t.d = 2 /\ u.d = 2
    [] OTHER -> t.d = u.d
Types(op, t, u) ==
  /\ CASE op = "pow_prod" -> t.e \in Flts /\ u.e \in SInts
       [] op = "gen2" -> TRUE
       [] OTHER -> t.e = u.e
  /\ op \in BinReal \cup SetReal \cup {"matvec_prod", "tensor_prod", "dot"} => t.e \in Reals
  /\ op \in BinInt \cup SetInt => IF op = "xor" THEN t.e # "bool" => t.e \in Ints ELSE t.e \in Ints
  /\ op \in BinBool => t.e = "bool"
  /\ op = "two_prod" => t.e \in Flts
Accepts2(op, t, u) ==
  /\ Dims(op, t, u) /\ Types(op, t, u)
  /\ op \in Lazy2 => ~LosesElements(t) /\ ~LosesElements(u)
  /\ op \in {"set"} \cup SetReal \cup SetInt => Assignable(t)

(* ------------------- scalars, and arrays with scalars ------------------ *)
ScEq == {"s_eq", "s_ne", "s_set", "s_init", "s_brace", "s_arg"}
ScAll == {"s_castto", "s_castget"}
ScCmp == {"s_lt", "s_ge"}   \* what they say about two truth values is left open
ScOrd == {"s_cadd", "s_csub", "s_cmul", "s_cdiv", "s_sadd", "s_ssub", "s_smul", "s_sdiv", "s_mins", "s_maxs", "s_pows"}
ScInt == {"s_cmod", "s_cshl", "s_cand", "s_sor", "s_smod"}
ScFlt == {"s_sqrts", "s_fmas"}
OpsS == ScAll \cup ScEq \cup ScCmp \cup ScOrd \cup ScInt \cup ScFlt
\* both strict, of types t and u
AcceptsS(op, t, u) ==
  /\ op \in ScAll \/ t = u
  /\ op \in ScOrd => t # "bool"
  /\ op \in ScInt => t \in Ints
  /\ op \in ScFlt => t \in Flts
\* a strict t and a plain u: only an explicit construction from its own type, only explicit conversion to it
PlainOps == {"p_brace", "p_paren", "p_init", "p_set", "p_add", "p_radd", "p_eq", "p_to", "p_cast", "p_arg", "p_cadd"}
AcceptsP(op, t, u) ==
  CASE op \in {"p_brace", "p_paren"} -> t = u
    [] op = "p_cast" -> t = u
    [] op = "p_to" -> t = "bool" /\ u = "bool"
    [] OTHER -> FALSE
\* arrays of type t and a scalar of another type
ArrS == {"as_add", "as_radd", "as_fill", "as_cadd", "as_put", "as_ctor", "as_list", "as_setlist", "as_insert", "as_merge", "as_find", "as_pow"}
AcceptsA(op, t, u) ==
  /\ t = u
  /\ op \in {"as_add", "as_radd", "as_cadd"} => t \in Reals
  /\ op = "as_pow" => t \in Flts

\* positions and sizes are whole numbers of a signed type, plain or strict; seeds are unsigned
OpsI == {"i_get", "i_at", "i_un", "i_row", "i_col", "i_get2", "i_un2", "i_size", "i_size2", "i_resize", "i_pos", "i_rows", "i_cols", "i_seqN", "i_seq", "i_exclude", "i_irange", "i_block",
         "i_const", "i_remove", "i_insert", "i_list", "i_diag", "i_view2D", "i_pow_int", "i_factorial", "i_seed", "i_flag"}
AcceptsI(op, u) == CASE op = "i_seed" -> u = "unsigned" [] op = "i_flag" -> u = "bool" [] OTHER -> u \in SInts

(* ------------------------- exhaustive exploration ---------------------- *)
Roots == {Term(k, d, e, c, v) : k \in Kinds, d \in {1, 2}, e \in Elts, c \in BOOLEAN, v \in {"l", "r"}}
NoTerm == Done
Init == x \in Roots /\ last = [c |-> [n |-> "root"], a |-> TRUE]
One == \E op \in Ops1 : Has(x, op) /\ LET ok == Accepts1(x, op)
                                   IN x' = (IF ok THEN Result(x, op) ELSE Done) /\ last' = [c |-> [n |-> "one", op |-> op], a |-> ok]
Next == x # Done /\ One
Spec == Init /\ [][Next]_vars
View == x

(* ----------------------------- properties ------------------------------ *)
\* nothing writable is ever reached from a constant or from an expression
RECURSIVE ReachK(_)
ReachK(t) == {Result(t, op) : op \in {o \in Ops1 : Accepts1(t, o)}}
ConstStays == [][(~Mutable(x) /\ x.k \in Kinds /\ last'.a /\ last'.c.op # "eval") => /\ ~(x'.k \in Kinds /\ Mutable(x'))
                     /\ (x'.k \in {"it", "ptr"} => x'.c)]_vars
\* an accepted operation on a temporary array gives nothing that leads to its elements
TemporariesEnd == [][(Owner(x) /\ Temp(x) /\ last'.a) => x'.k \notin {"view", "cview", "expr", "it", "ptr"}]_vars
\* accepted programs are the safe ones of right types
Sound == \A op \in Ops1 : Accepts1(x, op) => ~Dangles(x, op) /\ ~WritesConst(x, op)
\* naming a temporary view allows everything a temporary view allows
NamedIsBetter == x.k \in {"view", "cview", "expr"} /\ Temp(x) => \A op \in Ops1 \ {"lval"} : Accepts1(x, op) => Accepts1([x EXCEPT !.v = "l"], op)
\* mixing is symmetric
MixSymmetric == \A t \in Elts, u \in Elts : AcceptsS("s_cadd", t, u) = AcceptsS("s_cadd", u, t)
===========================================================================
