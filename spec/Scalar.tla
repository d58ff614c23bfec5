------------------------------- MODULE Scalar -------------------------------
(* Strict scalars: a register holding a value of one of the built-in types, *)
(* acted on by the scalar operations.                                       *)
EXTENDS Types
CONSTANTS Types_, Depth
VARIABLES s, last
vars == <<s, last>>

\* the outcome of command c in state [t, v]: the type and value returned, and the new state
Step(q, c) ==
  LET Pure(t, r) == IF r.ok # "ok" THEN [o |-> IF r.ok = "err" THEN Err ELSE [k |-> "undef", v |-> <<>>], t |-> q]
                    ELSE [o |-> OkV(<<t, r.v>>), t |-> q]
      Upd(r, ret) == IF r.ok # "ok" THEN Pure(q.t, r) ELSE [o |-> OkV(<<q.t, ret>>), t |-> [q EXCEPT !.v = r.v]]
  IN CASE c.op = "set" -> [o |-> Ok, t |-> [t |-> c.t, v |-> c.y]]
       [] c.op = "val" -> Pure(q.t, U(q.v))
       [] c.op = "un" -> LET r == Un(q.t, c.f, q.v) IN
                         IF c.f \in {"++", "--"} THEN (IF r.ok = "ok" THEN Upd(r, r.v) ELSE Pure(q.t, r))
                         ELSE IF c.f \in {"p++", "p--"} THEN Upd(r, q.v)
                         ELSE Pure(q.t, r)
       [] c.op = "bin" -> Pure(IF c.f \in CmpOps THEN "bool" ELSE q.t, Bin(q.t, c.f, q.v, c.y))
       [] c.op = "rbin" -> Pure(IF c.f \in CmpOps THEN "bool" ELSE q.t, Bin(q.t, c.f, c.y, q.v))
       [] c.op = "comp" -> LET r == Bin(q.t, c.f, q.v, c.y) IN IF r.ok = "ok" THEN Upd(r, r.v) ELSE Pure(q.t, r)
       [] c.op = "self" -> LET r == Bin(q.t, c.f, q.v, q.v) IN IF r.ok = "ok" THEN Upd(r, r.v) ELSE Pure(q.t, r)
       [] c.op = "conv" -> LET r == Convert(q.t, c.to, q.v) IN
                           IF r.ok # "ok" THEN Pure(c.to, r) ELSE [o |-> OkV(<<c.to, r.v>>), t |-> [t |-> c.to, v |-> r.v]]
       [] c.op = "const" -> LET r == CASE c.f = "default" -> U(Int_(0)) [] c.f = "Zero" -> U(Int_(0)) [] c.f = "One" -> U(Int_(1)) [] c.f = "NegOne" -> U(Int_(-1))
                                       [] c.f = "Thousand" -> U(Int_(1000)) [] c.f = "Million" -> U(Int_(1000000)) [] c.f = "Billion" -> U(Int_(1000000000))
                            IN [o |-> OkV(<<q.t, r.v>>), t |-> [q EXCEPT !.v = r.v]]
(* ------------------ literals and named argument types ------------------ *)
\* in: suffix, digits before and after the point; the value is read in long double first
Suffix(x) == CASE x = "_si" -> "int" [] x = "_sl" -> "long" [] x = "_sui" -> "uint" [] x = "_sul" -> "ulong" [] x = "_sf" -> "float" [] x = "_sd" -> "double" [] x = "_sl." -> "ld" [] x = "_sq" -> "quad"
\* (a quad literal is read from its text: digits that C++ would read in octal or binary are refused)
Literal(in) ==
  LET t == Suffix(in.suffix)
      n == Num(0, Decimal(in.digits \o in.frac), 0)
  IN IF t = "quad" THEN (IF in.base # 10 THEN Err ELSE OkV(<<t, FDiv(t, n, Num(0, BPow(<<10>>, Len(in.frac)), 0))>>))
     ELSE IF t \in IntTypes THEN (IF Fits(t, n) THEN OkV(<<t, n>>) ELSE Err)
     ELSE OkV(<<t, Rn(t, FDiv("ld", n, Num(0, BPow(<<10>>, Len(in.frac)), 0)))>>)
\* the mathematical constants are the values nearest to them in their type (62 decimals tell which one that is)
Digits(f) ==
  CASE f = "pi" -> <<3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4, 6, 2, 6, 4, 3, 3, 8, 3, 2, 7, 9, 5, 0, 2, 8, 8, 4, 1, 9, 7, 1, 6, 9, 3, 9, 9, 3, 7, 5, 1, 0, 5, 8, 2, 0, 9, 7, 4, 9, 4, 4, 5, 9>>
    [] f = "e" -> <<2, 7, 1, 8, 2, 8, 1, 8, 2, 8, 4, 5, 9, 0, 4, 5, 2, 3, 5, 3, 6, 0, 2, 8, 7, 4, 7, 1, 3, 5, 2, 6, 6, 2, 4, 9, 7, 7, 5, 7, 2, 4, 7, 0, 9, 3, 6, 9, 9, 9, 5, 9, 5, 7, 4, 9, 6, 6, 9, 6, 7, 6, 3>>
    [] f = "sqrt2" -> <<1, 4, 1, 4, 2, 1, 3, 5, 6, 2, 3, 7, 3, 0, 9, 5, 0, 4, 8, 8, 0, 1, 6, 8, 8, 7, 2, 4, 2, 0, 9, 6, 9, 8, 0, 7, 8, 5, 6, 9, 6, 7, 1, 8, 7, 5, 3, 7, 6, 9, 4, 8, 0, 7, 3, 1, 7, 6, 6, 7, 9, 7, 4>>
Constant(in) ==
  OkV(<<in.t, IF in.f = "epsilon" THEN Num(0, <<1>>, 1 - Fmt(in.t).p)
              ELSE FDiv(in.t, Num(0, Decimal(Digits(in.f)), 0), Num(0, BPow(<<10>>, 62), 0))>>)
ASSUME \A t \in {"float", "double", "ld", "quad"} :
  LET r == Constant([f |-> "sqrt2", t |-> t]).v[2]
      h == Num(0, <<1>>, -Fmt(t).p)
      sq(x) == NMul(x, x)
  IN NLe(sq(NSub(r, h)), Int_(2)) /\ NLe(Int_(2), sq(NAdd(r, h)))
\* named types hold the value they are given; those that stand for counts and positions reject negative ones
NonNegative == {"First", "Endmost", "Size", "Count", "Pos", "Index", "Rows", "Cols", "ImplicitNonNegInt"}
Holding == {"Low", "High", "Start", "End", "Incr", "Value"}
Named(in) ==
  CASE in.f \in Holding -> OkV(<<in.t, in.y>>)
    [] in.f = "Seed" -> OkV(<<"uint", in.y>>)
    [] in.f = "ImplicitBool" -> OkV(<<"bool", in.y>>)
    [] in.f \in NonNegative -> IF in.y.s = 1 THEN Err ELSE OkV(<<"long", in.y>>)
    [] in.f \in {"Stride", "ImplicitInt", "ImplicitIntStatic"} -> OkV(<<"long", in.y>>)
    \* last - a + b - ... names the element that many places before the end; ImplicitInt sums
    [] in.f \in {"last", "int"} -> OkV(<<"long", Fold(LAMBDA a, x : NAdd(a, IF (x.sg = "-") = (in.f = "last") THEN x.y ELSE Neg(x.y)), Zero0, in.terms)>>)

Defined(q, c) == Step(q, c).o.k # "undef"
\* a history; nothing can be said after a conversion that has no meaning
Session(in) ==
  LET r == Fold(LAMBDA a, c : IF a.dead THEN a ELSE
                  LET z == Step(a.t, c) IN [t |-> z.t, os |-> Append(a.os, [o |-> z.o, t |-> z.t]), dead |-> c.op = "conv" /\ z.o.k = "undef"],
                [t |-> [t |-> "int", v |-> Zero0], os |-> <<>>, dead |-> FALSE], in)
  IN r.os

(* -------------------- exhaustive exploration: boundary values -------------------- *)
Pow2(k) == Num(0, <<1>>, k)
Pat(t) == Num(0, Shr(Carry(Rep(6, 1365)), 72 - Width(t) + (IF Signed(t) THEN 1 ELSE 0)), 0)       \* 0101...
IntVals(t) ==
  LET w == Width(t)
      pos == {Int_(n) : n \in {0, 1, 2, 3, 7, 12345, w - 1}} \cup {MaxInt(t), NSub(MaxInt(t), Int_(1)), Pat(t)} \cup
             (IF Depth > 1 THEN {Pow2(w \div 2), NSub(Pow2(w \div 2), Int_(1)), Pow2(w - 2), Int_(10), Int_(1000000007)} ELSE {})
  IN IF ~Signed(t) THEN pos
     ELSE pos \cup {MinInt(t), NAdd(MinInt(t), Int_(1))} \cup {Int_(n) : n \in {-1, -2, -7}} \cup
          (IF Depth > 1 THEN {Neg(Pow2(w \div 2)), Neg(Pat(t)), Int_(-12345)} ELSE {})
FloatVals(t) ==
  LET F == Fmt(t)
      pos == {Int_(n) : n \in {0, 1, 3, 10}} \cup {Frac(1, -1), Frac(11, -2), FDiv(t, Int_(1), Int_(10)), NAdd(Int_(1), Pow2(1 - F.p)), NSub(Int_(1), Pow2(-F.p)), NAdd(Pow2(F.p), Int_(2))} \cup
             {Inf(0), NSub(Pow2(60), Pow2(60 - F.p))} \cup
             (IF t # "ld" THEN {NSub(Pow2(F.top), Pow2(F.top - F.p)), Pow2(F.low), Pow2(F.low + F.p - 1)} ELSE {}) \cup
             (IF Depth > 1 THEN {Frac(5, -3), Pow2(-30), NSub(Pow2(F.p), Int_(1)), FDiv(t, Int_(2), Int_(3)), Int_(1000000)} ELSE {})
  IN pos \cup {Neg(x) : x \in {y \in pos : IF Depth > 1 THEN TRUE ELSE y.k = "inf" \/ BitLen(y.m) <= 4}} \cup {NaN}
ValsOf(t) == IF t = "bool" THEN {Int_(0), Int_(1)} ELSE IF t \in IntTypes THEN IntVals(t) ELSE FloatVals(t)
Commands(t) ==
  {[op |-> "un", f |-> f] : f \in UnOps(t)} \cup
  {[op |-> "bin", f |-> f, y |-> y] : f \in BinOps(t) \cup CmpOps, y \in ValsOf(t)} \cup
  {[op |-> "comp", f |-> f, y |-> y] : f \in CompOps(t), y \in ValsOf(t)} \cup
  {[op |-> "self", f |-> f] : f \in CompOps(t)} \cup
  {[op |-> "conv", to |-> to] : to \in IntTypes \cup {f \in FloatTypes : f # "quad" \/ "quad" \in Types_} \cup {"bool"}} \cup
  {[op |-> "const", f |-> f] : f \in {"default", "Zero", "One"} \cup (IF t = "bool" THEN {} ELSE {"Thousand", "Million", "Billion"}) \cup (IF t \in {"bool", "uint", "ulong"} THEN {} ELSE {"NegOne"})}
Init == s \in UNION {{[t |-> t, v |-> v] : v \in ValsOf(t)} : t \in Types_} /\ last = <<>>
Next == /\ last = <<>>
        /\ \E c \in Commands(s.t) : LET r == Step(s, c) IN r.o.k # "undef" /\ s' = r.t /\ last' = [c |-> c, o |-> r.o]
Spec == Init /\ [][Next]_vars
View == <<s, last>>

(* ------------------------------- properties ------------------------------- *)
\* every register always holds a value of its type
Typed == Fits(s.t, Clean(s.v))
ResultTyped == [][last'.o.k = "ok" => Fits(last'.o.v[1], Clean(last'.o.v[2]))]_vars
\* only zero divisors and negative shift operands are reported
Reported == [][last'.o.k = "err" <=> (last'.c.op \in {"bin", "comp", "self"} /\ s.t \in IntTypes /\
                 LET y == IF last'.c.op = "self" THEN s.v ELSE last'.c.y IN
                 \/ last'.c.f \in {"/", "%"} /\ IsZero(y)
                 \/ last'.c.f \in {"<<", ">>"} /\ (s.v.s = 1 \/ y.s = 1))]_vars
Rejected == [][last'.o.k = "err" => s' = s]_vars
\* laws relating the operations, for every pair of values
Laws == (last = <<>>) => \A y \in ValsOf(s.t) : LET t == s.t x == s.v B(f, a, b) == Bin(t, f, a, b) IN
  /\ \A f \in CmpOps : B(f, x, y) = B(CASE f = "<" -> ">" [] f = "<=" -> ">=" [] f = ">" -> "<" [] f = ">=" -> "<=" [] OTHER -> f, y, x)
  /\ B("==", x, y).v # B("!=", x, y).v
  /\ x # NaN /\ y # NaN => B("<", x, y).v # B(">=", x, y).v
  /\ t # "bool" => B("+", x, y) = B("+", y, x) /\ B("*", x, y) = B("*", y, x)
  /\ (t \in IntTypes /\ ~IsZero(y)) => LET d == B("/", x, y) m == B("%", x, y) IN
        (d.ok = "ok") => LET r == IntBin(t, "+", IntBin(t, "*", d.v, y).v, m.v) IN r = U(x)
  /\ t \in IntTypes => /\ B("^", B("^", x, y).v, y) = U(x)
                      /\ Un(t, "~", B("&", x, y).v) = B("|", Un(t, "~", x).v, Un(t, "~", y).v)
                      /\ IntBin(t, "^", x, x) = U(Int_(0))
  \* a rounded result is a nearest representable value
  /\ (t \in FloatTypes /\ IsNum(x) /\ IsNum(y)) => \A z \in {NAdd(x, y), NMul(x, y)} :
        LET r == Rn(t, z) IN IsNum(r) => \A c \in {x, y, Int_(1), Zero0} : NLe(AbsN(NSub(r, z)), AbsN(NSub(c, z)))
===========================================================================
