------------------------------- MODULE Types -------------------------------
(* The built-in scalar types and their operations, from exact values.       *)
(* Integers are two's complement; floating types are IEEE binary formats    *)
(* rounded to nearest even.                                                 *)
EXTENDS Big, Bitwise

(* ------------------------------ the types ------------------------------ *)
IntTypes == {"int", "long", "uint", "ulong"}
FloatTypes == {"float", "double", "ld", "quad"}
Width(t) == IF t \in {"int", "uint"} THEN 32 ELSE 64
Signed(t) == t \in {"int", "long"}
\* precision, exponent of the smallest subnormal, exponent bound: values are below 2^top
Fmt(t) == CASE t = "float" -> [p |-> 24, low |-> -149, top |-> 128]
            [] t = "double" -> [p |-> 53, low |-> -1074, top |-> 1024]
            [] t = "ld" -> [p |-> 64, low |-> -16445, top |-> 16384]
            [] t = "quad" -> [p |-> 113, low |-> -16494, top |-> 16384]
            [] t = "tiny" -> [p |-> 8, low |-> -200, top |-> 200]        \* for exhaustive reasoning about rounding only
MaxInt(t) == Num(0, BSub(Shl(<<1>>, IF Signed(t) THEN Width(t) - 1 ELSE Width(t)), <<1>>), 0)
MinInt(t) == IF Signed(t) THEN Num(1, <<1>>, Width(t) - 1) ELSE Zero0
\* round to nearest, ties to even; sticky says that something positive and tiny was cut off
Round(t, x, sticky) ==
  IF ~IsNum(x) \/ x.m = <<>> THEN x
  ELSE LET F == Fmt(t)
           n == BitLen(x.m)
           L == Max2(x.e + n - F.p, F.low)
           k == L - x.e
           q == Shr(x.m, k)
           rest == sticky \/ LowBits(x.m, k - 1) # <<>>
           up == Bit(x.m, k - 1) = 1 /\ (rest \/ Dig(q, 1) % 2 = 1)
           r == IF k <= 0 THEN x ELSE Num(x.s, IF up THEN BAdd(q, <<1>>) ELSE q, L)
       IN IF r.m # <<>> /\ r.e + BitLen(r.m) > F.top THEN Inf(x.s) ELSE r
Rn(t, x) == Round(t, x, FALSE)
Fits(t, x) == CASE t = "bool" -> x \in {Int_(0), Int_(1)}
                [] t \in IntTypes -> IsInt(x) /\ (IsZero(x) => x.s = 0) /\ NLe(MinInt(t), x) /\ NLe(x, MaxInt(t))
                [] OTHER -> Rn(t, x) = x
\* the integer congruent to x that the type represents
Wrap(t, x) == LET w == Width(t)
                  m == LowBits(Whole_(x), w)
                  u == IF x.s = 1 /\ m # <<>> THEN BSub(Shl(<<1>>, w), m) ELSE m
              IN IF Signed(t) /\ Bit(u, w - 1) = 1 THEN Num(1, BSub(Shl(<<1>>, w), u), 0) ELSE Num(0, u, 0)
Clean(x) == IF x.m = <<>> /\ x.k = "num" THEN Zero0 ELSE x
U(v) == [ok |-> "ok", v |-> v]
Bad == [ok |-> "err"]              \* reported in checking mode
Undef == [ok |-> "undef"]          \* no meaning in the wrapped type: never asked
\* an integer result: unsigned arithmetic is modular, signed overflow has no meaning
AsInt(t, x) == IF ~Signed(t) THEN U(Wrap(t, x)) ELSE IF Fits(t, Clean(x)) THEN U(Clean(x)) ELSE Undef
Bool(b) == U(Int_(IF b THEN 1 ELSE 0))

(* ------------------------- integer operations ------------------------- *)
\* two's complement pattern of an integer value, as digits
Pattern(t, x) == LET m == LowBits(Whole_(x), Width(t)) IN IF x.s = 1 /\ m # <<>> THEN BSub(Shl(<<1>>, Width(t)), m) ELSE m
FromPattern(t, m) == Wrap(t, Num(0, m, 0))
BitOp(t, f(_, _), x, y) == LET a == Pattern(t, x)
                               b == Pattern(t, y)
                           IN FromPattern(t, Trim([i \in 1..Max2(Len(a), Len(b)) |-> f(Dig(a, i), Dig(b, i))]))
And_(a, b) == a & b
Or_(a, b) == a | b
Xor_(a, b) == a ^^ b
IDiv(x, y) == Clean(Num(IF x.s = y.s THEN 0 ELSE 1, BDivMod(Whole_(x), Whole_(y)).q, 0))
IMod(x, y) == Clean(Num(x.s, BDivMod(Whole_(x), Whole_(y)).r, 0))
Small(x) == x.s = 0 /\ Len(Whole_(x)) <= 1
IntBin(t, op, x, y) ==
  CASE op = "+" -> AsInt(t, NAdd(x, y))
    [] op = "-" -> AsInt(t, NSub(x, y))
    [] op = "*" -> AsInt(t, NMul(x, y))
    [] op = "/" -> IF IsZero(y) THEN Bad ELSE AsInt(t, IDiv(x, y))
    [] op = "%" -> IF IsZero(y) THEN Bad ELSE IF AsInt(t, IDiv(x, y)) = Undef THEN Undef ELSE U(IMod(x, y))
    [] op = "<<" -> IF x.s = 1 \/ y.s = 1 THEN Bad
                    ELSE IF ~Small(y) \/ Dig(Whole_(y), 1) >= Width(t) THEN Undef ELSE U(Wrap(t, NMul(x, Num(0, <<1>>, Dig(Whole_(y), 1)))))
    [] op = ">>" -> IF x.s = 1 \/ y.s = 1 THEN Bad
                    ELSE IF ~Small(y) \/ Dig(Whole_(y), 1) >= Width(t) THEN Undef ELSE U(Num(0, Shr(Whole_(x), Dig(Whole_(y), 1)), 0))
    [] op = "&" -> U(BitOp(t, And_, x, y))
    [] op = "|" -> U(BitOp(t, Or_, x, y))
    [] op = "^" -> U(BitOp(t, Xor_, x, y))

(* ------------------------- floating operations ------------------------- *)
FAdd(t, x, y) == IF x.k = "nan" \/ y.k = "nan" THEN NaN
                 ELSE IF x.k = "inf" THEN (IF y.k = "inf" /\ x.s # y.s THEN NaN ELSE x)
                 ELSE IF y.k = "inf" THEN y ELSE Rn(t, NAdd(x, y))
FMul(t, x, y) == IF x.k = "nan" \/ y.k = "nan" THEN NaN
                 ELSE LET g == IF x.s = y.s THEN 0 ELSE 1 IN
                      IF x.k = "inf" \/ y.k = "inf" THEN (IF IsZero(x) \/ IsZero(y) THEN NaN ELSE Inf(g)) ELSE Rn(t, NMul(x, y))
FDiv(t, x, y) == IF x.k = "nan" \/ y.k = "nan" THEN NaN
                 ELSE LET g == IF x.s = y.s THEN 0 ELSE 1 IN
                      IF x.k = "inf" THEN (IF y.k = "inf" THEN NaN ELSE Inf(g))
                      ELSE IF y.k = "inf" THEN Num(g, <<>>, 0)
                      ELSE IF IsZero(y) THEN (IF IsZero(x) THEN NaN ELSE Inf(g))
                      ELSE IF IsZero(x) THEN Num(g, <<>>, 0)
                      ELSE LET k == Max2(0, Fmt(t).p + 2 + BitLen(y.m) - BitLen(x.m))
                               z == BDivMod(Shl(x.m, k), y.m)
                               \* one more bit carries what was cut off
                               m == BAdd(Shl(z.q, 2), IF z.r = <<>> THEN <<>> ELSE <<1>>)
                           IN Rn(t, Num(g, m, x.e - y.e - k - 2))
FMA(t, x, y, z) == IF x.k = "nan" \/ y.k = "nan" \/ z.k = "nan" THEN NaN
                   ELSE IF x.k = "inf" \/ y.k = "inf" THEN FAdd(t, FMul(t, x, y), z)
                   ELSE IF z.k = "inf" THEN z ELSE Rn(t, NAdd(NMul(x, y), z))
FSqrt(t, x) == IF x.k = "nan" \/ (x.s = 1 /\ ~IsZero(x)) THEN NaN
               ELSE IF x.k = "inf" \/ IsZero(x) THEN x
               ELSE LET k0 == Max2(0, 2 * (Fmt(t).p + 2) - BitLen(x.m))
                        k == IF (x.e - k0) % 2 = 0 THEN k0 ELSE k0 + 1
                        a == Shl(x.m, k)
                        r == BSqrt(a)
                        m == BAdd(Shl(r, 2), IF BMul(r, r) = a THEN <<>> ELSE <<1>>)
                    IN Rn(t, Num(0, m, (x.e - k) \div 2 - 2))
FloatBin(t, op, x, y) == U(CASE op = "+" -> FAdd(t, x, y) [] op = "-" -> FAdd(t, x, Neg(y)) [] op = "*" -> FMul(t, x, y) [] op = "/" -> FDiv(t, x, y))

(* ------------------------------ everything ------------------------------ *)
Cmp(op, x, y) == IF x.k = "nan" \/ y.k = "nan" THEN op = "!="
                 ELSE CASE op \in {"==", "equal"} -> NEq(x, y) [] op = "!=" -> ~NEq(x, y) [] op = "<" -> NLt(x, y)
                        [] op = "<=" -> NLe(x, y) [] op = ">" -> NLt(y, x) [] op = ">=" -> NLe(y, x)
CmpOps == {"==", "equal", "!=", "<", "<=", ">", ">="}
IntOps == {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"}
FloatOps == {"+", "-", "*", "/"}
BoolOps == {"^", "&&", "||"}
True(x) == x = Int_(1)
Bin(t, op, x, y) == CASE op \in CmpOps -> Bool(Cmp(op, x, y))
                      [] t = "bool" -> Bool(CASE op = "^" -> True(x) # True(y) [] op = "&&" -> True(x) /\ True(y) [] op = "||" -> True(x) \/ True(y))
                      [] t \in IntTypes -> IntBin(t, op, x, y)
                      [] OTHER -> FloatBin(t, op, x, y)
Un(t, op, x) == CASE op = "+" -> U(x)
                  [] op = "-" -> IF t \in FloatTypes THEN U(Neg(x)) ELSE AsInt(t, Neg(x))
                  [] op = "~" -> U(FromPattern(t, BSub(Pattern(t, Int_(-1)), Pattern(t, x))))
                  [] op = "!" -> Bool(~True(x))
                  [] op \in {"++", "p++"} -> Bin(t, "+", x, Int_(1))
                  [] op \in {"--", "p--"} -> Bin(t, "-", x, Int_(1))
UnOps(t) == IF t = "bool" THEN {"!"} ELSE {"+", "++", "p++", "--", "p--"} \cup (IF t \in {"uint", "ulong"} THEN {} ELSE {"-"}) \cup (IF t \in IntTypes THEN {"~"} ELSE {})
BinOps(t) == IF t = "bool" THEN BoolOps ELSE IF t \in IntTypes THEN IntOps ELSE FloatOps
CompOps(t) == IF t = "bool" THEN {} ELSE BinOps(t)
Conv(to, x) == CASE to = "bool" -> Bool(~IsZero(x))
                 [] to \in FloatTypes -> U(Rn(to, x))
                 [] OTHER -> IF ~IsNum(x) THEN Undef ELSE IF IsInt(x) THEN U(Clean(x)) ELSE U(Clean(Trunc(x)))
\* to an integer type: from integers modular, from floats only when the truncated value fits
Convert(from, to, x) == LET r == Conv(to, x) IN
  IF r.ok # "ok" \/ to \notin IntTypes THEN r
  ELSE IF from \in FloatTypes THEN (IF Fits(to, r.v) THEN r ELSE Undef) ELSE U(Wrap(to, r.v))
===========================================================================
