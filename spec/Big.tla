-------------------------------- MODULE Big --------------------------------
(* Unbounded natural numbers (little-endian digits in base 4096) and exact *)
(* binary fractions, so that 64-bit integers and IEEE floating values can  *)
(* be specified exactly although TLC computes with 32-bit integers.        *)
EXTENDS Lib
SX == INSTANCE SequencesExt
FoldLeft(f(_, _), x, q) == SX!FoldLeft(f, x, q)
Base == 4096

(* ---- naturals: <<>> is zero, no leading (last) zero digit ---- *)
Trim(d) == LET k == {i \in 1..Len(d) : d[i] # 0} IN IF k = {} THEN <<>> ELSE SubSeq(d, 1, CHOOSE i \in k : \A j \in k : j <= i)
RECURSIVE Spill(_, _)
Spill(c, d) == IF c = 0 THEN d ELSE Spill(c \div Base, Append(d, c % Base))
\* digits may be any integers; the total must not be negative
Carry(cs) == LET r == FoldLeft(LAMBDA a, x : LET t == x + a.c IN [c |-> t \div Base, d |-> Append(a.d, t % Base)], [c |-> 0, d |-> <<>>], cs)
             IN Trim(Spill(r.c, r.d))
Nat_(n) == Spill(n, <<>>)
Dig(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
BAdd(a, b) == Carry([i \in 1..Max2(Len(a), Len(b)) |-> Dig(a, i) + Dig(b, i)])
BSub(a, b) == Carry([i \in 1..Len(a) |-> a[i] - Dig(b, i)])          \* a >= b
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |->
                     FoldLeft(LAMBDA t, i : t + a[i] * b[k + 1 - i], 0, [i \in 1..(Min2(k, Len(a)) - Max2(1, k + 1 - Len(b)) + 1) |-> i + Max2(1, k + 1 - Len(b)) - 1])])
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>
TwoTo(k) == P2[k + 1]
BitsOf(x) == CHOOSE k \in 0..12 : x < TwoTo(k) /\ (k = 0 \/ x >= TwoTo(k - 1))
BitLen(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitsOf(a[Len(a)])
Shl(a, k) == IF a = <<>> THEN <<>> ELSE Rep(k \div 12, 0) \o Carry([i \in 1..Len(a) |-> a[i] * TwoTo(k % 12)])
Shr(a, k) == LET w == k \div 12
                 b == k % 12
             IN Trim([i \in 1..Max2(0, Len(a) - w) |-> a[i + w] \div TwoTo(b) + (Dig(a, i + w + 1) % TwoTo(b)) * TwoTo(12 - b)])
LowBits(a, k) == LET w == k \div 12 IN Trim([i \in 1..Min2(Len(a), w + 1) |-> IF i <= w THEN a[i] ELSE a[i] % TwoTo(k % 12)])
Bit(a, k) == (Dig(a, k \div 12 + 1) \div TwoTo(k % 12)) % 2
TailZeros(a) == LET i == CHOOSE j \in 1..Len(a) : a[j] # 0 /\ \A q \in 1..(j - 1) : a[q] = 0
                IN 12 * (i - 1) + (CHOOSE k \in 0..11 : a[i] % TwoTo(k + 1) = TwoTo(k))
\* quotient and remainder
BDivSmall(a, n) == LET r == FoldLeft(LAMBDA x, i : LET t == x.r * Base + a[Len(a) + 1 - i] IN [q |-> <<t \div n>> \o x.q, r |-> t % n], [q |-> <<>>, r |-> 0], [i \in 1..Len(a) |-> i])
                   IN [q |-> Trim(r.q), r |-> Nat_(r.r)]
BDivMod(a, b) ==
  IF BCmp(a, b) < 0 THEN [q |-> <<>>, r |-> a]
  ELSE IF Len(b) = 1 THEN BDivSmall(a, b[1])
  ELSE LET n == BitLen(a)
           l == BitLen(b)
           \* bits of the quotient, from the top
           z == FoldLeft(LAMBDA x, i : LET k == n - l + 1 - i
                                           r == BAdd(BAdd(x.r, x.r), Nat_(Bit(a, k)))
                                       IN IF BCmp(r, b) >= 0 THEN [r |-> BSub(r, b), q |-> Append(x.q, 1)] ELSE [r |-> r, q |-> Append(x.q, 0)],
                         [r |-> Shr(a, n - l + 1), q |-> <<>>], [i \in 1..(n - l + 1) |-> i])
           m == Len(z.q)
       IN [q |-> Trim([i \in 1..((m + 11) \div 12) |-> FoldLeft(LAMBDA t, j : t * 2 + (IF m - (12 * i - j) >= 1 THEN z.q[m - (12 * i - j)] ELSE 0), 0, [j \in 1..12 |-> j])]), r |-> z.r]
BGcd(a, b) == LET RECURSIVE G(_, _)
                  G(x, y) == IF y = <<>> THEN x ELSE G(y, BDivMod(x, y).r)
              IN G(a, b)
BPow(a, n) == FoldLeft(LAMBDA x, i : BMul(x, a), <<1>>, [i \in 1..n |-> i])
\* the natural number with the given decimal digits
Decimal(ds) == FoldLeft(LAMBDA x, d : BAdd(BMul(x, <<10>>), Nat_(d)), <<>>, ds)
\* largest r with r * r <= a
BSqrt(a) == LET h == (BitLen(a) + 1) \div 2
            IN FoldLeft(LAMBDA r, i : LET t == BAdd(r, Shl(<<1>>, h - i)) IN IF BCmp(BMul(t, t), a) <= 0 THEN t ELSE r, <<>>, [i \in 1..h |-> i])

(* ---- exact values: (-1)^s * m * 2^e with m odd, zeros with a sign, the infinities, NaN ---- *)
Num(s, m, e) == IF m = <<>> THEN [k |-> "num", s |-> s, m |-> <<>>, e |-> 0]
                ELSE LET z == TailZeros(m) IN [k |-> "num", s |-> s, m |-> Shr(m, z), e |-> e + z]
Int_(n) == Num(IF n < 0 THEN 1 ELSE 0, Nat_(Abs(n)), 0)
Frac(n, e) == Num(IF n < 0 THEN 1 ELSE 0, Nat_(Abs(n)), e)
Inf(s) == [k |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
NaN == [k |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
Zero0 == Int_(0)
IsNum(x) == x.k = "num"
IsZero(x) == x.k = "num" /\ x.m = <<>>
IsInt(x) == x.k = "num" /\ (x.m = <<>> \/ x.e >= 0)
Whole_(x) == Shl(x.m, x.e)                       \* magnitude of an integer value
Neg(x) == IF x.k = "nan" THEN x ELSE [x EXCEPT !.s = 1 - @]
AbsN(x) == [x EXCEPT !.s = 0]
\* exact sum, difference, product of finite values
NAdd(x, y) ==
  IF x.m = <<>> THEN (IF y.m = <<>> THEN Num(IF x.s = 1 /\ y.s = 1 THEN 1 ELSE 0, <<>>, 0) ELSE y)
  ELSE IF y.m = <<>> THEN x
  ELSE LET e == Min2(x.e, y.e)
           a == Shl(x.m, x.e - e)
           b == Shl(y.m, y.e - e)
           c == BCmp(a, b)
       IN IF x.s = y.s THEN Num(x.s, BAdd(a, b), e)
          ELSE IF c = 0 THEN Zero0
          ELSE IF c > 0 THEN Num(x.s, BSub(a, b), e) ELSE Num(y.s, BSub(b, a), e)
NSub(x, y) == NAdd(x, Neg(y))
NMul(x, y) == Num(IF x.s = y.s THEN 0 ELSE 1, BMul(x.m, y.m), x.e + y.e)
NPow(x, n) == FoldLeft(LAMBDA a, i : NMul(a, x), Int_(1), [i \in 1..n |-> i])
\* order of two values that are not NaN; zeros are equal
Sign(x) == IF IsZero(x) THEN 0 ELSE IF x.s = 1 THEN -1 ELSE 1
MagCmp(x, y) ==
  IF x.k = "inf" \/ y.k = "inf" THEN (IF x.k = y.k THEN 0 ELSE IF x.k = "inf" THEN 1 ELSE -1)
  ELSE IF x.m = <<>> \/ y.m = <<>> THEN (IF x.m = y.m THEN 0 ELSE IF x.m = <<>> THEN -1 ELSE 1)
  ELSE LET tx == x.e + BitLen(x.m)
           ty == y.e + BitLen(y.m)
           e == Min2(x.e, y.e)
       IN IF tx # ty THEN (IF tx < ty THEN -1 ELSE 1) ELSE BCmp(Shl(x.m, x.e - e), Shl(y.m, y.e - e))
NCmp(x, y) == IF Sign(x) # Sign(y) THEN (IF Sign(x) < Sign(y) THEN -1 ELSE 1)
              ELSE IF Sign(x) >= 0 THEN MagCmp(x, y) ELSE MagCmp(y, x)
NLe(x, y) == NCmp(x, y) <= 0
NLt(x, y) == NCmp(x, y) < 0
NEq(x, y) == NCmp(x, y) = 0
\* same value up to the sign of zero
Same(x, y) == x = y \/ (IsZero(x) /\ IsZero(y))
\* toward zero
Trunc(x) == IF IsInt(x) THEN x ELSE Num(x.s, Shr(x.m, -x.e), 0)
Floor(x) == IF IsInt(x) THEN x ELSE IF x.s = 0 THEN Trunc(x) ELSE NSub(Trunc(x), Int_(1))
Ceil(x) == Neg(Floor(Neg(x)))
===========================================================================
