-------------------------------- MODULE IO --------------------------------
(* Reading arrays from text and writing them as text.  The state holds one *)
(* one-dimensional array, one matrix, two files and the output format.     *)
(* Texts are sequences of character codes.  Written text is not unique     *)
(* (spacing is free), so the specification is a relation Legal between     *)
(* states, commands and observations; reading is a function of the text.   *)
EXTENDS Types
CONSTANTS Type_, Alphabet, MaxText
VARIABLES s, last
vars == <<s, last>>

(* -------------------------------- text -------------------------------- *)
Space == {9, 10, 11, 12, 13, 32}
NL == 10
\* maximal pieces of x without characters of sep
Pieces(x, sep) == FoldLeft(LAMBDA a, ch : IF ch \in sep THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, ch)], << <<>> >>, x)
Tokens(x) == SelectSeq(Pieces(x, Space), LAMBDA p : p # <<>>)
\* a last line without line end counts unless it is empty
Lines(x) == LET p == Pieces(x, {NL}) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
IsDigit(ch) == ch \in 48..57
Digits(x) == \A i \in 1..Len(x) : IsDigit(x[i])
IsSign(ch) == ch \in {43, 45}
Unsign(x) == IF x # <<>> /\ IsSign(x[1]) THEN Tail(x) ELSE x
Minus(x) == x # <<>> /\ x[1] = 45
IntWord(x) == Unsign(x) # <<>> /\ Digits(Unsign(x))
\* [+-] digits [. digits] [e [+-] digits], at least one digit in front of the exponent
EPos(x) == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : x[i] \in {69, 101})
Mant(x) == LET u == Unsign(x) IN IF EPos(u) = <<>> THEN u ELSE SubSeq(u, 1, EPos(u)[1] - 1)
Expo(x) == LET u == Unsign(x) IN IF EPos(u) = <<>> THEN <<48>> ELSE SubSeq(u, EPos(u)[1] + 1, Len(u))
FloatWord(x) == LET p == Pieces(Mant(x), {46})
                IN /\ Len(EPos(x)) <= 1 /\ Len(p) <= 2 /\ \A i \in 1..Len(p) : Digits(p[i])
                   /\ \E i \in 1..Len(p) : p[i] # <<>>
                   /\ IntWord(Expo(x))
Word(t, x) == IF t \in FloatTypes THEN FloatWord(x) ELSE IntWord(x)
\* "1-2" is two numbers to some and none to others: no meaning is given to it
RECURSIVE Several(_, _)
Several(t, x) == \E k \in 1..(Len(x) - 1) : LET r == SubSeq(x, k + 1, Len(x)) IN Word(t, SubSeq(x, 1, k)) /\ (Word(t, r) \/ Several(t, r))
NumberOf(x) == Decimal([i \in 1..Len(x) |-> x[i] - 48])
SmallInt(x) == LET z == SelectSeq([i \in 1..Len(Unsign(x)) |-> i], LAMBDA i : \E j \in 1..i : Unsign(x)[j] # 48)
                   n == FoldLeft(LAMBDA a, i : IF a > 99999 THEN a ELSE 10 * a + Unsign(x)[i] - 48, 0, z)
               IN IF Minus(x) THEN -n ELSE n
\* value digits * 10^x of a decimal word
Dec(x) == LET p == Pieces(Mant(x), {46})
              fr == IF Len(p) = 2 THEN p[2] ELSE <<>>
          IN [s |-> IF Minus(x) THEN 1 ELSE 0, m |-> NumberOf(p[1] \o fr), x |-> SmallInt(Expo(x)) - Len(fr), frac |-> Len(fr)]
Ten(k) == Num(0, BPow(<<5>>, k), k)
DecRound(t, d) == IF d.m = <<>> THEN Num(d.s, <<>>, 0)
                  ELSE IF d.x >= 0 THEN Rn(t, NMul(Num(d.s, d.m, 0), Ten(d.x)))
                  ELSE FDiv(t, Num(d.s, d.m, 0), Ten(-d.x))
V_(x) == [k |-> "num", v |-> x]
BadV == [k |-> "bad", v |-> Zero0]
OddV == [k |-> "odd", v |-> Zero0]
Long(t) == t \in {"ld", "quad"}
Limit(t) == IF Long(t) THEN 300 ELSE 400
\* extended precision also has words for infinity, not-a-number and base sixteen
Named(x) == \E i \in 1..Len(x) : x[i] \in {73, 105, 78, 110, 88, 120}
Value(t, x) ==
  IF ~Word(t, x) THEN (IF Several(t, x) \/ (t = "quad" /\ Named(x)) THEN OddV ELSE BadV)
  ELSE IF t \in FloatTypes THEN
         LET d == Dec(x) IN
         IF d.m # <<>> /\ Abs(d.x) > Limit(t) THEN (IF d.x > 0 /\ ~Long(t) THEN BadV ELSE OddV)
         ELSE LET r == DecRound(t, d) IN IF r.k = "inf" THEN BadV ELSE IF IsZero(r) /\ d.m # <<>> THEN OddV ELSE V_(r)
  ELSE IF Minus(x) /\ ~Signed(t) THEN OddV
  ELSE LET r == Clean(Num(IF Minus(x) THEN 1 ELSE 0, NumberOf(Unsign(x)), 0)) IN IF Fits(t, r) THEN V_(r) ELSE BadV

(* ------------------------------- reading ------------------------------- *)
Vals(t, toks) == [i \in 1..Len(toks) |-> Value(t, toks[i])]
Nums(vs) == [i \in 1..Len(vs) |-> vs[i].v]
Has(vs, k) == \E i \in 1..Len(vs) : vs[i].k = k
\* "undef" texts are given no meaning; "err" texts are rejected
Read1(t, x) == LET vs == Vals(t, Tokens(x)) IN
  IF Has(vs, "odd") THEN [k |-> "undef"] ELSE IF Has(vs, "bad") THEN [k |-> "err"] ELSE [k |-> "ok", q |-> Nums(vs)]
Read2(t, x) ==
  LET ls == Lines(x)
      first == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : Tokens(ls[i]) # <<>>)
      body == SelectSeq(SubSeq(ls, IF first = <<>> THEN Len(ls) + 1 ELSE first[1], Len(ls)), LAMBDA l : l # <<>>)
      rows == [i \in 1..Len(body) |-> Vals(t, Tokens(body[i]))]
  IN IF \E i \in 1..Len(rows) : rows[i] = <<>> \/ Has(rows[i], "odd") THEN [k |-> "undef"]
     ELSE IF \E i \in 1..Len(rows) : Has(rows[i], "bad") \/ Len(rows[i]) # Len(rows[1]) THEN [k |-> "err"]
     ELSE [k |-> "ok", m |-> IF rows = <<>> THEN MEmpty ELSE [m |-> Len(rows), n |-> Len(rows[1]), d |-> FoldLeft(LAMBDA a, r : a \o Nums(r), <<>>, rows)]]
\* n scalars, one after the other; what was read before the first failure stays read
ReadN(t, x, n) ==
  LET tk == Tokens(x)
      vs == Vals(t, SubSeq(tk, 1, Min2(n, Len(tk))))
      bad == SelectSeq([i \in 1..Len(vs) |-> i], LAMBDA i : vs[i].k # "num")
      good == IF bad = <<>> THEN Len(vs) ELSE bad[1] - 1
      \* a bad word may start with a number: then scalars are given no meaning
      und == \E i \in 1..Len(vs) : vs[i].k = "odd" \/ (vs[i].k = "bad" /\ \E k \in 1..(Len(tk[i]) - 1) : Word(t, SubSeq(tk[i], 1, k)))
  IN IF und THEN [k |-> "undef"] ELSE [k |-> "ok", q |-> SubSeq(Nums(vs), 1, good), all |-> IF good = n THEN 1 ELSE 0]

(* ------------------------------- writing ------------------------------- *)
Sel_(q, f(_)) == [i \in 1..Len(f(Len(q))) |-> q[f(Len(q))[i] + 1]]
Negs(t, q) == [i \in 1..Len(q) |-> IF t \in FloatTypes THEN Neg(q[i]) ELSE Clean(Neg(q[i]))]
Obj(st, src) ==
  LET b == st.b IN
  CASE src.k = "a" -> [d |-> 1, q |-> st.a]
    [] src.k = "rev" -> [d |-> 1, q |-> Rev(st.a)]
    [] src.k = "even" -> [d |-> 1, q |-> Pick(st.a, SelectSeq(Upto(Len(st.a)), LAMBDA p : p % 2 = 0))]
    [] src.k = "neg" -> [d |-> 1, q |-> Negs(st.t, st.a)]
    [] src.k = "twice" -> [d |-> 1, q |-> st.a \o st.a]
    [] src.k = "row" -> [d |-> 1, q |-> Row(b, src.i)]
    [] src.k = "col" -> [d |-> 1, q |-> Col(b, src.i)]
    [] src.k = "view" -> [d |-> 1, q |-> b.d]
    [] src.k = "b" -> [d |-> 2, m |-> b]
    [] src.k = "bT" -> [d |-> 2, m |-> IF b.m = 0 THEN MEmpty ELSE Mx(b.n, b.m, LAMBDA i, j : El(b, j, i))]
    [] src.k = "bneg" -> [d |-> 2, m |-> [b EXCEPT !.d = Negs(st.t, @)]]
    [] src.k = "brev" -> [d |-> 2, m |-> PickRC(b, Rev(Upto(b.m)), Upto(b.n))]
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + n - 10 * (n \div 10))
Lit(x) == [w |-> "lit", x |-> x, v |-> Zero0]
Val(x) == [w |-> "val", x |-> <<>>, v |-> x]
Label1(g, i) == IF g.det = 1 THEN <<Lit(<<91>> \o NatText(i) \o <<93>>), Lit(<<61>>)>> ELSE <<>>
Label2(g, i, j) == IF g.det = 1 THEN <<Lit(<<91>> \o NatText(i) \o <<44>>), Lit(NatText(j) \o <<93>>), Lit(<<61>>)>> ELSE <<>>
Flat(qq) == FoldLeft(LAMBDA a, q : a \o q, <<>>, qq)
Body(g, o) ==
  IF o.d = 1 THEN LET items == [i \in 1..Len(o.q) |-> Label1(g, i - 1) \o <<Val(o.q[i])>>] IN IF g.row = 1 THEN <<Flat(items)>> ELSE items
  ELSE [i \in 1..o.m.m |-> Flat([j \in 1..o.m.n |-> Label2(g, i - 1, j - 1) \o <<Val(El(o.m, i - 1, j - 1))>>])]
IsVoid(o) == IF o.d = 1 THEN o.q = <<>> ELSE o.m.d = <<>>
Wanted(g, o, name) == (IF name = <<>> THEN <<>> ELSE << <<Lit(Append(name, 58))>> >>)
                      \o (IF g.det = 1 /\ IsVoid(o) THEN << <<Lit(<<91, 93>>)>> >> ELSE <<>>) \o SelectSeq(Body(g, o), LAMBDA l : l # <<>>)
Prec(g, t) == CASE t = "float" -> g.pf [] t = "double" -> g.pd [] t = "ld" -> g.pl [] t = "quad" -> g.pq
Names == [true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>, inf |-> <<105, 110, 102>>, nan |-> <<110, 97, 110>>]
\* the word shows v to the promised number of digits: off by at most half a unit of its last digit
Near(d, v) == LET a == NMul(Num(d.s, d.m, 0), IF d.x > 0 THEN Ten(d.x) ELSE Int_(1))
                  b == IF d.x < 0 THEN NMul(v, Ten(-d.x)) ELSE v
                  u == IF d.x > 0 THEN Ten(d.x) ELSE Int_(1)
              IN NLe(NMul(Int_(2), AbsN(NSub(a, b))), u)
Lower(x) == [i \in 1..Len(x) |-> IF x[i] \in 65..90 THEN x[i] + 32 ELSE x[i]]
Shows(g, t, x, v) ==
  CASE t = "bool" -> x = (IF True(v) THEN Names.true ELSE Names.false)
    [] t \in IntTypes -> IntWord(x) /\ Value(t, x) = V_(v)
    [] v.k # "num" -> Lower(Unsign(x)) = Names[v.k] /\ (v.k = "inf" => (Minus(x) <=> v.s = 1))
    [] OTHER -> /\ FloatWord(x)
                /\ (EPos(x) # <<>>) <=> (g.sci = 1)
                /\ LET d == Dec(x)
                       p == Pieces(Mant(x), {46})
                   IN /\ d.frac = Prec(g, t) /\ (Minus(x) <=> v.s = 1)
                      /\ g.sci = 1 => Len(p[1]) = 1 /\ (v.m # <<>> => p[1] # <<48>>)
                      /\ IF v.m = <<>> THEN d.m = <<>> ELSE Near(d, v)
LineOk(g, t, x, want) == LET k == Tokens(x) IN
  Len(k) = Len(want) /\ \A i \in 1..Len(k) : IF want[i].w = "lit" THEN k[i] = want[i].x ELSE Shows(g, t, k[i], want[i].v)
TextOk(g, t, x, want) == LET ls == SelectSeq(Lines(x), LAMBDA l : Tokens(l) # <<>>) IN
  Len(ls) = Len(want) /\ \A i \in 1..Len(ls) : LineOk(g, t, ls[i], want[i])

(* ------------------------------ the system ------------------------------ *)
NoFile == [k |-> "none", x |-> <<>>]
File(x) == [k |-> "text", x |-> x]
Plain == [sci |-> 1, pf |-> 7, pd |-> 16, pl |-> 19, pq |-> 33, det |-> 0, row |-> 0]
Start(t) == [t |-> t, a |-> <<>>, b |-> MEmpty, f |-> <<NoFile, NoFile>>, g |-> Plain]
Put(st, i, F) == [st EXCEPT !.f[i] = F]
Pairs(w, o, t, st) == o = w /\ t = st
\* observation (o, t) is a legal answer to command c in state st
Legal(st, c, o, t) ==
  LET F == st.f[c.i]
      r1 == Read1(st.t, F.x)
      r2 == Read2(st.t, F.x)
  IN
  CASE c.op = "init" -> Pairs(Ok, o, t, Start(c.t))
    [] c.op = "seta" -> Pairs(Ok, o, t, [st EXCEPT !.a = c.q])
    [] c.op = "setb" -> Pairs(Ok, o, t, [st EXCEPT !.b = c.m])
    [] c.op = "fmt" -> Pairs(Ok, o, t, [st EXCEPT !.g = c.g])
    [] c.op = "resetfmt" -> Pairs(Ok, o, t, [st EXCEPT !.g = Plain])
    [] c.op = "text" -> Pairs(Ok, o, t, Put(st, c.i, File(c.x)))
    [] c.op = "del" -> Pairs(Ok, o, t, Put(st, c.i, NoFile))
    [] c.op = "dir" -> Pairs(Ok, o, t, Put(st, c.i, [k |-> "dir", x |-> <<>>]))
    [] c.op = "read1" -> IF F.k # "text" THEN Pairs(Err, o, t, st)
                         ELSE IF r1.k = "undef" THEN TRUE
                         ELSE IF r1.k = "err" THEN Pairs(Err, o, t, st) ELSE Pairs(Ok, o, t, [st EXCEPT !.a = r1.q])
    [] c.op = "read2" -> IF F.k # "text" THEN Pairs(Err, o, t, st)
                         ELSE IF r2.k = "undef" THEN TRUE
                         ELSE IF r2.k = "err" THEN Pairs(Err, o, t, st) ELSE Pairs(Ok, o, t, [st EXCEPT !.b = r2.m])
    \* a stream that cannot be read at all
    [] c.op = "unread" -> Pairs(Err, o, t, st)
    [] c.op = "scal" -> LET r == ReadN(st.t, c.x, c.n) IN IF r.k = "undef" THEN t = st ELSE Pairs(OkV([q |-> r.q, all |-> r.all]), o, t, st)
    [] c.op = "write" -> /\ o = Ok /\ t = Put(st, c.i, t.f[c.i]) /\ t.f[c.i].k = "text"
                         /\ TextOk(st.g, st.t, t.f[c.i].x, Wanted(st.g, Obj(st, c.src), c.name))
    [] c.op = "wbad" -> Pairs(Err, o, t, st)
    [] c.op = "emit" -> /\ o.k = "ok" /\ t = st
                        /\ TextOk(st.g, st.t, o.v, Flat([i \in 1..Len(c.srcs) |-> Wanted(st.g, Obj(st, c.srcs[i]), IF i = 1 THEN c.name ELSE <<>>)]))
    [] c.op = "emitx" -> /\ o.k = "ok" /\ t = st
                         /\ TextOk(st.g, st.t, o.v, (IF c.name = <<>> THEN <<>> ELSE << <<Lit(Append(c.name, 58))>> >>) \o [i \in 1..Len(c.q) |-> <<Val(c.q[i])>>])
    [] c.op = "index" -> /\ o.k = "ok" /\ t = st
                         /\ TextOk(st.g, "long", o.v, [i \in 1..Len(c.q) |-> <<Val(c.q[i])>>])

(* ------------------ every short text, for one element type ------------------ *)
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxText}
Marked == LET one == Int_(1) IN [Start(Type_) EXCEPT !.a = <<one, one>>, !.b = [m |-> 1, n |-> 2, d |-> <<one, one>>]]
Init == \E x \in Texts : s = Put(Marked, 1, File(x)) /\ last = [c |-> [op |-> "text", i |-> 1, x |-> x], o |-> Ok]
Reads(op, r, st) == /\ r.k # "undef"
                    /\ last' = [c |-> [op |-> op, i |-> 1], o |-> IF r.k = "ok" THEN Ok ELSE Err]
                    /\ s' = IF r.k = "ok" THEN st ELSE s
Next == /\ last.c.op = "text"
        /\ LET x == s.f[1].x
               r1 == Read1(s.t, x)
               r2 == Read2(s.t, x)
           IN \/ Reads("read1", r1, [s EXCEPT !.a = IF r1.k = "ok" THEN r1.q ELSE @])
              \/ Reads("read2", r2, [s EXCEPT !.b = IF r2.k = "ok" THEN r2.m ELSE @])
Spec == Init /\ [][Next]_vars
View == <<s, last>>
\* what the system may do is what Legal says
Agreed == [][Legal(s, last'.c, last'.o, s')]_vars
\* a rejected text changes nothing
AllOrNothing == [][last'.o = Err => s' = s]_vars
\* a matrix that is accepted is well shaped, and reading it as one sequence gives its elements
Shaped == LET x == s.f[1].x
              r2 == Read2(s.t, x)
          IN r2.k = "ok" => WellShaped(r2.m) /\ Read1(s.t, x) = [k |-> "ok", q |-> r2.m.d]
\* line ends and blanks around a text do not matter
Padded == LET x == s.f[1].x
              r == Read1(s.t, x)
          IN Read1(s.t, <<32, 10>> \o x \o <<10, 32>>) = r /\ (Read2(s.t, x).k = "ok" => Read2(s.t, <<10, 32, 10>> \o x \o <<10>>) = Read2(s.t, x))
===========================================================================
