------------------------------- MODULE Thold --------------------------------
(***************************************************************************)
(* Signing thresholds: numeric (a number of signatures) or weighted (an    *)
(* ordered list of clauses of fractional weights), their notations (event  *)
(* field "sith", parsed expression "thold", compact text "limen") and the  *)
(* sets of signers that satisfy them.                                      *)
(*   numeric   [ok, w |-> FALSE, n |-> big-endian bytes]                    *)
(*   weighted  [ok, w |-> TRUE, cl |-> <<clause>>], clause = <<weight>>,    *)
(*             weight = [n, d] in lowest terms                              *)
(***************************************************************************)
EXTENDS Jval, Typed, BigNat

(********************************* weights *********************************)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lowest(n, d) == LET g == Gcd(n, d) IN [n |-> n \div g, d |-> d \div g]

IsDec(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] >= 48 /\ t[i] <= 57
MaxI32 == <<50,49,52,55,52,56,51,54,52,55>>
RECURSIVE DecStrip(_)
DecStrip(t) == IF Len(t) > 1 /\ t[1] = 48 THEN DecStrip(SubSeq(t, 2, Len(t))) ELSE t
RECURSIVE DecInt(_)
DecInt(t) == IF t = <<>> THEN 0 ELSE DecInt(SubSeq(t, 1, Len(t) - 1)) * 10 + (t[Len(t)] - 48)
FitsI32(t) == IsDec(t) /\ DigitsLeq(DecStrip(t), MaxI32)

\* a weight as written; sep is the fraction bar
Weight(t, sep) ==
  LET ps == Split(t, sep) IN
  CASE Len(ps) = 1 -> IF t = <<48>> THEN [ok |-> TRUE, n |-> 0, d |-> 1]
                      ELSE IF t = <<49>> THEN [ok |-> TRUE, n |-> 1, d |-> 1] ELSE Bad
    [] Len(ps) = 2 -> IF FitsI32(ps[1]) /\ FitsI32(ps[2])
                      THEN LET n == DecInt(DecStrip(ps[1])) d == DecInt(DecStrip(ps[2])) IN
                           IF d = 0 \/ n > d THEN Bad
                           ELSE LET w == Lowest(n, d) IN [ok |-> TRUE, n |-> w.n, d |-> w.d]
                      ELSE Bad
    [] OTHER -> Bad
WeightText(w, sep) == IF w.d = 1 THEN IntDec(w.n) ELSE IntDec(w.n) \o <<sep>> \o IntDec(w.d)

\* exact sum of weights as a pair of big naturals
RECURSIVE SumFrom(_, _, _)
SumFrom(ws, i, acc) ==
  IF i > Len(ws) THEN acc
  ELSE LET n == NOf(ws[i].n) d == NOf(ws[i].d) IN
       SumFrom(ws, i + 1,
               IF d = acc.d THEN [n |-> NAdd(acc.n, n), d |-> d]
               ELSE IF ws[i].n = 0 THEN acc
               ELSE [n |-> NAdd(NMul(acc.n, d), NMul(n, acc.d)), d |-> NMul(acc.d, d)])
Sum(ws) == SumFrom(ws, 1, [n |-> <<>>, d |-> <<1>>])
AtLeastOne(ws) == LET s == Sum(ws) IN ~NLess(s.n, s.d)

(******************************* construction ******************************)
RECURSIVE DecBytesAcc(_, _)
\* big-endian bytes of a decimal text
MulAdd(b, m, c) ==   \* b * m + c on big-endian bytes
  LET F[i \in 0..Len(b)] == IF i = 0 THEN [car |-> c, out |-> <<>>]
                            ELSE LET p == F[i-1] x == b[Len(b) + 1 - i] * m + p.car
                                 IN [car |-> x \div 256, out |-> <<x % 256>> \o p.out]
      r == F[Len(b)]
  IN IF r.car = 0 THEN r.out ELSE <<r.car>> \o r.out
DecBytesAcc(t, acc) == IF t = <<>> THEN acc ELSE DecBytesAcc(SubSeq(t, 2, Len(t)), MulAdd(acc, 10, t[1] - 48))
DecBytes(t) == Strip(DecBytesAcc(t, <<>>))

\* long division by ten: decimal text of big-endian bytes
RECURSIVE BytesDecAcc(_, _)
Div10(b) ==
  LET F[i \in 0..Len(b)] == IF i = 0 THEN [r |-> 0, q |-> <<>>]
                            ELSE LET p == F[i-1] x == p.r * 256 + b[i]
                                 IN [r |-> x % 10, q |-> Append(p.q, x \div 10)]
  IN F[Len(b)]
BytesDecAcc(b, acc) == IF b = <<>> THEN acc
                       ELSE LET x == Div10(b) IN BytesDecAcc(Strip(x.q), <<48 + x.r>> \o acc)
BytesDec(b) == IF Strip(b) = <<>> THEN <<48>> ELSE BytesDecAcc(Strip(b), <<>>)

Numeric(b) == IF Len(Strip(b)) <= 4 THEN [ok |-> TRUE, w |-> FALSE, n |-> Strip(b)] ELSE Bad

\* clauses given as texts
Weighted(cls, sep) ==
  IF cls = <<>> THEN Bad ELSE
  LET ws == Now([i \in 1..Len(cls) |-> Now([j \in 1..Len(cls[i]) |-> Weight(cls[i][j], sep)])]) IN
  IF \E i \in 1..Len(ws) : \E j \in 1..Len(ws[i]) : ~ws[i][j].ok THEN Bad ELSE
  LET cl == Now([i \in 1..Len(ws) |-> Now([j \in 1..Len(ws[i]) |-> [n |-> ws[i][j].n, d |-> ws[i][j].d]])]) IN
  IF \E i \in 1..Len(cl) : ~AtLeastOne(cl[i]) THEN Bad ELSE [ok |-> TRUE, w |-> TRUE, cl |-> cl]

Slash == 47
IsClause(x) == IsArr(x) /\ \A i \in 1..Len(x.v) : IsStr(x.v[i])
ClauseTexts(x) == [i \in 1..Len(x.v) |-> x.v[i].v]
OfClauses(x) == IF \A i \in 1..Len(x.v) : IsClause(x.v[i])
                THEN Weighted([i \in 1..Len(x.v) |-> ClauseTexts(x.v[i])], Slash) ELSE Bad
OfInt(t) == IF t[1] = 45 THEN Bad ELSE Numeric(DecBytes(t))

\* parsed expression: an integer or a list of clauses
OfThold(x) == CASE x.t = "i" -> OfInt(x.v)
                [] x.t = "a" -> OfClauses(x)
                [] OTHER -> Bad
\* event field: an integer, hexadecimal text, a clause, a list of clauses, or JSON text of one of these lists
OfList(x) == IF ~IsArr(x) THEN Bad ELSE IF x.v = <<>> THEN Bad
             ELSE IF \A i \in 1..Len(x.v) : IsArr(x.v[i]) THEN OfClauses(x) ELSE OfClauses(JArr(<<x>>))
OfSith(x) == CASE x.t = "i" -> OfInt(x.v)
               [] x.t = "a" -> OfList(x)
               [] x.t = "s" -> IF x.v # <<>> /\ x.v[1] = 91
                               THEN LET p == Parse(x.v) IN IF p.ok THEN OfList(p.x) ELSE Bad
                               ELSE IF IsHexText(x.v) THEN Numeric(HexToBytes(x.v)) ELSE Bad
               [] OTHER -> Bad
\* compact text: a number or Base64 text with s for the bar, c between weights, a between clauses
OfLimen(t) ==
  LET p == DecPrim(t) IN
  IF ~p.ok THEN Bad
  ELSE IF p.code \in NumberCodes THEN Numeric(p.raw)
  ELSE IF p.code \in TextCodes
  THEN LET b == BextOf(p.code, p.raw)
           cls == Split(b, 97)
       IN Weighted([i \in 1..Len(cls) |-> Split(cls[i], 99)], 115)
  ELSE Bad

(********************************* notations *******************************)
WText(w) == JStr(WeightText(w, Slash))
TholdOf(t) == IF t.w THEN JArr([i \in 1..Len(t.cl) |-> JArr([j \in 1..Len(t.cl[i]) |-> WText(t.cl[i][j])])])
              ELSE JInt(BytesDec(t.n))
SithOf(t) == IF ~t.w THEN JStr(MinHex(t.n))
             ELSE IF Len(t.cl) = 1 THEN TholdOf(t).v[1] ELSE TholdOf(t)
BextText(t) == JoinText([i \in 1..Len(t.cl) |->
                  JoinText([j \in 1..Len(t.cl[i]) |-> WeightText(t.cl[i][j], 115)], <<99>>)], <<97>>)
NumberPrim(b) == LET s == Strip(b) n == Len(s)
                     w == IF n <= 2 THEN 2 ELSE IF n <= 4 THEN 4 ELSE IF n <= 8 THEN 8 ELSE 16
                     c == CASE w = 2 -> "M" [] w = 4 -> "0H" [] w = 8 -> "N" [] OTHER -> "0A"
                 IN MakePrim(c, Zeros(w - n) \o s)
LimenPrim(t) == IF t.w THEN MakePrim("4A", BextRaw(BextText(t))) ELSE NumberPrim(t.n)
LimenOf(t) == LET p == LimenPrim(t) IN EncPrim(p.code, p.size, p.raw)
SizeOf(t) == IF t.w THEN FoldLeftDomain(LAMBDA s, i : s + Len(t.cl[i]), 0, t.cl) ELSE 0

(******************************* satisfaction ******************************)
Listed(ix) == {ix[i] : i \in 1..Len(ix)}
RECURSIVE Before(_, _)
Before(cl, i) == IF i <= 1 THEN 0 ELSE Before(cl, i - 1) + Len(cl[i-1])
Signed(t, i, S) == LET off == Before(t.cl, i)
                       keep == SelectSeq([j \in 1..Len(t.cl[i]) |-> j], LAMBDA j : (off + j - 1) \in S)
                   IN Now([j \in 1..Len(keep) |-> t.cl[i][keep[j]]])
SatSet(t, S) ==
  IF t.w THEN \A i \in 1..Len(t.cl) : AtLeastOne(Signed(t, i, S))
  ELSE /\ t.n # <<>>
       /\ Len(t.n) <= 3                       \* nobody lists that many signers
       /\ Cardinality(S) >= IntOfBytes(t.n)
Satisfied(t, ix) == SatSet(t, Listed(ix))
=============================================================================
