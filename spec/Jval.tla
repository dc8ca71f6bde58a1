-------------------------------- MODULE Jval --------------------------------
(***************************************************************************)
(* JSON documents: a strict parser over bytes and the compact serializer.  *)
(* A value is a tagged record:                                             *)
(*   [t |-> "s", v |-> bytes]      string (UTF-8)                           *)
(*   [t |-> "i", v |-> text]       integer, [t |-> "f", v |-> text] fraction*)
(*   [t |-> "b", v |-> BOOLEAN]    [t |-> "n"]  null                        *)
(*   [t |-> "a", v |-> <<values>>] array                                    *)
(*   [t |-> "o", k |-> <<keys>>, v |-> <<values>>] object, in field order   *)
(* Values of different shapes are compared by their serialization.         *)
(***************************************************************************)
EXTENDS Bytes

JStr(t) == [t |-> "s", v |-> t]
JInt(t) == [t |-> "i", v |-> t]
JArr(s) == [t |-> "a", v |-> s]
JObj(k, v) == [t |-> "o", k |-> k, v |-> v]
JNull == [t |-> "n"]

(******************************** Serializer *******************************)
EscChar(c) == CASE c = 34 -> <<92, 34>>
                [] c = 92 -> <<92, 92>>
                [] c = 8  -> <<92, 98>>
                [] c = 12 -> <<92, 102>>
                [] c = 10 -> <<92, 110>>
                [] c = 13 -> <<92, 114>>
                [] c = 9  -> <<92, 116>>
                [] c < 32 -> <<92, 117, 48, 48, HexDigit[c \div 16], HexDigit[c % 16]>>
                [] OTHER  -> <<c>>
NeedsEsc(c) == c < 32 \/ c = 34 \/ c = 92
EscText(t) == IF \E i \in 1..Len(t) : NeedsEsc(t[i])
              THEN FlattenSeq([i \in 1..Len(t) |-> EscChar(t[i])]) ELSE t
Quote(t) == <<34>> \o EscText(t) \o <<34>>

Comma(parts) == IF parts = <<>> THEN <<>>
                ELSE FlattenSeq([i \in 1..(2 * Len(parts) - 1) |->
                        IF i % 2 = 1 THEN parts[(i + 1) \div 2] ELSE <<44>>])
RECURSIVE Ser(_)
Ser(x) == CASE x.t = "s" -> Quote(x.v)
            [] x.t \in {"i", "f"} -> x.v
            [] x.t = "b" -> IF x.v THEN <<116,114,117,101>> ELSE <<102,97,108,115,101>>
            [] x.t = "n" -> <<110,117,108,108>>
            [] x.t = "a" -> <<91>> \o Comma(Now([i \in 1..Len(x.v) |-> Ser(x.v[i])])) \o <<93>>
            [] x.t = "o" -> <<123>> \o Comma(Now([i \in 1..Len(x.v) |-> Quote(x.k[i]) \o <<58>> \o Ser(x.v[i])]))
                                    \o <<125>>

(********************************* Objects *********************************)
IsObj(x) == x.t = "o"
IsStr(x) == x.t = "s"
IsArr(x) == x.t = "a"
Pos(o, key) == IF \E i \in 1..Len(o.k) : o.k[i] = key
               THEN CHOOSE i \in 1..Len(o.k) : o.k[i] = key ELSE 0
Has(o, key) == Pos(o, key) # 0
Fld(o, key) == o.v[Pos(o, key)]
\* replace the field in place, or add it at the end
Put(o, key, x) == LET p == Pos(o, key) IN
  IF p = 0 THEN JObj(Append(o.k, key), Append(o.v, x)) ELSE JObj(o.k, [o.v EXCEPT ![p] = x])
Without(o, keys) ==
  LET keep == SelectSeq([i \in 1..Len(o.k) |-> i], LAMBDA i : o.k[i] \notin keys)
  IN JObj(Now([i \in 1..Len(keep) |-> o.k[keep[i]]]), Now([i \in 1..Len(keep) |-> o.v[keep[i]]]))
StrIs(o, key) == IsObj(o) /\ Has(o, key) /\ IsStr(Fld(o, key))

(********************************** Parser *********************************)
\* results: [ok |-> TRUE, x |-> value, i |-> next position]
PBad == [ok |-> FALSE]
WS == {32, 9, 10, 13}
RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF i <= Len(t) /\ t[i] \in WS THEN SkipWs(t, i + 1) ELSE i
Digit(t, i) == i <= Len(t) /\ t[i] >= 48 /\ t[i] <= 57
RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF Digit(t, i) THEN SkipDigits(t, i + 1) ELSE i

\* length of the well-formed UTF-8 character at i, 0 if there is none
Cont(t, i) == i <= Len(t) /\ t[i] >= 128 /\ t[i] <= 191
UtfLen(t, i) ==
  LET c == t[i] IN
  CASE c < 128 -> 1
    [] c >= 194 /\ c <= 223 -> IF Cont(t, i+1) THEN 2 ELSE 0
    [] c >= 224 /\ c <= 239 ->
         IF Cont(t, i+1) /\ Cont(t, i+2) /\ (c # 224 \/ t[i+1] >= 160) /\ (c # 237 \/ t[i+1] <= 159)
         THEN 3 ELSE 0
    [] c >= 240 /\ c <= 244 ->
         IF Cont(t, i+1) /\ Cont(t, i+2) /\ Cont(t, i+3) /\ (c # 240 \/ t[i+1] >= 144)
            /\ (c # 244 \/ t[i+1] <= 143)
         THEN 4 ELSE 0
    [] OTHER -> 0
\* every byte begins a well-formed character or lies in one
IsUtf8(t) ==
  LET ascii == 0..127 cont == 128..191 IN
  \A i \in 1..Len(t) :
    \/ t[i] \in ascii
    \/ IF t[i] \in cont THEN \E k \in 1..Min2(3, i - 1) : UtfLen(t, i - k) > k ELSE UtfLen(t, i) # 0

\* UTF-8 of a code point
Utf8Of(n) == IF n < 128 THEN <<n>>
  ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
  ELSE IF n < 65536 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
  ELSE <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
Hex4(t, i) == IF i + 3 <= Len(t) /\ \A k \in 0..3 : HexVal(t[i+k]) < 16
              THEN HexVal(t[i]) * 4096 + HexVal(t[i+1]) * 256 + HexVal(t[i+2]) * 16 + HexVal(t[i+3])
              ELSE -1

\* string body from position i (after the opening quote); runs of plain bytes are taken at once
\* (names bound close by: TLC looks every name up through all the calls around it)
PlainEnd(t, i) == LET ctl == 0..31 n == Len(t) IN
                  IF \A j \in i..n : t[j] # 34 /\ t[j] # 92 /\ t[j] \notin ctl THEN n + 1
                  ELSE CHOOSE j \in i..n : /\ t[j] = 34 \/ t[j] = 92 \/ t[j] \in ctl
                                          /\ \A k \in i..(j - 1) : t[k] # 34 /\ t[k] # 92 /\ t[k] \notin ctl
RECURSIVE PStr(_, _, _)
PStr(t, i, acc) ==
  IF i > Len(t) THEN PBad
  ELSE IF t[i] = 34 THEN [ok |-> TRUE, x |-> acc, i |-> i + 1]
  ELSE IF t[i] < 32 THEN PBad
  ELSE IF t[i] # 92 THEN LET j == PlainEnd(t, i) IN PStr(t, j, acc \o SubSeq(t, i, j - 1))
  ELSE IF i = Len(t) THEN PBad
  ELSE LET c == t[i+1] IN
    CASE c = 34 -> PStr(t, i + 2, Append(acc, 34))
      [] c = 92 -> PStr(t, i + 2, Append(acc, 92))
      [] c = 47 -> PStr(t, i + 2, Append(acc, 47))
      [] c = 98 -> PStr(t, i + 2, Append(acc, 8))
      [] c = 102 -> PStr(t, i + 2, Append(acc, 12))
      [] c = 110 -> PStr(t, i + 2, Append(acc, 10))
      [] c = 114 -> PStr(t, i + 2, Append(acc, 13))
      [] c = 116 -> PStr(t, i + 2, Append(acc, 9))
      [] c = 117 ->
          LET h == Hex4(t, i + 2) IN
          IF h < 0 THEN PBad
          ELSE IF h >= 56320 /\ h <= 57343 THEN PBad
          ELSE IF h >= 55296 /\ h <= 56319
          THEN IF i + 7 <= Len(t) /\ t[i+6] = 92 /\ t[i+7] = 117
               THEN LET g == Hex4(t, i + 8) IN
                    IF g >= 56320 /\ g <= 57343
                    THEN PStr(t, i + 12, acc \o Utf8Of(65536 + (h - 55296) * 1024 + (g - 56320)))
                    ELSE PBad
               ELSE PBad
          ELSE PStr(t, i + 6, acc \o Utf8Of(h))
      [] OTHER -> PBad

\* number text from i: end position, or 0
NumEnd(t, i) ==
  LET a == IF i <= Len(t) /\ t[i] = 45 THEN i + 1 ELSE i IN
  IF ~Digit(t, a) THEN 0 ELSE
  LET b == IF t[a] = 48 THEN a + 1 ELSE SkipDigits(t, a) IN
  IF Digit(t, b) THEN 0 ELSE
  LET c == IF b <= Len(t) /\ t[b] = 46 THEN IF Digit(t, b + 1) THEN SkipDigits(t, b + 1) ELSE 0 ELSE b IN
  IF c = 0 THEN 0 ELSE
  IF c <= Len(t) /\ t[c] \in {69, 101}
  THEN LET d == IF c + 1 <= Len(t) /\ t[c+1] \in {43, 45} THEN c + 2 ELSE c + 1
       IN IF Digit(t, d) THEN SkipDigits(t, d) ELSE 0
  ELSE c
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
MinI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
DigitsLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~LexLess(b, a))
IsIntText(t) == \A i \in 1..Len(t) : t[i] \notin {46, 69, 101}
NumOf(t) == IF IsIntText(t) /\ (IF t[1] = 45 THEN t # <<45, 48>> /\ DigitsLeq(SubSeq(t, 2, Len(t)), MinI64)
                               ELSE DigitsLeq(t, MaxU64))
            THEN [t |-> "i", v |-> t] ELSE [t |-> "f", v |-> t]

Lit(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w

RECURSIVE PVal(_, _, _)
RECURSIVE PElems(_, _, _, _)
RECURSIVE PMembers(_, _, _, _, _)
PVal(t, i0, d) ==
  LET i == SkipWs(t, i0) IN
  IF i > Len(t) THEN PBad ELSE
  LET c == t[i] IN
  CASE c = 34 -> LET s == PStr(t, i + 1, <<>>) IN
                 IF s.ok THEN [ok |-> TRUE, x |-> JStr(s.x), i |-> s.i] ELSE PBad
    [] c = 91 -> IF d = 0 THEN PBad ELSE
                 LET j == SkipWs(t, i + 1) IN
                 IF j <= Len(t) /\ t[j] = 93 THEN [ok |-> TRUE, x |-> JArr(<<>>), i |-> j + 1]
                 ELSE PElems(t, j, d - 1, <<>>)
    [] c = 123 -> IF d = 0 THEN PBad ELSE
                 LET j == SkipWs(t, i + 1) IN
                 IF j <= Len(t) /\ t[j] = 125 THEN [ok |-> TRUE, x |-> JObj(<<>>, <<>>), i |-> j + 1]
                 ELSE PMembers(t, j, d - 1, <<>>, <<>>)
    [] c = 116 -> IF Lit(t, i, <<116,114,117,101>>) THEN [ok |-> TRUE, x |-> [t |-> "b", v |-> TRUE], i |-> i + 4]
                  ELSE PBad
    [] c = 102 -> IF Lit(t, i, <<102,97,108,115,101>>) THEN [ok |-> TRUE, x |-> [t |-> "b", v |-> FALSE], i |-> i + 5]
                  ELSE PBad
    [] c = 110 -> IF Lit(t, i, <<110,117,108,108>>) THEN [ok |-> TRUE, x |-> JNull, i |-> i + 4] ELSE PBad
    [] c = 45 \/ (c >= 48 /\ c <= 57) ->
         LET e == NumEnd(t, i) IN
         IF e = 0 THEN PBad ELSE [ok |-> TRUE, x |-> NumOf(SubSeq(t, i, e - 1)), i |-> e]
    [] OTHER -> PBad
PElems(t, i, d, acc) ==
  LET e == PVal(t, i, d) IN
  IF ~e.ok THEN PBad ELSE
  LET j == SkipWs(t, e.i) IN
  IF j > Len(t) THEN PBad
  ELSE IF t[j] = 44 THEN PElems(t, j + 1, d, Append(acc, e.x))
  ELSE IF t[j] = 93 THEN [ok |-> TRUE, x |-> JArr(Append(acc, e.x)), i |-> j + 1]
  ELSE PBad
PMembers(t, i0, d, ks, vs) ==
  LET i == SkipWs(t, i0) IN
  IF i > Len(t) \/ t[i] # 34 THEN PBad ELSE
  LET k == PStr(t, i + 1, <<>>) IN
  IF ~k.ok THEN PBad ELSE
  LET j == SkipWs(t, k.i) IN
  IF j > Len(t) \/ t[j] # 58 THEN PBad ELSE
  LET e == PVal(t, j + 1, d) IN
  IF ~e.ok THEN PBad ELSE
  LET m == SkipWs(t, e.i)
      o == Put(JObj(ks, vs), k.x, e.x) IN      \* the last of equal keys wins
  IF m > Len(t) THEN PBad
  ELSE IF t[m] = 44 THEN PMembers(t, m + 1, d, o.k, o.v)
  ELSE IF t[m] = 125 THEN [ok |-> TRUE, x |-> o, i |-> m + 1]
  ELSE PBad

MaxDepth == 127
\* the document a whole text spells
Parse(t) == IF ~IsUtf8(t) THEN PBad ELSE
            LET r == PVal(t, 1, MaxDepth) IN
            IF r.ok /\ SkipWs(t, r.i) > Len(t) THEN [ok |-> TRUE, x |-> r.x] ELSE PBad

(***************************************************************************)
(* A fraction is carried as its text only where that text is the shortest  *)
(* one of the number it stands for: at most 15 digits, none of them a      *)
(* superfluous zero, no exponent.  Other spellings are outside the model.  *)
(***************************************************************************)
PlainFrac(t) ==
  LET s == IF t[1] = 45 THEN SubSeq(t, 2, Len(t)) ELSE t
      p == IF \E i \in 1..Len(s) : s[i] = 46 THEN CHOOSE i \in 1..Len(s) : s[i] = 46 ELSE 0 IN
  /\ p > 1 /\ p < Len(s) /\ Len(s) <= 16
  /\ \A i \in 1..Len(s) : s[i] \notin {69, 101}
  /\ s[Len(s)] # 48 \/ p = Len(s) - 1
  /\ s[1] # 48 \/ (p = 2 /\ (\E i \in 3..Min2(5, Len(s)) : s[i] # 48 \/ Len(s) = 3))
RECURSIVE Modelled(_)
Modelled(x) == CASE x.t = "f" -> PlainFrac(x.v)
                 [] x.t = "a" -> \A i \in 1..Len(x.v) : Modelled(x.v[i])
                 [] x.t = "o" -> \A i \in 1..Len(x.v) : Modelled(x.v[i])
                 [] OTHER -> TRUE
=============================================================================
