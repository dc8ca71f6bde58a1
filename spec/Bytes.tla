------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, sextet strings and Base64URL text, all represented as     *)
(* sequences of naturals, plus unbounded naturals represented as           *)
(* big-endian byte sequences.  TLC evaluates every operator below; none of *)
(* them knows anything about the implementation.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Byte    == 0..255
Sextet  == 0..63

\* value of the sequence element, zero beyond the end
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

Zeros(n) == [i \in 1..n |-> 0]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* s, worked out once: TLC keeps [i \in 1..n |-> e] unevaluated and works e out again at every use
Now(s) == s \o <<>>

Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

AllIn(s, S) == \A i \in 1..Len(s) : s[i] \in S

HasPrefix(s, p) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : s[i] = p[i]

(***************************** Base64 alphabet *****************************)
\* sextet -> ASCII code
ChrTab ==
  [v \in 0..63 |-> IF v < 26 THEN 65 + v
                   ELSE IF v < 52 THEN 97 + (v - 26)
                   ELSE IF v < 62 THEN 48 + (v - 52)
                   ELSE IF v = 62 THEN 45 ELSE 95]
\* ASCII code -> sextet, 64 for a character outside the alphabet
OrdTab ==
  [c \in 0..255 |-> IF c >= 65 /\ c <= 90 THEN c - 65
                    ELSE IF c >= 97 /\ c <= 122 THEN c - 97 + 26
                    ELSE IF c >= 48 /\ c <= 57 THEN c - 48 + 52
                    ELSE IF c = 45 THEN 62 ELSE IF c = 95 THEN 63 ELSE 64]

IsB64Text(t) == \A i \in 1..Len(t) : OrdTab[t[i]] < 64
ToSextets(t) == Now([i \in 1..Len(t) |-> OrdTab[t[i]]])
ToText(s)    == Now([i \in 1..Len(s) |-> ChrTab[s[i]]])

\* Bytes <-> sextets; Len(bytes) % 3 = 0 and Len(sextets) % 4 = 0
BytesToSextets(b) ==
  Now([i \in 1..((Len(b) \div 3) * 4) |->
     LET g == ((i - 1) \div 4) * 3
         k == (i - 1) % 4
     IN CASE k = 0 -> b[g+1] \div 4
          [] k = 1 -> (b[g+1] % 4) * 16 + b[g+2] \div 16
          [] k = 2 -> (b[g+2] % 16) * 4 + b[g+3] \div 64
          [] OTHER -> b[g+3] % 64])
SextetsToBytes(s) ==
  Now([i \in 1..((Len(s) \div 4) * 3) |->
     LET g == ((i - 1) \div 3) * 4
         k == (i - 1) % 3
     IN CASE k = 0 -> s[g+1] * 4 + s[g+2] \div 16
          [] k = 1 -> (s[g+2] % 16) * 16 + s[g+3] \div 4
          [] OTHER -> (s[g+3] % 4) * 64 + s[g+4]])

B64Enc(b) == ToText(BytesToSextets(b))
B64Dec(t) == SextetsToBytes(ToSextets(t))

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* n as `len` sextets, most significant first (n < 64^len, n < 2^31)
IntToSextets(n, len) == Now([i \in 1..len |-> (n \div Pow(64, len - i)) % 64])
\* value of at most five sextets (< 2^30)
RECURSIVE SextetsToInt(_)
SextetsToInt(s) == IF s = <<>> THEN 0
                   ELSE SextetsToInt(SubSeq(s, 1, Len(s) - 1)) * 64 + s[Len(s)]

(*************************** ASCII convenience *****************************)
\* TLC keeps strings opaque to indexing; texts are sequences of codes, and
\* only short identifiers (derivation codes, field labels) become strings.
Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
AlphaChr == [v \in 0..63 |-> SubSeq(Alphabet, v + 1, v + 1)]
ChrStr(c) == IF c \in 0..255 /\ OrdTab[c] < 64 THEN AlphaChr[OrdTab[c]] ELSE "?"
RECURSIVE StrOf(_)
StrOf(t) == IF t = <<>> THEN "" ELSE ChrStr(Head(t)) \o StrOf(Tail(t))
CodeOfChr == [c \in {AlphaChr[v] : v \in 0..63} |->
                ChrTab[CHOOSE v \in 0..63 : AlphaChr[v] = c]]
Ascii(str) == Now([i \in 1..Len(str) |-> CodeOfChr[SubSeq(str, i, i)]])

(***************************** Natural numbers *****************************)
\* Big naturals: big-endian byte sequences; equality and order ignore leading zeros
RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
BigEq(a, b) == Strip(a) = Strip(b)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
BigLess(a, b) == LET x == Strip(a) y == Strip(b)
                 IN IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLess(x, y)

RECURSIVE IntOfBytes(_)
IntOfBytes(b) == IF b = <<>> THEN 0
                 ELSE IntOfBytes(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]

HexDigit == [v \in 0..15 |-> IF v < 10 THEN 48 + v ELSE 87 + v]
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 16
\* bytes -> all hex digits (two per byte) as text
HexOfBytes(b) == [i \in 1..(2 * Len(b)) |->
                    LET x == b[(i + 1) \div 2] IN
                    HexDigit[IF i % 2 = 1 THEN x \div 16 ELSE x % 16]]
RECURSIVE StripChar(_, _)
StripChar(t, c) == IF Len(t) > 1 /\ t[1] = c THEN StripChar(Tail(t), c) ELSE t
\* minimal lower case hex text of a big natural, "0" for zero
MinHex(b) == IF b = <<>> THEN <<48>> ELSE StripChar(HexOfBytes(b), 48)
IsHexText(t) == t # <<>> /\ \A i \in 1..Len(t) : HexVal(t[i]) < 16
\* hex text -> bytes
HexToBytes(t) == LET u == IF Len(t) % 2 = 1 THEN <<48>> \o t ELSE t
                 IN Now([i \in 1..(Len(u) \div 2) |-> HexVal(u[2*i-1]) * 16 + HexVal(u[2*i])])
\* int (< 2^31) -> minimal hex text
RECURSIVE IntHex(_)
IntHex(n) == IF n < 16 THEN <<HexDigit[n]>> ELSE Append(IntHex(n \div 16), HexDigit[n % 16])
RECURSIVE IntDec(_)
IntDec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(IntDec(n \div 10), 48 + (n % 10))

\* split a text on a one character separator
Split(t, sep) == LET at == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = sep) n == Len(at) IN
                 Now([k \in 1..(n + 1) |-> SubSeq(t, IF k = 1 THEN 1 ELSE at[k - 1] + 1, IF k > n THEN Len(t) ELSE at[k] - 1)])
RECURSIVE JoinText(_, _)
JoinText(parts, sep) == IF parts = <<>> THEN <<>>
                        ELSE IF Len(parts) = 1 THEN parts[1]
                        ELSE parts[1] \o sep \o JoinText(Tail(parts), sep)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
=============================================================================
