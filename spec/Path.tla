-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Paths into a document: elements joined by '-', each a key or a position *)
(***************************************************************************)
EXTENDS Msg

Dash == 45
IsElem(t) == t # <<>> /\ IsB64Text(t) /\ \A i \in 1..Len(t) : t[i] # Dash
JoinPath(es) == <<Dash>> \o JoinText(es, <<Dash>>)
\* texts of paths: "-" or "-a-b"
IsPathText(t) == /\ t # <<>> /\ t[1] = Dash
                 /\ t = <<Dash>> \/ LET es == Split(Drop(t, 1), Dash) IN \A i \in 1..Len(es) : IsElem(es[i])
Elements(t) == IF t = <<Dash>> THEN <<>> ELSE Split(Drop(t, 1), Dash)

\* the elements given as a list of texts and integers
\* (integers up to the largest signed one of 64 bits)
ElemText(x) == CASE x.t = "s" -> x.v
                 [] x.t = "i" -> IF x.v[1] # Dash /\ DigitsLeq(x.v, MaxI64) THEN x.v ELSE <<>>
                 [] OTHER -> <<>>
OfElems(x) == IF x.t # "a" THEN Bad ELSE
             LET es == [i \in 1..Len(x.v) |-> ElemText(x.v[i])] IN
             IF \E i \in 1..Len(es) : ~IsElem(es[i]) THEN Bad ELSE [ok |-> TRUE, es |-> es]

IsDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in 48..57
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoZeros(Tail(t)) ELSE t
RECURSIVE PosInt(_)
PosInt(t) == IF t = <<>> THEN 0 ELSE PosInt(SubSeq(t, 1, Len(t) - 1)) * 10 + (t[Len(t)] - 48)
IsIndex(t) == IsDigits(t) /\ DigitsLeq(NoZeros(t), MaxU64)
\* the position a text of digits denotes, beyond every document when it is long
Position(t) == IF Len(NoZeros(t)) > 8 THEN 1000000000 ELSE PosInt(t)

RECURSIVE Follow(_, _)
Follow(x, es) ==
  IF es = <<>> THEN [ok |-> TRUE, x |-> x] ELSE
  LET e == es[1] rest == Tail(es) IN
  IF x.t \notin {"o", "a"} THEN Bad ELSE
  IF IsIndex(e) THEN IF Position(e) < Len(x.v) THEN Follow(x.v[Position(e) + 1], rest) ELSE Bad
  ELSE IF x.t = "a" \/ ~Has(x, e) THEN Bad ELSE Follow(Fld(x, e), rest)

\* Texts with empty parts are no proper paths. They may be refused; where they are not, an empty part
\* stands for the place reached before it, and nothing behind it counts.
Odd(t) == t # <<>> /\ t[1] = Dash /\ ~IsPathText(t)
UpToEmpty(es) == LET n == {i \in 1..Len(es) : es[i] = <<>>} IN
                 IF n = {} THEN es ELSE SubSeq(es, 1, (CHOOSE i \in n : \A j \in n : i <= j) - 1)
FollowText(x, t) ==
  IF ~Odd(t) THEN Follow(x, Elements(t)) ELSE
  LET f == Follow(x, UpToEmpty(Elements(t))) IN
  IF f.ok THEN IF f.x.t = "o" \/ UpToEmpty(Elements(t)) = <<>> THEN f ELSE Bad ELSE Bad

IsPrefixSeq(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Rooted(root, es) == root \o es
Stripped(root, es) == IF IsPrefixSeq(root, es) THEN Drop(es, Len(root)) ELSE es

\* the tail: a digest identifier, or the serialization of a structure
TailOf(x, es) ==
  LET r == Follow(x, es) IN
  IF ~r.ok THEN Bad ELSE
  CASE r.x.t = "s" -> LET p == DecPrim(r.x.v) IN
                      IF p.ok THEN IF p.code \in DigestCodes THEN [ok |-> TRUE, v |-> r.x.v] ELSE Bad ELSE Bad
    [] r.x.t \in {"a", "o"} -> [ok |-> TRUE, v |-> Ser(r.x)]
    [] OTHER -> Bad
=============================================================================
