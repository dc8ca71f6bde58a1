----------------------------- MODULE MC_Indexed -----------------------------
(***************************************************************************)
(* Design level check of indexed signatures and count codes: index and     *)
(* ondex come back in both domains, and no other text reads as them.       *)
(***************************************************************************)
EXTENDS Cesr
CONSTANTS Flips, Indices
More == <<65, 66, 67, 68>>

Ramp(n, k) == [i \in 1..n |-> (i * 37 + k * 101) % 256]
Lim(c) == Pow(64, IdxMs(IndexTab[c]))
OLim(c) == Pow(64, IndexTab[c].os)

VARIABLES kind, code, index, ondex, pos, sx
vars == <<kind, code, index, ondex, pos, sx>>

IsCnt == code \in CounterCodes
Raw == Ramp(IdxRawSize(code, index), index % 7)
Text == IF IsCnt THEN EncCnt(code, index) ELSE EncIdx(code, index, ondex, Raw)
Head1 == IF IsCnt THEN Len(Text) ELSE IndexTab[code].hs + IndexTab[code].ss

\* the root states; the cases fan out from them so that the workers share them
Init == /\ kind = "root" /\ pos = 0 /\ sx = 0 /\ ondex = 0
        /\ code \in IndexCodes \cup CounterCodes
        /\ index \in IF code \in CounterCodes
                     THEN {n \in Indices : n < Pow(64, Min2(4, CounterTab[code].ss))}
                     ELSE {n \in Indices : n < Lim(code) /\ (IndexTab[code].fs # Var \/ n < 70)}
Next == /\ kind = "root"
        /\ UNCHANGED <<code, index>>
        /\ ondex' \in IF code \in CounterCodes \cup CurrentOnly THEN {0}
                     ELSE IF IndexTab[code].os = 0 THEN {index}
                     ELSE {n \in {0, 1, 63, index} : n < OLim(code)}
        /\ kind' \in {"whole", "flip", "cut"}
        /\ CASE kind' = "whole" -> pos' = 0 /\ sx' = 0
             [] kind' = "flip" -> pos' \in 1..Min2(Len(Text), Head1 + 3) /\ sx' \in Flips
             [] OTHER -> pos' \in {k \in 0..(Len(Text)-1) : k <= Head1 + 2 \/ k >= Len(Text) - 2} /\ sx' = 0
Spec == Init /\ [][Next]_vars

Input == CASE kind = "whole" -> Text \o More
           [] kind = "flip" -> [Text EXCEPT ![pos] = ChrTab[sx]] \o More
           [] kind = "cut" -> Take(Text, pos)
           [] OTHER -> <<>>
Dec(t) == IF IsCnt THEN DecCnt(t) ELSE DecIdx(t)
DecB(b) == IF IsCnt THEN DecCntBin(b) ELSE DecIdxBin(b)

RoundTrip == kind = "whole" =>
   LET d == Dec(Input) IN
   /\ d.ok /\ d.code = code /\ d.used = Len(Text) /\ Len(Text) % 4 = 0
   /\ DecB(B64Dec(Text) \o <<255, 0>>) = d
   /\ IF IsCnt THEN d.count = index /\ MakeCnt(code, index) = [ok |-> TRUE, code |-> code, count |-> index]
      ELSE /\ d.index = index /\ d.ondex = ondex /\ d.raw = Raw
           /\ LET m == MakeIdx(code, index, IF code \in CurrentOnly THEN <<>> ELSE <<ondex>>, Raw) IN
              m.ok /\ m.index = index /\ m.ondex = ondex /\ m.raw = Raw
Canonical == LET d == Dec(Input) IN d.ok =>
   /\ Take(Input, d.used) = IF IsCnt THEN EncCnt(d.code, d.count) ELSE EncIdx(d.code, d.index, d.ondex, d.raw)
   /\ DecB(B64Dec(Take(Input, d.used))) = d
NoInvention == kind = "cut" => ~Dec(Input).ok
\* a signature for the current keys only never carries a prior-next index
CurrentOnlyHasNoOndex == LET d == Dec(Input) IN d.ok /\ ~IsCnt /\ d.code \in CurrentOnly => d.ondex = 0
=============================================================================
