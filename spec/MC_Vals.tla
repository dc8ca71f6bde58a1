------------------------------- MODULE MC_Vals ------------------------------
(***************************************************************************)
(* Design level check of the values primitives stand for: numbers take the *)
(* smallest code and keep their value in every spelling, Base64 texts and  *)
(* date-times read back as themselves.                                     *)
(***************************************************************************)
EXTENDS Msg
CONSTANTS TextLen, NumLen
VARIABLES kind, x
vars == <<kind, x>>
Init == kind \in {"num", "text", "date"} /\ x = <<>>
Next == \/ kind = "num" /\ Len(x) < NumLen /\ (\E b \in (IF Len(x) < 2 THEN {0, 1, 128, 255} ELSE {0, 255}) : x' = Append(x, b)) /\ UNCHANGED kind
        \/ kind = "text" /\ Len(x) < TextLen /\ (\E b \in {65, 66, 95, 45} : x' = Append(x, b)) /\ UNCHANGED kind
        \/ kind = "date" /\ Len(x) < 6 /\ (\E b \in {48, 84, 58, 46, 43, 45} : x' = Append(x, b)) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

Full(c) == MatterTab[c].fs
NumberOk == kind = "num" /\ Len(x) <= 16 =>
  LET p == NumberPrim(x) t == EncPrim(p.code, p.size, p.raw) d == DecPrim(t) IN
  /\ p.ok /\ p.code \in NumberCodes
  /\ Strip(p.raw) = Strip(x) /\ d.ok /\ Strip(d.raw) = Strip(x)
  /\ \A c \in NumberCodes : RawSize(c) >= Len(Strip(x)) => Full(c) >= Full(p.code)
  /\ NumOfHex(MinHex(x)).ok /\ NumOfHex(MinHex(x)).v = Strip(x)
  /\ NumOfHex(<<48, 48>> \o MinHex(x)).v = Strip(x)
TooBig == kind = "num" /\ Len(Strip(x)) > 16 => ~NumOfHex(MinHex(x)).ok
TextOk == kind = "text" =>
  LET p == MakePrim("4A", BextRaw(x)) d == DecPrim(EncPrim(p.code, p.size, p.raw)) IN
  /\ p.ok /\ d.ok /\ d.code = p.code /\ d.raw = p.raw
  /\ BextOf(p.code, p.raw) = (IF Len(x) > 0 /\ Len(x) % 4 = 0 /\ x[1] = 65 THEN Drop(x, 1) ELSE x)
DateOk == kind = "date" => B64ToDate(DateToB64(x)) = x /\ IsB64Text(DateToB64(x))
=============================================================================
