------------------------------- MODULE T_Vals -------------------------------
(***************************************************************************)
(* Recorded numbers, sequence numbers, date-times and Base64 texts: made   *)
(* from values and read back, judged by the value they stand for.          *)
(***************************************************************************)
EXTENDS Msg, T_Cesr

\* numbers: the smallest code that holds the value
NumVal(e) == CASE e.via = "num"  -> Yes(Strip(e.num))
               [] e.via = "numh" -> NumOfHex(e.numh)
               [] OTHER          -> Yes(<<>>)
NumberOk(e) ==
  LET v == NumVal(e) IN
  IF ~v.ok THEN Refused(e.res)
  ELSE LET p == NumberPrim(v.v) IN
       /\ Carries(e.res, TypedView("number", p))
       /\ e.res.num = Pad16(v.v) /\ e.res.numh = MinHex(v.v)
SeqnerOk(e) ==
  LET v == IF e.via = "numh" /\ e.numh = <<>> THEN Bad ELSE NumVal(e) IN
  IF ~v.ok THEN Refused(e.res)
  ELSE /\ Carries(e.res, TypedView("seqner", MakePrim("0A", Pad16(v.v))))
       /\ e.res.num = Pad16(v.v) /\ e.res.numh = MinHex(v.v)

\* a date-time is 32 characters, none of them one that stands for punctuation
DateChar(c) == c \in {58, 46, 43} \/ (c < 128 /\ OrdTab[c] < 64 /\ c \notin {99, 100, 112})
DatePrim(t) == DecPrim(Ascii("1AAG") \o DateToB64(t))
Dig2(t, i) == t[i] \in 48..57 /\ t[i+1] \in 48..57
\* 2024-01-02T03:04:05.678901+00:00
Rfc3339(t) == /\ Len(t) = 32 /\ Dig2(t, 1) /\ Dig2(t, 3) /\ t[5] = 45 /\ Dig2(t, 6) /\ t[8] = 45 /\ Dig2(t, 9)
              /\ t[11] = 84 /\ Dig2(t, 12) /\ t[14] = 58 /\ Dig2(t, 15) /\ t[17] = 58 /\ Dig2(t, 18) /\ t[20] = 46
              /\ Dig2(t, 21) /\ Dig2(t, 23) /\ Dig2(t, 25) /\ SubSeq(t, 27, 32) = <<43,48,48,58,48,48>>
DaterOk(e) ==
  IF e.via = "now"
  THEN /\ e.res.ok /\ Rfc3339(e.res.dts)
       /\ ~LexLess(e.res.dts, e.before) /\ ~LexLess(e.after, e.res.dts)
       /\ Carries(e.res, TypedView("dater", DatePrim(e.res.dts)))
  ELSE IF Len(e.dts) # 32 \/ \E i \in 1..Len(e.dts) : ~DateChar(e.dts[i]) THEN Refused(e.res)
  ELSE IF "code" \in DOMAIN e /\ e.code # "1AAG" THEN Refused(e.res) \/ (e.res.ok /\ e.res.code = "1AAG" /\ e.res.dts = e.dts)
  ELSE Carries(e.res, TypedView("dater", DatePrim(e.dts))) /\ e.res.dts = e.dts

\* Base64 text
Ambiguous(t) == Len(t) > 0 /\ Len(t) % 4 = 0 /\ t[1] = 65
BexterOk(e) ==
  IF ~IsB64Text(e.bext) THEN Refused(e.res) ELSE
  LET code == IF "code" \in DOMAIN e THEN e.code ELSE "4A"
      p == Admit("bexter", MakePrim(code, BextRaw(e.bext))) IN
  IF ~p.ok THEN Refused(e.res)
  ELSE /\ Carries(e.res, TypedView("bexter", p))
       /\ e.res.bext = IF Ambiguous(e.bext) THEN Drop(e.bext, 1) ELSE e.bext

ValAcc(e) == CASE e.op = "number" -> NumberOk(e)
               [] e.op = "seqner" -> SeqnerOk(e)
               [] e.op = "dater"  -> DaterOk(e)
               [] e.op = "bexter" -> BexterOk(e)
               [] OTHER           -> Acc(e)
=============================================================================
