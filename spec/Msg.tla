--------------------------------- MODULE Msg --------------------------------
(***************************************************************************)
(* Key event messages and credentials: which bytes and which field maps    *)
(* are one, and what it says.                                              *)
(***************************************************************************)
EXTENDS TholdView, Vers

L_d == <<100>>  L_i == <<105>>  L_s == <<115>>  L_t == <<116>>  L_k == <<107>>  L_n == <<110>>
L_b == <<98>>   L_f == <<102>>  L_a == <<97>>   L_e == <<101>>
L_kt == <<107,116>>  L_nt == <<110,116>>  L_ri == <<114,105>>
Icp == <<105,99,112>>  Rot == <<114,111,116>>  Dip == <<100,105,112>>  Drt == <<100,114,116>>
EstTypes == {Icp, Rot, Dip, Drt}

\* the message of a protocol in a recognised document: its identifier must be a digest of the asked algorithm
Message(proto, code, v, doc, raw) ==
  IF v.proto # proto \/ ~StrIs(doc, L_d) THEN Bad ELSE
  LET p == DecPrim(Fld(doc, L_d).v) IN
  IF ~p.ok THEN Bad ELSE
  IF p.code \notin DigestCodes \/ p.code # code THEN Bad ELSE
  [ok |-> TRUE, doc |-> doc, raw |-> raw, proto |-> proto, kind |-> v.kind, major |-> v.major, minor |-> v.minor,
   said |-> EncPrim(p.code, p.size, p.raw), code |-> code]

FromBytes(proto, code, t) ==
  LET v == SniffOf(t) IN
  IF ~v.ok THEN Bad ELSE
  IF ~Current(v) \/ v.size > Len(t) THEN Bad ELSE
  LET raw == Take(t, v.size) p == Parse(raw) IN
  IF ~p.ok THEN Bad ELSE Message(proto, code, v, p.x, raw)
FromFields(proto, code, doc, kind) ==
  LET s == Sized(doc, kind) IN
  IF ~s.ok THEN Bad ELSE Message(proto, code, s, s.doc, s.raw)

(******************************* what it says ******************************)
Yes(v) == [ok |-> TRUE, v |-> v]
NoSuch == [ok |-> TRUE, none |-> TRUE]
StrField(doc, key) == IF StrIs(doc, key) THEN Yes(Fld(doc, key).v) ELSE Bad

\* hexadecimal text of a number below 2^128
NumOfHex(t) == IF t = <<>> THEN Yes(<<>>) ELSE
               IF ~IsHexText(t) THEN Bad ELSE
               LET b == Strip(HexToBytes(t)) IN IF Len(b) <= 16 THEN Yes(b) ELSE Bad
SeqNum(doc) == LET s == StrField(doc, L_s) IN IF s.ok THEN NumOfHex(s.v) ELSE Bad
PrimText(p) == EncPrim(p.code, p.size, p.raw)

\* the qualified members of a list field
Members(x, codes) ==
  IF \E i \in 1..Len(x.v) : ~IsStr(x.v[i]) THEN Bad ELSE
  LET ps == Now([i \in 1..Len(x.v) |-> DecPrim(x.v[i].v)]) IN
  IF \E i \in 1..Len(ps) : ~ps[i].ok THEN Bad ELSE
  IF \E i \in 1..Len(ps) : ps[i].code \notin codes THEN Bad ELSE
  Yes(Now([i \in 1..Len(ps) |-> PrimText(ps[i])]))
Keys(doc)     == IF ~Has(doc, L_k) THEN Yes(<<>>) ELSE IF ~IsArr(Fld(doc, L_k)) THEN Yes(<<>>)
                 ELSE Members(Fld(doc, L_k), KeyCodes)
NextDigs(doc) == IF ~Has(doc, L_n) THEN Yes(<<>>) ELSE IF ~IsArr(Fld(doc, L_n)) THEN Yes(<<>>)
                 ELSE Members(Fld(doc, L_n), DigestCodes)
Witnesses(doc) == IF ~Has(doc, L_b) THEN Yes(<<>>) ELSE IF ~IsArr(Fld(doc, L_b)) THEN Bad
                  ELSE Members(Fld(doc, L_b), KeyCodes)
FirstSeen(doc) == IF ~Has(doc, L_f) THEN NoSuch ELSE
                  IF ~StrIs(doc, L_f) THEN Bad ELSE
                  LET p == DecPrim(Fld(doc, L_f).v) IN
                  IF ~p.ok THEN Bad ELSE IF p.code \notin NumberCodes THEN Bad ELSE [ok |-> TRUE, p |-> p]
=============================================================================
