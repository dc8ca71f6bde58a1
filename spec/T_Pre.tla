-------------------------------- MODULE T_Pre -------------------------------
(* Recorded prefixes: derived from inception events and verified           *)
EXTENDS Msg, TraceOracle

H(e, code, pre) == Applied(e, "hash", code, pre)
Px == INSTANCE Prefix WITH Hash <- H

Refused(r) == ~r.ok /\ r.kind = "err"
Carries(r, v) == r.ok /\ \A f \in DOMAIN v : f \in DOMAIN r /\ r[f] = v[f]
Some(e, f) == IF f \in DOMAIN e THEN <<e[f]>> ELSE <<>>
Allows(e) == IF "allows" \in DOMAIN e THEN {e.allows[i] : i \in 1..Len(e.allows)} ELSE {}
Prefixed(e) == "prefixed" \in DOMAIN e /\ e.prefixed

HashNeed(ked, code) == LET p == Px!PrePre(ked, code) IN IF p.ok THEN <<Need("hash", code, p.raw)>> ELSE <<>>
NeedsOf(e) ==
  CASE e.op = "prefixer" -> LET c == Px!PreCode(e.doc, Allows(e), Some(e, "code")) IN
                            IF ~c.ok THEN <<>> ELSE IF c.code \in DigestCodes THEN HashNeed(e.doc, c.code) ELSE <<>>
    [] e.op = "prever"   -> LET p == DecPrim(e.pre) IN
                            IF ~p.ok THEN <<>> ELSE IF p.code \in DigestCodes THEN HashNeed(e.doc, p.code) ELSE <<>>

PrefixerOk(e) == LET p == Px!PrefixOf(e, e.doc, Allows(e), Some(e, "code")) IN
                 IF p.ok THEN Carries(e.res, PrimView(p)) ELSE Refused(e.res)
WellTyped(d) == /\ ~Has(d, L_i) \/ StrIs(d, L_i)
                /\ IF ~Has(d, L_k) THEN TRUE ELSE IF ~IsArr(Fld(d, L_k)) THEN FALSE
                   ELSE \A i \in 1..Len(Fld(d, L_k).v) : IsStr(Fld(d, L_k).v[i])
PreVerOk(e) ==
  LET p == DecPrim(e.pre) IN
  IF ~p.ok THEN Refused(e.res) ELSE IF p.code \notin Px!PreCodes THEN Refused(e.res) ELSE
  LET v == Px!Verified(e, p, e.doc, Prefixed(e)) IN
  \* fields of the wrong type may as well be an error; an event that cannot be judged is never verified
  IF v.ok /\ v.is THEN e.res.ok /\ e.res.is
  ELSE IF v.ok /\ WellTyped(e.doc) THEN e.res.ok /\ ~e.res.is
  ELSE Refused(e.res) \/ (v.ok /\ e.res.ok /\ ~e.res.is)

Acc(e) == CASE e.op = "prefixer" -> PrefixerOk(e)
            [] e.op = "prever"   -> PreVerOk(e)
=============================================================================
