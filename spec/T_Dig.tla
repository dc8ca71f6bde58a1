-------------------------------- MODULE T_Dig -------------------------------
(* Recorded digests: made from data, verified and compared                 *)
EXTENDS Typed, TraceOracle

H(e, code, pre) == Applied(e, "hash", code, pre)
Dg == INSTANCE Digest WITH Hash <- H

Refused(r) == ~r.ok /\ r.kind = "err"
Carries(r, v) == r.ok /\ \A f \in DOMAIN v : f \in DOMAIN r /\ r[f] = v[f]
Code(e) == IF "code" \in DOMAIN e THEN e.code ELSE "E"
IsDig(p) == p.ok /\ p.code \in DigestCodes

NeedsOf(e) ==
  LET d == DecPrim(e.dig) o == DecPrim(e.other)
      N(p) == IF IsDig(p) THEN <<Need("hash", p.code, e.ser)>> ELSE <<>> IN
  CASE e.op = "diger"  -> IF Code(e) \in DigestCodes THEN <<Need("hash", Code(e), e.ser)>> ELSE <<>>
    [] e.op = "digver" -> N(d)
    [] e.op = "digcmp" -> N(d) \o (IF e.how = "none" \/ (o.ok /\ d.ok /\ o.code = d.code) THEN <<>> ELSE N(o))

DigerOk(e) == LET p == Dg!DigestOf(e, Code(e), e.ser) IN
              IF p.ok THEN Carries(e.res, PrimView(p)) ELSE Refused(e.res)
DigVerOk(e) == LET d == DecPrim(e.dig) IN
               IF ~IsDig(d) THEN Refused(e.res) ELSE e.res.ok /\ e.res.is = Dg!Matches(e, d, e.ser)
DigCmpOk(e) ==
  LET d == DecPrim(e.dig) IN
  IF ~IsDig(d) \/ e.how = "none" THEN Refused(e.res) ELSE
  LET o == DecPrim(e.other) IN
  IF ~o.ok THEN Refused(e.res) ELSE
  \* bytes that are a primitive of another kind match nothing
  IF ~IsDig(o) THEN Refused(e.res) \/ (e.how = "dig" /\ e.res.ok /\ ~e.res.is) ELSE
  IF e.how = "dig" /\ o.code = d.code /\ Len(e.other) # o.used THEN e.res.ok /\ (e.res.is => o.raw = d.raw)
  ELSE e.res.ok /\ e.res.is = Dg!Agree(e, d, o, e.ser)

Acc(e) == CASE e.op = "diger"  -> DigerOk(e)
            [] e.op = "digver" -> DigVerOk(e)
            [] e.op = "digcmp" -> DigCmpOk(e)
=============================================================================
