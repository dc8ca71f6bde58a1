-------------------------------- MODULE T_Msg -------------------------------
(* Recorded key event messages and credentials, and everything they answer *)
EXTENDS Names, Msg, TraceBase

Refused(r) == ~r.ok /\ r.kind = "err"
SameDoc(a, b) == Ser(a) = Ser(b)
Opt(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Kind(e) == IF "kind" \in DOMAIN e THEN <<e.kind>> ELSE <<>>
First(e, proto) == IF e.via = "raw" THEN FromBytes(proto, Opt(e, "code", "E"), e.data)
                   ELSE FromFields(proto, Opt(e, "code", "E"), e.doc, Kind(e))
\* the same object made to hold another message: nothing of what it held before is left, but the algorithm asked for
Next1(m, s) == CASE s.via = "raw" -> FromBytes(m.proto, m.code, s.data)
                 [] s.via = "ked" -> FromFields(m.proto, m.code, s.doc, Kind(s))
                 [] s.via = "kind" -> FromFields(m.proto, m.code, m.doc, Kind(s))
                 [] s.via = "sad" -> m
RECURSIVE Steps(_, _, _)
Steps(m, ss, i) == IF i > Len(ss) \/ ~m.ok THEN m ELSE Steps(Next1(m, ss[i]), ss, i + 1)
Given(e, proto) == Steps(First(e, proto), Opt(e, "then", <<>>), 1)

Ans(a, exp) == IF exp.ok THEN a.ok /\ a.v = exp.v ELSE Refused(a)
Envelope(r, m) ==
  /\ r.raw = m.raw /\ SameDoc(r.doc, m.doc) /\ r.proto = m.proto /\ r.kind = m.kind
  /\ r.size = Len(m.raw) /\ r.major = m.major /\ r.minor = m.minor /\ r.code = m.code
  /\ r.said.ok /\ r.said.v = m.said
  /\ r.saidb.ok /\ r.saidb.v = m.said
  /\ r.saider.ok /\ r.saider.v = m.said
  /\ r.pretty.ok
  /\ LET p == Parse(r.pretty.v) IN p.ok /\ SameDoc(p.x, m.doc)
  /\ r.again.ok /\ r.again.same

TholdAns(a, doc, key) ==
  IF ~Has(doc, key) THEN a.ok /\ ~a.some ELSE
  LET t == OfSith(Fld(doc, key)) IN
  IF t.ok THEN a.ok /\ a.some /\ TholdShows(a.v, t) ELSE Refused(a)

SerderOk(e) ==
  LET m == Given(e, KERI) r == e.res IN
  IF ~m.ok THEN Refused(r) ELSE
  LET d == m.doc sn == SeqNum(d) ty == StrField(d, L_t) f == FirstSeen(d) IN
  /\ r.ok
  /\ Envelope(r, m)
  /\ Ans(r.pre, StrField(d, L_i)) /\ Ans(r.preb, StrField(d, L_i))
  /\ Ans(r.est, IF ty.ok THEN Yes(ty.v \in EstTypes) ELSE Bad)
  /\ Ans(r.sn, IF sn.ok THEN Yes(Pad16(sn.v)) ELSE Bad)
  /\ Ans(r.sner, IF sn.ok THEN Yes(PrimText(NumberPrim(sn.v))) ELSE Bad)
  /\ Ans(r.verfers, Keys(d)) /\ Ans(r.digers, NextDigs(d)) /\ Ans(r.werfers, Witnesses(d))
  /\ IF ~f.ok THEN Refused(r.fner) /\ Refused(r["fn"])
     ELSE IF "none" \in DOMAIN f THEN r.fner.ok /\ ~r.fner.some /\ Refused(r["fn"])
     ELSE /\ r.fner.ok /\ r.fner.some /\ r.fner.v = PrimText(f.p)
          /\ r["fn"].ok /\ r["fn"].v = Pad16(f.p.raw)
  /\ TholdAns(r.tholder, d, L_kt) /\ TholdAns(r.ntholder, d, L_nt)

CrederOk(e) ==
  LET m == Given(e, ACDC) r == e.res IN
  IF ~m.ok THEN Refused(r) ELSE
  LET d == m.doc IN
  /\ r.ok
  /\ Envelope(r, m)
  /\ r.crd.ok /\ SameDoc(r.crd.v, d)
  /\ Ans(r.issuer, StrField(d, L_i)) /\ Ans(r.schema, StrField(d, L_s))
  /\ r.subject.ok /\ SameDoc(r.subject.v, IF Has(d, L_a) THEN Fld(d, L_a) ELSE JNull)
  /\ IF ~Has(d, L_ri) THEN r.status.ok /\ ~r.status.some
     ELSE IF StrIs(d, L_ri) THEN r.status.ok /\ r.status.some /\ r.status.v = Fld(d, L_ri).v ELSE Refused(r.status)
  /\ r.chains.ok /\ SameDoc(r.chains.v, IF Has(d, L_e) THEN Fld(d, L_e) ELSE JObj(<<>>, <<>>))

Acc(e) == CASE e.op = "serder" -> SerderOk(e)
            [] e.op = "creder" -> CrederOk(e)
            [] e.op = "names" -> NamesOk(e)
=============================================================================
