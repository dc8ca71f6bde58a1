------------------------------- MODULE T_Said -------------------------------
(***************************************************************************)
(* Recorded calls that make, compute and verify self-addressing            *)
(* identifiers, judged against Said.                                       *)
(***************************************************************************)
EXTENDS Vers, TraceOracle

H(e, code, pre) == Applied(e, "hash", code, pre)
Sd == INSTANCE Said WITH Hash <- H
Txt_d == <<100>>

Refused(r) == ~r.ok /\ r.kind = "err"
SameDoc(a, b) == Ser(a) = Ser(b)
Opt(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Some(e, f) == IF f \in DOMAIN e THEN <<e[f]>> ELSE <<>>
Label(e) == Opt(e, "label", Txt_d)
Ignored(e) == {Opt(e, "ignore", <<>>)[i] : i \in 1..Len(Opt(e, "ignore", <<>>))}
CodeOf(e) == Opt(e, "code", "E")

Pre(e, code) == Sd!Preimage(e.doc, Label(e), code, Some(e, "kind"), Ignored(e))
HashNeed(p, code) == IF p.ok THEN <<Need("hash", code, p.pre)>> ELSE <<>>
NeedsOf(e) ==
  CASE e.op = "saidify" -> HashNeed(Pre(e, CodeOf(e)), CodeOf(e))
    [] e.op = "saidof"  -> LET a == Sd!AskedCode(e.doc, Label(e), Some(e, "code")) IN
                           IF a.ok THEN HashNeed(Pre(e, a.code), a.code) ELSE <<>>
    [] e.op = "saidver" -> LET id == DecPrim(e.said) IN
                           IF id.ok /\ id.code \in DigestCodes THEN HashNeed(Pre(e, id.code), id.code) ELSE <<>>

SaidifyOk(e) ==
  LET x == Sd!Identified(e, e.doc, Label(e), CodeOf(e), Some(e, "kind"), Ignored(e)) r == e.res IN
  IF ~x.ok THEN Refused(r)
  ELSE r.ok /\ r.said = x.said /\ r.code = CodeOf(e) /\ SameDoc(r.doc, x.doc)
SaidOfOk(e) ==
  LET x == Sd!SaidOf(e, e.doc, Label(e), Some(e, "code"), Some(e, "kind"), Ignored(e)) r == e.res IN
  IF ~x.ok THEN Refused(r) ELSE r.ok /\ r.qb64 = x.said
SaidVerOk(e) ==
  LET id == DecPrim(e.said) IN
  IF ~id.ok \/ id.code \notin DigestCodes THEN Refused(e.res)
  ELSE e.res.ok /\ e.res.is = Sd!Verifies(e, EncPrim(id.code, id.size, id.raw), e.doc, Label(e), Some(e, "kind"), Ignored(e),
                                          Opt(e, "prefixed", FALSE), Opt(e, "versioned", TRUE))

Acc(e) == CASE e.op = "saidify" -> SaidifyOk(e)
            [] e.op = "saidof"  -> SaidOfOk(e)
            [] e.op = "saidver" -> SaidVerOk(e)
=============================================================================
