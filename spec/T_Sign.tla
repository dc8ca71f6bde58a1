------------------------------- MODULE T_Sign -------------------------------
(* Recorded signers, the signatures they made, and verifications           *)
EXTENDS Fresh, Typed, TraceOracle

P(e, alg, seed) == Applied(e, "pubkey", alg, seed)
V(e, code, key, sig, ser) == Applied(e, "verify", code, <<key, sig, ser>>) = <<1>>
Sg == INSTANCE Sign WITH Pub <- P, Holds <- V

Refused(r) == ~r.ok /\ r.kind = "err"
Carries(r, v) == r.ok /\ \A f \in DOMAIN v : f \in DOMAIN r /\ r[f] = v[f]
Trans(e) == IF "trans" \in DOMAIN e THEN e.trans ELSE TRUE
Code(e) == IF "code" \in DOMAIN e THEN e.code ELSE "A"
Sigs(e) == IF "sigs" \in DOMAIN e THEN e.sigs ELSE <<>>

\* the private key a signer was asked for
Seed(e) == CASE e.via = "raw"   -> MakePrim(Code(e), e.data)
             [] e.via \in {"qb64", "qb64b"} -> DecPrim(e.data)
             [] e.via = "qb2"   -> DecPrimBin(e.data)
             [] e.via = "gen"   -> IF ~e.res.ok THEN Bad ELSE MakePrim(Code(e), e.res.raw)

SignedNeeds(e, i) ==
  LET s == e.res.signed[i] IN
  IF s.ok THEN <<Need("verify", e.res.verfer.code, <<e.res.verfer.raw, s.raw, e.sigs[i].ser>>)>> ELSE <<>>
RECURSIVE AllNeeds(_, _)
AllNeeds(e, i) == IF i = 0 THEN <<>> ELSE AllNeeds(e, i - 1) \o SignedNeeds(e, i)
NeedsOf(e) ==
  CASE e.op = "signer" -> LET s == Seed(e) IN
                          IF ~s.ok THEN <<>> ELSE IF s.code \notin Sg!Algs THEN <<>> ELSE
                          <<Need("pubkey", s.code, s.raw)>> \o
                          (IF e.res.ok THEN IF e.res.verfer.code \in KeyCodes THEN AllNeeds(e, Len(e.res.signed)) ELSE <<>> ELSE <<>>)
    [] e.op = "verify" -> IF e.code \in KeyCodes
                          THEN <<Need("verify", e.code, <<Take(e.key, RawSize(e.code)), e.sig, e.ser>>)>> ELSE <<>>
    [] OTHER -> <<>>

\* views nested in an answer carry no ok of their own
Shows(r, v) == \A f \in DOMAIN v \ {"ok"} : f \in DOMAIN r /\ r[f] = v[f]
SignOk(e, sg, g, s) ==
  LET alg == sg.key.code
      want == IF "only" \in DOMAIN g
              THEN Sg!IndexedSig(alg, g.only, g.index, IF "ondex" \in DOMAIN g THEN <<g.ondex>> ELSE <<>>, Zeros(64))
              ELSE Sg!PlainSig(alg, Zeros(64)) IN
  IF ~want.ok THEN Refused(s) ELSE
  IF ~s.ok THEN FALSE ELSE
  IF Len(s.raw) # 64 THEN FALSE ELSE
  LET p == [want EXCEPT !.raw = s.raw] IN
  /\ Shows(s, IF "only" \in DOMAIN g THEN IdxView(p) ELSE PrimView(p))
  /\ Shows(s.verfer, PrimView(sg.pub))
  /\ s.is
  /\ V(e, sg.pub.code, sg.pub.raw, s.raw, g.ser)

SignerOk(e) ==
  LET k == Seed(e) IN
  IF ~k.ok THEN Refused(e.res) ELSE
  LET sg == Sg!SignerOf(e, k.code, k.raw, Trans(e)) IN
  IF ~sg.ok THEN Refused(e.res) ELSE
  /\ Carries(e.res, PrimView(sg.key))
  /\ Shows(e.res.verfer, PrimView(sg.pub))
  /\ Len(e.res.signed) = Len(Sigs(e))
  /\ \A i \in 1..Len(Sigs(e)) : SignOk(e, sg, e.sigs[i], e.res.signed[i])

VerifyOk(e) ==
  IF e.code \notin KeyCodes THEN Refused(e.res) ELSE
  IF Len(e.key) < RawSize(e.code) THEN Refused(e.res) ELSE
  IF V(e, e.code, Take(e.key, RawSize(e.code)), e.sig, e.ser) THEN e.res.ok /\ e.res.is
  ELSE Refused(e.res) \/ (e.res.ok /\ ~e.res.is)

\* several private keys made afresh
FreshOk(e) == e.res.ok /\ Len(e.res.raws) = e.count /\ Varied(e.res.raws, 32)

Acc(e) == CASE e.op = "signer" -> SignerOk(e)
            [] e.op = "verify" -> VerifyOk(e)
            [] e.op = "fresh"  -> FreshOk(e)
=============================================================================
