------------------------------- MODULE KelView ------------------------------
(***************************************************************************)
(* Key events as bytes: what of them is hashed, signed and committed to.   *)
(***************************************************************************)
EXTENDS Stream, TraceOracle

H(e, code, pre) == Applied(e, "hash", code, pre)
V(e, code, key, sig, ser) == Applied(e, "verify", code, <<key, sig, ser>>) = <<1>>
\* texts of a commitment and a key
CommitsTo(e, d, k) == LET p == DecPrim(d) IN H(e, p.code, k) = p.raw

Kl == INSTANCE Kel WITH Commits <- CommitsTo
Px == INSTANCE Prefix WITH Hash <- H
Sd == INSTANCE Said WITH Hash <- H
L_p == <<112>>
Ixn == <<105,120,110>>
Bin(e) == e.dom = "bin"
CodeOf(e) == e.code

Est(x) == x.t \in {Kl!Icp, Kl!Rot}
KeyLists(x) == \* keys, commitments and thresholds of an establishment event
  LET k == Kl!Keys(x.doc) n == Kl!NextDigs(x.doc) IN
  IF ~(k.ok /\ n.ok) THEN Bad ELSE
  IF ~(Kl!Has(x.doc, Kl!L_kt) /\ Kl!Has(x.doc, Kl!L_nt)) THEN Bad ELSE
  LET kt == Kl!OfSith(Kl!Fld(x.doc, Kl!L_kt)) nt == Kl!OfSith(Kl!Fld(x.doc, Kl!L_nt)) IN
  IF ~(kt.ok /\ nt.ok) THEN Bad ELSE [ok |-> TRUE, keys |-> k.v, digs |-> n.v, kt |-> kt, nt |-> nt]

SaidNeed(e, x) == LET p == Sd!Preimage(x.doc, Kl!L_d, CodeOf(e), <<>>, {}) IN IF p.ok THEN <<Need("hash", CodeOf(e), p.pre)>> ELSE <<>>
PreNeed(x) == LET p == DecPrim(x.pre) IN
              IF ~p.ok THEN <<>> ELSE IF p.code \notin DigestCodes THEN <<>> ELSE
              LET q == Px!PrePre(x.doc, p.code) IN IF q.ok THEN <<Need("hash", p.code, q.raw)>> ELSE <<>>
Intact(e, x) == Sd!Verifies(e, x.m.said, x.doc, Kl!L_d, <<>>, {}, TRUE, TRUE)
Derived(e, x) ==
  LET p == DecPrim(x.pre) IN
  IF ~p.ok THEN FALSE ELSE IF p.code \notin Px!PreCodes THEN FALSE ELSE
  LET v == Px!Verified(e, p, x.doc, TRUE) IN
  v.ok /\ v.is /\ (p.code \in DigestCodes => x.m.said = x.pre)
SelfDerived(x) == LET p == DecPrim(x.pre) IN p.ok /\ p.code \in DigestCodes
=============================================================================
