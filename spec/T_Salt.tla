------------------------------- MODULE T_Salt -------------------------------
(* Recorded derivations of keys from salts                                 *)
EXTENDS Fresh, Salt, TraceOracle

Refused(r) == ~r.ok /\ r.kind = "err"
Shows(r, v) == \A f \in DOMAIN v \ {"ok"} : f \in DOMAIN r /\ r[f] = v[f]
Opt(e, f) == IF f \in DOMAIN e THEN <<e[f]>> ELSE <<>>
Or(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d

\* the salt given, as qualified text or as raw material
Given(e) == IF "salt64" \in DOMAIN e THEN DecPrim(e.salt64) ELSE MakePrim("0A", e.salt)
SaltOf(e) == LET g == Given(e) IN IF ~g.ok THEN Bad ELSE IF g.code = "0A" THEN g ELSE Bad
Own(e) == Or(e, "stier", "low")

KeyCodeOf(alg, trans) == CASE alg = "A" -> IF trans THEN "D" ELSE "B"
                           [] alg = "J" -> IF trans THEN "1AAB" ELSE "1AAA"
                           [] alg = "Q" -> IF trans THEN "1AAJ" ELSE "1AAI"
Algs == {"A", "J", "Q"}
\* nothing is stretched to fewer than four bytes
MinSize == 4

\* the keys asked for: [alg, path] each
Wanted(e) ==
  CASE e.op = "stretch"     -> <<[alg |-> "", size |-> Or(e, "size", 32), path |-> Or(e, "path", <<>>)]>>
    [] e.op = "saltsigner"  -> <<[alg |-> Or(e, "code", "A"), size |-> 32, path |-> Or(e, "path", <<>>)]>>
    [] e.op = "saltsigners" -> [i \in 1..Or(e, "count", 1) |->
         [alg |-> Or(e, "code", "A"), size |-> 32, path |-> SeriesPath(Or(e, "path", <<>>), Or(e, "start", 0), i - 1)]]
    [] e.op = "creator"     ->
         LET n == IF Or(e, "codes", <<>>) # <<>> THEN Len(e.codes) ELSE Or(e, "count", 1) IN
         [i \in 1..n |->
           [alg |-> IF Or(e, "codes", <<>>) # <<>> THEN e.codes[i] ELSE Or(e, "code", "A"), size |-> 32,
            path |-> CreatePath(Or(e, "stem", <<>>), Opt(e, "cstem"), Or(e, "pidx", 0), Or(e, "ridx", 0), Or(e, "kidx", 0), i - 1)]]
Tier(e) == InForce(Or(e, "temp", FALSE), IF e.op = "creator" THEN <<>> ELSE Opt(e, "tier"), Own(e))
Possible(e) == /\ SaltOf(e).ok /\ Tier(e) \in Tiers
               /\ \A i \in 1..Len(Wanted(e)) : Wanted(e)[i].size >= MinSize
               /\ e.op # "stretch" => \A i \in 1..Len(Wanted(e)) : Wanted(e)[i].alg \in Algs

Arg(e, w) == <<w.size, w.path, SaltOf(e).raw>>
Stretched(e, w) == Applied(e, "stretch", Tier(e), Arg(e, w))
RECURSIVE Stretches(_, _, _)
Stretches(e, ws, i) == IF i = 0 THEN <<>> ELSE Stretches(e, ws, i - 1) \o <<Need("stretch", Tier(e), Arg(e, ws[i]))>>
RECURSIVE Pubs(_, _)
\* the public keys of the private keys answered (which must be the stretched ones)
Pubs(e, i) == IF i = 0 THEN <<>> ELSE Pubs(e, i - 1) \o <<Need("pubkey", e.res.signers[i].code, e.res.signers[i].raw)>>
NeedsOf(e) == IF e.op = "newsalt" \/ e.op = "fresh" THEN <<>> ELSE
              (IF Possible(e) THEN Stretches(e, Wanted(e), Len(Wanted(e))) ELSE <<>>) \o
              (IF e.res.ok /\ e.op # "stretch" THEN IF \A i \in 1..Len(e.res.signers) : e.res.signers[i].code \in Algs
                                                    THEN Pubs(e, Len(e.res.signers)) ELSE <<>> ELSE <<>>)

SignerOk(e, w, s) ==
  LET p == MakePrim(w.alg, Stretched(e, w)) IN
  /\ Shows(s, PrimView(p))
  /\ Shows(s.verfer, PrimView([code |-> KeyCodeOf(w.alg, Or(e, "trans", TRUE)), size |-> 0,
                               raw |-> Applied(e, "pubkey", w.alg, p.raw)]))

DerivedOk(e) ==
  IF ~Possible(e) THEN Refused(e.res) ELSE
  LET ws == Wanted(e) IN
  IF ~e.res.ok THEN FALSE ELSE
  IF e.op = "stretch" THEN e.res.d = Stretched(e, ws[1]) /\ e.res.tier = Ascii(Own(e)) ELSE
  /\ Len(e.res.signers) = Len(ws)
  /\ \A i \in 1..Len(ws) : SignerOk(e, ws[i], e.res.signers[i])

NewSaltOk(e) == /\ e.res.ok /\ e.res.code = "0A" /\ Len(e.res.raw) = SaltSize
                /\ Shows(e.res, PrimView([code |-> "0A", size |-> 0, raw |-> e.res.raw]))
                /\ e.res.tier = Ascii(Own(e))
\* several salts made afresh
FreshOk(e) == e.res.ok /\ Len(e.res.raws) = e.count /\ Varied(e.res.raws, SaltSize)

Acc(e) == CASE e.op = "newsalt" -> NewSaltOk(e)
            [] e.op = "fresh" -> FreshOk(e)
            [] OTHER -> DerivedOk(e)
=============================================================================
