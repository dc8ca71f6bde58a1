------------------------------ MODULE T_Thold -------------------------------
(* Recorded thresholds: how they were given, what they answer, in which    *)
(* notations they travel, and which lists of signers satisfy them          *)
EXTENDS TholdView, TraceBase

Refused(r) == ~r.ok /\ r.kind = "err"
(* given in several notations at once: each must be well formed, the last   *)
(* of field, compact text (an empty one is none) and expression counts      *)
Notations(e) ==
  (IF "thold" \in DOMAIN e THEN << OfThold(e.thold) >> ELSE << >>) \o
  (IF "limen" \in DOMAIN e /\ e.limen # << >> THEN << OfLimen(e.limen) >> ELSE << >>) \o
  (IF "sith" \in DOMAIN e THEN << OfSith(e.sith) >> ELSE << >>)
Several(ts) == IF ts = << >> \/ \E i \in 1..Len(ts) : ~ts[i].ok THEN [ok |-> FALSE] ELSE ts[Len(ts)]
Given(e) == CASE e.via = "several" -> Several(Notations(e))
              [] e.via = "thold" -> OfThold(e.doc)
              [] e.via = "sith"  -> OfSith(e.doc)
              [] e.via = "limen" -> OfLimen(e.data)
Back(a, t) == a.ok /\ TholdShows(a.v, t)
TholderOk(e) ==
  LET t == Given(e) r == e.res IN
  IF ~t.ok THEN Refused(r)
  ELSE /\ r.ok
       /\ TholdShows(r, t)
       /\ Back(r.backs.thold, t) /\ Back(r.backs.sith, t) /\ Back(r.backs.limen, t)
       /\ "sets" \in DOMAIN e =>
            \A i \in 1..Len(e.sets) : r.sat[i].ok /\ r.sat[i].is = Satisfied(t, e.sets[i])
Acc(e) == TholderOk(e)
=============================================================================
