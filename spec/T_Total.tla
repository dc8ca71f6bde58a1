------------------------------ MODULE T_Total -------------------------------
(***************************************************************************)
(* Recorded outcomes of giving the same outside material to many readers.  *)
(***************************************************************************)
EXTENDS Total, TraceBase

\* the harness marks with - what cannot be expressed as an argument
Allowed(c, data, utf8) ==
  IF "text" \in DOMAIN c /\ c.text /\ ~utf8 THEN {"-"}
  ELSE IF ~utf8 /\ "via" \in DOMAIN c /\ c.via = "qb64b" THEN MayBe(c, data) \cup {"e"}
  ELSE MayBe(c, data)
TotalAcc(e) ==
  /\ e.res.ok
  /\ \A i \in 1..Len(e.inputs) :
        LET g == e.res.got[i] IN
        /\ Len(g) = Len(e.calls)
        /\ \A k \in 1..Len(e.calls) :
              SubSeq(g, k, k) \in Allowed(e.calls[k], e.inputs[i], e.utf8[i])
=============================================================================
