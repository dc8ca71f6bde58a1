------------------------------ MODULE T_Stream ------------------------------
(***************************************************************************)
(* Recorded reading of concatenated material, judged against Stream.       *)
(***************************************************************************)
EXTENDS Stream, TraceBase

Same(r, v) == IF ~v.ok THEN ~r.ok /\ r.kind = "err"
              ELSE r.ok /\ \A f \in DOMAIN v : f \in DOMAIN r /\ r[f] = v[f]
StreamAcc(e) ==
  LET x == IF e.dom = "qb2" THEN ReadBin(e.plan, e.data) ELSE ReadText(e.plan, e.data)
      v == Views(e.plan, x)
      r == e.res
      n == UsedBy(x)
  IN /\ r.ok
     /\ Len(r.els) = Len(v)
     /\ \A i \in 1..Len(v) : Same(r.els[i], v[i])
     /\ r.used = IF e.dom = "qb2" THEN (n * 3) \div 4 ELSE n
=============================================================================
