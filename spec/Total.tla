------------------------------- MODULE Total --------------------------------
(***************************************************************************)
(* What a reader may do with material from outside: answer it (o), refuse  *)
(* it (e), or read it and then refuse to answer something about it (u).    *)
(* There is no other outcome: no panic (p), no abort (a), no hang (h).     *)
(* For material whose coding the specification defines, it also says which *)
(* of the outcomes it must be.                                             *)
(***************************************************************************)
EXTENDS Stream

Outcomes == {"o", "e", "u"}
One(x) == IF x.ok THEN {"o"} ELSE {"e"}

\* readers with values of their own to be refused (weak keys) are not told apart here
Sure == (DOMAIN Family) \ {"signer", "verfer", "dater"}
Reader(c) == IF "cls" \in DOMAIN c THEN c.cls ELSE "base"

MayBe(c, data) ==
  CASE c.op = "matter" /\ c.via \in {"qb64", "qb64b"} /\ Reader(c) \in Sure ->
         One(Admit(Reader(c), DecPrim(data)))
    [] c.op = "matter" /\ c.via = "qb2" /\ Reader(c) \in Sure ->
         One(Admit(Reader(c), DecPrimBin(data)))
    [] c.op = "indexer" /\ c.via \in {"qb64", "qb64b"} ->
         One(ElemDec(IF Reader(c) = "siger" THEN "siger" ELSE "indexer", data))
    [] c.op = "indexer" /\ c.via = "qb2" ->
         One(ElemDec(IF Reader(c) = "siger" THEN "siger" ELSE "indexer", TextOfBin(data)))
    [] c.op = "counter" /\ c.via \in {"qb64", "qb64b"} -> One(DecCnt(data))
    [] c.op = "counter" /\ c.via = "qb2" -> One(DecCntBin(data))
    [] OTHER -> Outcomes
=============================================================================
