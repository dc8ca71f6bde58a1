------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Concatenated material: a reader that knows which kind of element comes  *)
(* next takes elements off the front of a text, or of the binary the text  *)
(* stands for, until one is not what it should be.                         *)
(***************************************************************************)
EXTENDS Typed

ElemDec(kind, t) ==
  CASE kind = "counter" -> DecCnt(t)
    [] kind = "indexer" -> DecIdx(t)
    [] kind = "siger"   -> LET x == DecIdx(t) IN IF x.ok /\ x.code \in SigerCodes THEN x ELSE Bad
    [] kind = "matter"  -> DecPrim(t)
    [] OTHER            -> Admit(kind, DecPrim(t))
ElemView(kind, x) == CASE kind = "counter" -> CntView(x)
                       [] kind \in {"indexer", "siger"} -> IdxView(x)
                       [] OTHER -> PrimView(x)

\* the elements read, in order; the last one is Bad if reading stopped there
RECURSIVE ReadText(_, _)
ReadText(plan, t) ==
  IF plan = <<>> THEN <<>> ELSE
  LET x == ElemDec(Head(plan), t) IN
  IF ~x.ok THEN <<Bad>> ELSE <<x>> \o ReadText(Tail(plan), Drop(t, x.used))
RECURSIVE ReadBin(_, _)
ReadBin(plan, b) ==
  IF plan = <<>> THEN <<>> ELSE
  LET x == ElemDec(Head(plan), TextOfBin(b)) IN
  IF ~x.ok THEN <<Bad>> ELSE <<x>> \o ReadBin(Tail(plan), Drop(b, (x.used * 3) \div 4))

RECURSIVE UsedBy(_)
UsedBy(els) == IF els = <<>> THEN 0
               ELSE (IF Head(els).ok THEN Head(els).used ELSE 0) + UsedBy(Tail(els))
Views(plan, els) == [i \in 1..Len(els) |-> IF els[i].ok THEN ElemView(plan[i], els[i]) ELSE Bad]
=============================================================================
