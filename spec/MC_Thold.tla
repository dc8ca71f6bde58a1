------------------------------ MODULE MC_Thold ------------------------------
(***************************************************************************)
(* Design level check of signing thresholds: all thresholds of up to three *)
(* clauses over a few weights and small numeric ones, against every set of *)
(* signers.  Satisfaction agrees with plain arithmetic in twelfths, grows  *)
(* with the set, does not see order, repetition or strangers, and every    *)
(* notation reads back as the same threshold.                              *)
(***************************************************************************)
EXTENDS Thold

CONSTANTS Wts, MaxClause, MaxClauses
VARIABLES th, kind, cur
vars == <<th, kind, cur>>
W(n) == Lowest(n, 12)
Init == \/ kind = "num" /\ cur = <<>> /\ \E n \in 0..6 : th = [ok |-> TRUE, w |-> FALSE, n |-> Strip(<<n>>)]
        \/ kind = "build" /\ cur = <<>> /\ th = [ok |-> TRUE, w |-> TRUE, cl |-> <<>>]
Weigh == /\ kind \in {"build", "open"} /\ Len(cur) < MaxClause
         /\ \E n \in Wts : cur' = Append(cur, n)
         /\ kind' = "open" /\ UNCHANGED th
Total(c) == FoldLeft(LAMBDA a, b : a + b, 0, c)
Close == /\ kind = "open" /\ Total(cur) >= 12 /\ Len(th.cl) < MaxClauses
         /\ th' = [th EXCEPT !.cl = Append(th.cl, [i \in 1..Len(cur) |-> W(cur[i])])]
         /\ kind' = "build" /\ cur' = <<>>
Next == Weigh \/ Close
Spec == Init /\ [][Next]_vars

Whole == kind = "num" \/ (kind = "build" /\ th.cl # <<>>)
N == IF th.w THEN SizeOf(th) ELSE 6
Twelfths(w) == (w.n * 12) \div w.d
Plain(t, S) ==
  IF ~t.w THEN IntOfBytes(t.n) > 0 /\ Cardinality(S) >= IntOfBytes(t.n)
  ELSE \A i \in 1..Len(t.cl) :
         12 <= FoldLeftDomain(LAMBDA a, j : a + IF (Before(t.cl, i) + j - 1) \in S THEN Twelfths(t.cl[i][j]) ELSE 0,
                              0, t.cl[i])
Signers == SUBSET (0..(N-1))
Arithmetic == Whole => \A S \in Signers : SatSet(th, S) = Plain(th, S)
Monotone == Whole => \A S \in Signers : SatSet(th, S) => \A x \in 0..(N-1) : SatSet(th, S \cup {x})
Everyone == Whole /\ th.w => SatSet(th, 0..(N-1)) /\ ~SatSet(th, {})
Lists(S) == LET q == SetToSeq(S) IN {q, q \o q, Reverse(q), IF th.w THEN q \o <<N, N + 1, -1>> ELSE q}
Listing == Whole => \A S \in Signers : \A q \in Lists(S) : Satisfied(th, q) = SatSet(th, S)
Notation == Whole =>
  /\ OfThold(TholdOf(th)) = th
  /\ OfSith(SithOf(th)) = th
  /\ OfSith(TholdOf(th)) = th
  /\ OfLimen(LimenOf(th)) = th
  /\ th.w => OfSith(JStr(Ser(SithOf(th)))) = th
=============================================================================
