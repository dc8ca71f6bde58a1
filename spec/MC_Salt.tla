------------------------------- MODULE MC_Salt ------------------------------
(***************************************************************************)
(* Series of derived keys: every key of a series has its own path, any     *)
(* tail of a series is a series again, and the tier in force is the one    *)
(* meant.                                                                  *)
(***************************************************************************)
EXTENDS Salt
CONSTANTS Nums, Counts

Texts == {<<>>, <<97>>, <<48>>, <<49, 48>>}
VARIABLES own, given, pidx, ridx, kidx, count
vars == <<own, given, pidx, ridx, kidx, count>>
Init == own \in Texts /\ given \in {<<>>} \cup {<<t>> : t \in Texts} /\ pidx \in {0, 10, 255} /\ ridx \in Nums
        /\ kidx \in Nums /\ count \in Counts
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Path(k, i) == CreatePath(own, given, pidx, ridx, k, i)
Series(k, n) == [i \in 1..n |-> Path(k, i - 1)]
Distinct == Cardinality({Path(kidx, i) : i \in 0..(count - 1)}) = count
TailIsSeries == LET s == Series(kidx, count) IN \A j \in 0..(count - 1) : Series(kidx + j, count - j) = Drop(s, j)
SeriesDistinct == Cardinality({SeriesPath(own, kidx, i) : i \in 0..count}) = count + 1
SeriesTail == \A j \in 0..count : SeriesPath(own, kidx + j, 0) = SeriesPath(own, kidx, j)
OwnStem == (own # <<>> => \A g \in Texts : StemOf(own, <<g>>, pidx) = own)
           /\ (own = <<>> /\ given # <<>> => StemOf(own, given, pidx) = given[1])
TierMeant == \A t \in Tiers, o \in Tiers : /\ InForce(FALSE, <<t>>, o) = t /\ InForce(FALSE, <<>>, o) = o
                                           /\ InForce(TRUE, <<t>>, o) = "min" /\ InForce(TRUE, <<>>, o) = "min"
=============================================================================
