------------------------------- MODULE MC_Wit -------------------------------
(***************************************************************************)
(* A controller that tells two stories: two events for the same place in   *)
(* its log.  Honest witnesses sign the one they see first, faulty ones     *)
(* sign both.  Readers take what is Witnessed, however often and in which  *)
(* form a signature comes.  With the witness threshold above half of the   *)
(* witnesses and the faulty together no two readers disagree; with it at   *)
(* most the number of honest witnesses nobody is kept waiting.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxWits, Cut          \* Cut: rotations drop and add a witness on the way
SameKey(env, d, k) == d = k
B == INSTANCE Book WITH Commits <- SameKey

VARIABLES n, faulty, toad, first, changed
vars == <<n, faulty, toad, first, changed>>
Byte(x) == IF x = 0 THEN <<>> ELSE <<x>>
Range_(s) == {s[i] : i \in 1..Len(s)}
Here == IF changed THEN [i \in 1..n |-> i + 1] ELSE [i \in 1..n |-> i]       \* witnesses in force: one cut, one added
Init == /\ n \in 1..MaxWits /\ toad \in 1..(n + 1) /\ changed \in (IF Cut THEN BOOLEAN ELSE {FALSE})
        /\ faulty \in {S \in SUBSET (1..(n + 1)) : Cardinality(S) <= 2}
        /\ first = [w \in 1..(n + 1) |-> 0]
\* a witness sees one of the two events and signs if it has not signed the other
Sign(w, e) == /\ first[w] = 0 /\ w \notin faulty /\ first' = [first EXCEPT ![w] = e]
              /\ UNCHANGED <<n, faulty, toad, changed>>
Next == \E w \in 1..(n + 1), e \in {1, 2} : Sign(w, e)
Spec == Init /\ [][Next]_vars

\* the event as a reader is shown it, each signature once and again
Old == [has |-> TRUE, wits |-> [i \in 1..n |-> i], toad |-> Byte(toad)]
Shown(e) ==
  LET who == SelectSeq([i \in 1..n |-> i], LAMBDA i : Here[i] \in faulty \/ first[Here[i]] = e)
      sigs == [q \in 1..Len(who) |-> [who |-> who[q] - 1, good |-> TRUE]]
      junk == <<[who |-> 0, good |-> FALSE], [who |-> n, good |-> TRUE], [who |-> n + 7, good |-> TRUE]>> IN
  [t |-> IF changed THEN "rot" ELSE "ixn", cuts |-> IF changed THEN <<1>> ELSE <<>>, adds |-> IF changed THEN <<n + 1>> ELSE <<>>,
   toad |-> Byte(toad), wsigs |-> junk \o sigs \o sigs]
Taken(e) == B!Witnessed(Old, Shown(e))
Faults == Cardinality(faulty \cap Range_(Here))
Agreement == 2 * toad > n + Faults => ~(Taken(1) /\ Taken(2))
Waiting == \A e \in {1, 2} : (toad <= n - Faults /\ \A i \in 1..n : Here[i] \in faulty \/ first[Here[i]] = e) => Taken(e)
Counted == \A e \in {1, 2} : Taken(e) = (toad <= n /\ Cardinality({i \in 1..n : Here[i] \in faulty \/ first[Here[i]] = e}) >= toad)
=============================================================================
