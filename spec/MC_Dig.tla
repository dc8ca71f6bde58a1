-------------------------------- MODULE MC_Dig ------------------------------
(***************************************************************************)
(* Design level check of digests under algorithms free of collisions: a    *)
(* digest matches its data and nothing else, agreement is symmetric, only  *)
(* holds between digests of the same data, and carries a match over.       *)
(***************************************************************************)
EXTENDS Cesr
CONSTANTS Codes, MaxLen
H(env, code, t) == [i \in 1..RawSize(code) |-> IF i <= Len(t) THEN t[i] + 1 ELSE IF i = RawSize(code) THEN Len(Ascii(code)) ELSE 0]
Dg == INSTANCE Digest WITH Hash <- H
Data == UNION {[1..n -> {0, 1, 254}] : n \in 0..MaxLen}
VARIABLES a, b, x, y, z
vars == <<a, b, x, y, z>>
Init == a \in Codes /\ b = a /\ x \in Data /\ y = x /\ z = x
Next == a' = a /\ x' = x /\ b' \in Codes /\ y' \in Data /\ z' \in {x, y'}
Spec == Init /\ [][Next]_vars
P == Dg!DigestOf(0, a, x)
Q == Dg!DigestOf(0, b, y)
Own == P.ok /\ Dg!Matches(0, P, x) /\ (Dg!Matches(0, P, y) <=> x = y)
ReadsBack == LET t == EncPrim(P.code, P.size, P.raw) d == DecPrim(t) IN d.ok /\ d.code = a /\ Dg!Matches(0, d, x)
Symmetric == Dg!Agree(0, P, Q, z) = Dg!Agree(0, Q, P, z)
Means == Dg!Agree(0, P, Q, z) <=> IF a = b THEN x = y ELSE x = z /\ y = z
Carried == Dg!Agree(0, P, Q, z) /\ Dg!Matches(0, P, z) => Dg!Matches(0, Q, z)
None == ~Dg!DigestOf(0, "B", x).ok
=============================================================================
