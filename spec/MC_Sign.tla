------------------------------- MODULE MC_Sign ------------------------------
(***************************************************************************)
(* Every algorithm, list restriction, index and other index; symbolic keys *)
(* and signatures.                                                         *)
(***************************************************************************)
EXTENDS Typed
CONSTANT Indices

\* symbolic algorithms: the public key names algorithm and seed, a signature also the message
P(env, alg, seed) == <<alg, seed>>
V(env, code, key, sig, ser) == FALSE
Sg == INSTANCE Sign WITH Pub <- P, Holds <- V

Raw == [i \in 1..64 |-> (i * 7) % 256]
VARIABLES alg, trans, only, index, ondex
vars == <<alg, trans, only, index, ondex>>
Init == alg \in Sg!Algs /\ trans \in BOOLEAN /\ only \in BOOLEAN /\ index \in Indices
        /\ ondex \in {<<>>} \cup {<<o>> : o \in Indices}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

S == Sg!IndexedSig(alg, only, index, ondex, Raw)
Fits(i) == i < 4096
\* a signature is made exactly when its indices fit
Total == S.ok <=> Fits(index) /\ (only \/ ondex = <<>> \/ Fits(ondex[1]))
\* the code tells algorithm and list restriction, and reading the text gives everything back
Tells == ~S.ok \/
         LET d == DecIdx(EncIdx(S.code, S.index, S.ondex, S.raw))
             b == DecIdxBin(B64Dec(EncIdx(S.code, S.index, S.ondex, S.raw))) IN
         /\ Sg!AlgOfSig(S.code) = alg
         /\ (S.code \in CurrentOnly) = only
         /\ d = b /\ d.ok /\ d.index = index /\ d.raw = Raw
         /\ d.ondex = IF only THEN 0 ELSE IF ondex = <<>> THEN index ELSE ondex[1]
\* the smallest form that says it
Small == ~S.ok \/ (Len(EncIdx(S.code, S.index, S.ondex, S.raw)) = 88
                   <=> index < 64 /\ (only \/ ondex = <<>> \/ ondex = <<index>>))
\* the key code tells algorithm and transferability
Keys == LET k == Sg!KeyCode(alg, trans) IN
        Sg!AlgOfKey(k) = alg /\ (k \notin NonTransCodes) = trans /\ k \in KeyCodes
Plain == Sg!PlainSig(alg, Raw).code \in Family["cigar"]
=============================================================================
