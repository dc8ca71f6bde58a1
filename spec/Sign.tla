-------------------------------- MODULE Sign --------------------------------
(***************************************************************************)
(* Signing keys, their public keys and their signatures.  The algorithms   *)
(* themselves are uninterpreted: Pub gives the public key of a private one *)
(* (empty when there is none) and Holds tells whether a signature is that  *)
(* key's over that message.                                                *)
(***************************************************************************)
EXTENDS Typed
CONSTANTS Pub(_, _, _), Holds(_, _, _, _, _)

Algs == {"A", "J", "Q"}                     \* Ed25519, ECDSA secp256k1, ECDSA secp256r1
KeyCode(alg, trans) == CASE alg = "A" -> IF trans THEN "D" ELSE "B"
                         [] alg = "J" -> IF trans THEN "1AAB" ELSE "1AAA"
                         [] alg = "Q" -> IF trans THEN "1AAJ" ELSE "1AAI"
AlgOfKey(code) == CHOOSE a \in Algs : \E t \in BOOLEAN : KeyCode(a, t) = code
PlainCode(alg) == CASE alg = "A" -> "0B" [] alg = "J" -> "0C" [] alg = "Q" -> "0I"

\* the code of an indexed signature: good for both key lists or for the current one only,
\* in the small form whenever that can say it
IndexedCode(alg, only, small) ==
  CASE alg = "A" -> IF only THEN IF small THEN "B" ELSE "2B" ELSE IF small THEN "A" ELSE "2A"
    [] alg = "J" -> IF only THEN IF small THEN "D" ELSE "2D" ELSE IF small THEN "C" ELSE "2C"
    [] alg = "Q" -> IF only THEN IF small THEN "F" ELSE "2F" ELSE IF small THEN "E" ELSE "2E"
AlgOfSig(code) == CHOOSE a \in Algs : \E o, s \in BOOLEAN : IndexedCode(a, o, s) = code

\* a signer: private key and public key, both primitives
SignerOf(env, alg, raw, trans) ==
  IF alg \notin Algs THEN Bad ELSE
  LET p == MakePrim(alg, raw) IN
  IF ~p.ok THEN Bad ELSE
  LET k == Pub(env, alg, p.raw) IN
  IF k = <<>> THEN Bad
  ELSE [ok |-> TRUE, key |-> p, pub |-> [ok |-> TRUE, code |-> KeyCode(alg, trans), size |-> 0, raw |-> k]]

PlainSig(alg, raw) == MakePrim(PlainCode(alg), raw)
\* ondex: <<>> when not given
IndexedSig(alg, only, index, ondex, raw) ==
  LET o == IF ondex = <<>> THEN index ELSE ondex[1]
      small == index < 64 /\ (only \/ o = index) IN
  MakeIdx(IndexedCode(alg, only, small), index, IF only THEN <<>> ELSE <<o>>, raw)
=============================================================================
