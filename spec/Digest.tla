------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* Digests of data.  Hash algorithms are uninterpreted (a parameter).      *)
(***************************************************************************)
EXTENDS Cesr
CONSTANT Hash(_, _, _)        \* Hash(env, code, bytes): digest

DigestOf(env, code, ser) == IF code \notin DigestCodes THEN Bad ELSE MakePrim(code, Hash(env, code, ser))
Matches(env, p, ser) == Hash(env, p.code, ser) = p.raw
\* two digests say the same of the data
Agree(env, p, q, ser) == IF p.code = q.code THEN p.raw = q.raw ELSE Matches(env, p, ser) /\ Matches(env, q, ser)
=============================================================================
