-------------------------------- MODULE Salt --------------------------------
(***************************************************************************)
(* Keys derived from a salt: which key material is asked of the stretching *)
(* algorithm (uninterpreted), for single signers, series and creators.     *)
(***************************************************************************)
EXTENDS Typed

Tiers == {"min", "low", "med", "high"}
SaltSize == 16
\* the tier in force: temporary keys take the least, otherwise the one asked for or the salter's own
InForce(temp, asked, own) == IF temp THEN "min" ELSE IF asked # <<>> THEN asked[1] ELSE own

RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN <<HexDigit[n]>> ELSE HexText(n \div 16) \o <<HexDigit[n % 16]>>

\* the paths of a series of signers
SeriesPath(path, start, i) == path \o HexText(start + i)
\* the paths of a creator's keys: its own stem, else the one given, else the prefix index
StemOf(own, given, pidx) == IF own # <<>> THEN own ELSE IF given # <<>> THEN given[1] ELSE HexText(pidx)
CreatePath(own, given, pidx, ridx, kidx, i) == StemOf(own, given, pidx) \o HexText(ridx) \o HexText(kidx + i)

\* what is stretched for a key of an algorithm: tier, length and path
Asked(tier, alg, path) == [tier |-> tier, size |-> RawSize(alg), path |-> path]
=============================================================================
