------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Unbounded naturals as little-endian digit sequences in base 4096, for   *)
(* arithmetic beyond TLC's 32 bit integers.  No leading (high) zeros; zero *)
(* is the empty sequence.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

NBase == 4096
RECURSIVE NTrim(_)
NTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % NBase>> \o NOf(n \div NBase)
NDig(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
NMax(a, b) == IF a > b THEN a ELSE b
\* propagate carries; digits may be up to 2^31 - 1
RECURSIVE NCarry(_, _, _)
NCarry(a, i, c) == IF i > Len(a) THEN NOf(c)
                   ELSE LET s == a[i] + c IN <<s % NBase>> \o NCarry(a, i + 1, s \div NBase)
NAdd(a, b) == NTrim(NCarry([i \in 1..NMax(Len(a), Len(b)) |-> NDig(a, i) + NDig(b, i)], 1, 0))
RECURSIVE NConv(_, _, _, _)
NConv(a, b, k, i) == IF i > k THEN 0 ELSE NDig(a, i) * NDig(b, k + 1 - i) + NConv(a, b, k, i + 1)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE NTrim(NCarry([k \in 1..(Len(a) + Len(b) - 1) |-> NConv(a, b, k, 1)], 1, 0))
RECURSIVE NLessFrom(_, _, _)
NLessFrom(a, b, i) == IF i = 0 THEN FALSE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE NLessFrom(a, b, i - 1)
NLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE NLessFrom(a, b, Len(a))
=============================================================================
