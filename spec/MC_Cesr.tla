------------------------------ MODULE MC_Cesr -------------------------------
(***************************************************************************)
(* Design level check of the CESR coding: over every code and a spread of  *)
(* raw material, the two domains round trip, the codings compose, and a    *)
(* text decodes to nothing but the primitive whose coding it is.           *)
(***************************************************************************)
EXTENDS Cesr

Ramp(n, k) == [i \in 1..n |-> (i * 37 + k * 101) % 256]
Fill(n, v) == [i \in 1..n |-> v]
Raws(n) == {Fill(n, 0), Fill(n, 255), Ramp(n, 1)}
PrimCases == UNION {
   IF MatterTab[c].fs = Var
   THEN {<<c, q, r>> : q \in 0..3, r \in {1}}
   ELSE {<<c, 0, r>> : r \in 1..3} : c \in MatterCodes}
RawFor(c, q, r) ==
  LET n == IF MatterTab[c].fs = Var THEN Max2(0, 3 * q - MatterTab[c].ls) ELSE RawSize(c)
  IN CASE r = 1 -> Ramp(n, q + 1) [] r = 2 -> Fill(n, 0) [] OTHER -> Fill(n, 255)
Ok(c, q) == ~(MatterTab[c].fs = Var /\ q = 0 /\ MatterTab[c].ls > 0)

VARIABLES kind, case, pos, sx
vars == <<kind, case, pos, sx>>
CONSTANT Flips
More == <<65,66,67,68>>

\* the text under examination: a canonical text with one sextet replaced, cut, or extended
Text == LET c == case[1] q == case[2] raw == RawFor(c, q, case[3])
        IN EncPrim(c, q, raw)
Init == /\ kind = "root" /\ pos = 0 /\ sx = 0
        /\ case \in {x \in PrimCases : Ok(x[1], x[2])}
Next == /\ kind = "root"
        /\ UNCHANGED case
        /\ kind' \in {"whole", "flip", "cut"}
        /\ LET z == MatterTab[case[1]] n == Len(Text) IN
           CASE kind' = "whole" -> pos' = 0 /\ sx' = 0
             [] kind' = "flip" -> pos' \in 1..Min2(n, z.hs + z.ss + 3) /\ sx' \in Flips
             [] OTHER -> pos' \in {k \in 0..(n-1) : k <= z.hs + z.ss + 2 \/ k >= n - 2} /\ sx' = 0
Spec == Init /\ [][Next]_vars

Input == CASE kind = "whole" -> Text \o More
           [] kind = "flip" -> [Text EXCEPT ![pos] = ChrTab[sx]] \o More
           [] kind = "cut" -> Take(Text, pos)
           [] OTHER -> <<>>

RoundTrip == kind = "whole" =>
   LET c == case[1] q == case[2] raw == RawFor(c, q, case[3])
       d == DecPrim(Input) b == DecPrimBin(B64Dec(Text) \o <<255, 0>>) IN
   /\ d.ok /\ d.code = c /\ d.size = q /\ d.raw = raw /\ d.used = Len(Text)
   /\ Len(Text) % 4 = 0
   /\ b = d
   /\ LET m == MakePrim(c, raw) IN m.ok /\ m.code = c /\ m.raw = raw /\ m.size = q
\* whatever decodes is the coding of what it decodes to, in both domains
Canonical == LET d == DecPrim(Input) IN
   d.ok => /\ EncPrim(d.code, d.size, d.raw) = Take(Input, d.used)
           /\ d.used % 4 = 0
           /\ DecPrimBin(B64Dec(Take(Input, d.used))) = d
\* a proper prefix never decodes as the same primitive: no material is invented
NoInvention == kind = "cut" => LET d == DecPrim(Input) IN ~d.ok
=============================================================================
