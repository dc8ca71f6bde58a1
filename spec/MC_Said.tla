------------------------------ MODULE MC_Said -------------------------------
(***************************************************************************)
(* Design level check of self-addressing identifiers under a perfect hash: *)
(* no two of the model's preimages share a digest.  The identifier of a    *)
(* document verifies for that document and for no other one.               *)
(***************************************************************************)
EXTENDS Vers

Txt_dd == <<100>>
CONSTANTS Codes, Picks
\* the documents: labels and values of three fields, in every order, with and without a version field
V0 == VerText(KERI, 1, 0, JSON, 0)
K == << Txt_dd, <<97>>, <<98>> >>
Vals == <<JStr(<<>>), JStr(<<120>>), JArr(<<JInt(<<49>>)>>), JNull>>
Perms == {p \in [1..3 -> 1..3] : {p[1], p[2], p[3]} = {1, 2, 3}}
Shapes == [n : {3}, p : Perms, x : Picks, y : Picks, v : BOOLEAN]
     \cup [n : {1, 2}, p : {[i \in 1..3 |-> i]}, x : Picks, y : {1}, v : BOOLEAN]
Val(s, f) == IF f = 1 THEN JStr(<<>>) ELSE IF f = 2 THEN Vals[s.x] ELSE Vals[s.y]
Body(s) == JObj([i \in 1..s.n |-> K[s.p[i]]], [i \in 1..s.n |-> Val(s, s.p[i])])
DocOf(s) == LET o == Body(s) IN IF s.v THEN JObj(<<Txt_v>> \o o.k, <<JStr(V0)>> \o o.v) ELSE o

\* a perfect hash of short texts: the text itself, folded into the digest by position and never colliding
\* on this model (AllDistinct checks it)
RECURSIVE Fold(_, _, _)
Fold(t, i, acc) == IF i > Len(t) THEN acc
                   ELSE Fold(t, i + 1, <<((acc[1] * 31) + t[i]) % 8191, ((acc[2] * 37) + t[i] * 7) % 8179, ((acc[3] * 41) + t[i] * 3 + i) % 8171>>)
H(env, code, pre) ==
  LET f == Fold(pre, 1, <<Len(pre), 5, 11>>)
      b == [i \in 1..6 |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] \div 256 ELSE f[i \div 2] % 256]
  IN [i \in 1..RawSize(code) |-> b[1 + ((i - 1) % 6)]]
Sd == INSTANCE Said WITH Hash <- H

VARIABLES mode, code, ds, ign, os
vars == <<mode, code, ds, ign, os>>
Init == mode = "made" /\ code \in Codes /\ ds \in Shapes /\ ign \in {{}, { <<98>> }} /\ os = ds
Attack == mode = "made" /\ mode' = "attack" /\ UNCHANGED <<code, ds, ign>> /\ os' \in Shapes
Next == Attack
Spec == Init /\ [][Next]_vars
doc == DocOf(ds)
other == DocOf(os)

Mine == Sd!Identified(0, doc, Txt_dd, code, <<>>, ign)
Made == mode = "made" =>
  /\ Mine.ok
  /\ Sd!Verifies(0, Mine.said, Mine.doc, Txt_dd, <<>>, ign, TRUE, TRUE)
  /\ LET s == Sd!SaidOf(0, Mine.doc, Txt_dd, <<>>, <<>>, ign) IN s.ok /\ s.said = Mine.said
  /\ LET again == Sd!Identified(0, Mine.doc, Txt_dd, code, <<>>, ign) IN again.ok /\ Ser(again.doc) = Ser(Mine.doc)
  /\ Mine.doc.k = doc.k
  /\ \A i \in 1..Len(doc.k) : doc.k[i] \notin {Txt_v, Txt_dd} => Ser(Mine.doc.v[i]) = Ser(doc.v[i])
  /\ Has(doc, Txt_v) => ReadVer(Fld(Mine.doc, Txt_v).v).size = Len(Ser(Mine.doc))
\* the same identifier in another document: only what is ignored may differ
Theirs == Sd!Identified(0, other, Txt_dd, code, <<>>, ign)
Core(o) == Ser(Without(o, ign))
SizeOnly(o) == IF Has(o, Txt_v) THEN Put(o, Txt_v, JStr(V0)) ELSE o
Binds == mode = "attack" =>
  LET forged == Put(Theirs.doc, Txt_dd, JStr(Mine.said))
      is == Sd!Verifies(0, Mine.said, forged, Txt_dd, <<>>, ign, TRUE, TRUE)
      same == Core(SizeOnly(doc)) = Core(SizeOnly(other)) /\ (Has(doc, Txt_v) => Len(Ser(doc)) = Len(Ser(other))) IN
  is = same
=============================================================================
