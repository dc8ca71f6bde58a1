----------------------------- MODULE MC_Hostile -----------------------------
(***************************************************************************)
(* The adversary between the one who writes and the one who reads: it may  *)
(* replace, drop, insert, cut, repeat and move pieces of genuine material. *)
(* Its behaviours are (a) the environment in which the specification's own *)
(* readers must stay total and canonical, and (b) printed, so that the     *)
(* same material is given to the real readers.                             *)
(***************************************************************************)
EXTENDS Total, Json, IOUtils

Seeds == ndJsonDeserialize(IOEnv.KSEEDS)
Emitting == IOEnv.KEMIT = "1"
Chars == {0, 10, 32, 34, 43, 44, 45, 46, 47, 48, 49, 52, 53, 55, 57, 58, 61, 65, 66, 68, 69, 90, 91, 92,
          93, 95, 97, 102, 110, 122, 123, 125, 126, 127, 195, 226, 255}
Head4 == 1..8

VARIABLES text, steps
vars == <<text, steps>>
Init == text \in {Seeds[i].t : i \in 1..Len(Seeds)} /\ steps = 0
Spots == {k \in 1..Len(text) : k <= 24 \/ k + 6 >= Len(text) \/ k % 7 = 0}
Put(p, c) == [text EXCEPT ![p] = c]
\* one piece of mischief of each sort per step: the simulator draws among the sorts
AnyOf(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Next ==
  /\ steps' = steps + 1
  /\ \E p \in AnyOf(Spots), c \in AnyOf(Chars), n \in AnyOf(Head4), i \in AnyOf(1..Len(Seeds)) :
     \/ text' = Put(p, c)
     \/ text' = Take(text, p - 1) \o Drop(text, p)
     \/ text' = Take(text, p - 1) \o <<c>> \o Drop(text, p - 1)
     \/ text' = Take(text, p - 1)
     \/ text' = Drop(text, p)
     \/ text' = Take(text, p - 1) \o SubSeq(text, p, Min2(Len(text), p + n)) \o Drop(text, p - 1)
     \/ text' = Take(Take(text, p) \o Seeds[i].t, 900)
Spec == Init /\ [][Next]_vars

\* every text met is kept in a register and written out at the end
ASSUME TLCSet(1, <<>>)
Emit == Emitting => TLCSet(1, Append(TLCGet(1), [t |-> text]))
Written == Emitting => ndJsonSerialize(IOEnv.KOUT, TLCGet(1))

Canon(t) ==
  LET p == DecPrim(t) x == DecIdx(t) c == DecCnt(t) IN
  /\ p.ok => EncPrim(p.code, p.size, p.raw) = Take(t, p.used) /\ p.used % 4 = 0
  /\ x.ok => x.used % 4 = 0 /\ (x.code \notin {"0z"} => EncIdx(x.code, x.index, x.ondex, x.raw) = Take(t, x.used) \/ x.ondex = x.index)
  /\ c.ok => EncCnt(c.code, c.count) = Take(t, c.used)
  /\ ~(c.ok /\ (p.ok \/ x.ok))
\* the specification's readers answer whatever they are given
TotalSpec == Canon(text) /\ Canon(TextOfBin(text))
=============================================================================
