------------------------------- MODULE MC_Msg -------------------------------
(***************************************************************************)
(* Design level check of messages: a message made from fields and the one  *)
(* read from its bytes, whatever follows them, are the same; a declared    *)
(* size that is not the true one, another protocol, version or digest      *)
(* algorithm never yields a message that was not written.                  *)
(***************************************************************************)
EXTENDS Msg

Dig(c) == EncPrim(c, 0, [i \in 1..RawSize(c) |-> 7])
F(k) == CASE k = 1 -> [l |-> L_t, v |-> JStr(Icp)]
          [] k = 2 -> [l |-> L_i, v |-> JStr(<<120>>)]
          [] k = 3 -> [l |-> L_s, v |-> JStr(<<97>>)]
          [] OTHER -> [l |-> L_k, v |-> JArr(<<>>)]
VARIABLES mode, pr, ver, dc, fs, tail, delta
vars == <<mode, pr, ver, dc, fs, tail, delta>>
Init == /\ mode = "made" /\ pr \in Protocols /\ ver \in {<<1,0>>, <<1,1>>, <<0,1>>} /\ dc \in {"E", "0D", "B"}
        /\ fs \in {q \in UNION {[1..n -> 1..4] : n \in 0..3} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
        /\ tail = <<>> /\ delta = 0
Tails == {<<>>, <<125>>, <<32>>, <<32, 32, 10>>, <<123>>, <<255>>, <<44, 34>>, <<75,69,82,73>>}
Follow == mode = "made" /\ mode' = "read" /\ tail' \in Tails /\ delta' \in {-2, -1, 0, 1, 2, 3} /\ UNCHANGED <<pr, ver, dc, fs>>
Next == Follow
Spec == Init /\ [][Next]_vars

Doc0 == JObj(<<Txt_v, L_d>> \o [i \in 1..Len(fs) |-> F(fs[i]).l],
             <<JStr(VerText(pr, ver[1], ver[2], JSON, 0)), JStr(Dig(dc))>> \o [i \in 1..Len(fs) |-> F(fs[i]).v])
Msg0 == FromFields(pr, "E", Doc0, <<>>)
Other == CHOOSE q \in Protocols : q # pr
Made == mode = "made" =>
  /\ Msg0.ok <=> (ver = <<1, 0>> /\ dc = "E")
  /\ ~FromFields(Other, "E", Doc0, <<>>).ok
  /\ Msg0.ok => /\ Ser(Msg0.doc) = Msg0.raw /\ ReadVer(Fld(Msg0.doc, Txt_v).v).size = Len(Msg0.raw)
             /\ Msg0.doc.k = Doc0.k /\ Msg0.said = Dig("E")
             /\ FromFields(pr, "E", Msg0.doc, <<>>) = Msg0
Lie == LET r == Msg0.raw s == FirstMatch(r) IN
       Take(r, s) \o VerText(pr, 1, 0, JSON, Len(r) + delta) \o Drop(r, s + VLen)
Read == mode = "read" /\ Msg0.ok =>
  LET t == Lie \o tail b == FromBytes(pr, "E", t) IN
  /\ b.ok => Len(b.raw) = Len(Msg0.raw) + delta /\ b.raw = Take(t, Len(b.raw)) /\ Ser(Parse(b.raw).x) = Ser(b.doc)
  /\ delta = 0 => b = Msg0
  /\ delta < 0 => ~b.ok
  /\ delta > 0 => b.ok = (Len(tail) >= delta /\ AllIn(Take(tail, delta), WS))
  /\ ~FromBytes(Other, "E", t).ok /\ ~FromBytes(pr, "F", t).ok
=============================================================================
