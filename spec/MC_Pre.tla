-------------------------------- MODULE MC_Pre ------------------------------
(***************************************************************************)
(* Design level check of identifier prefixes under a hash without          *)
(* collisions on the model: the prefix an inception event gives rise to    *)
(* verifies against the event, and against another event exactly if that   *)
(* differs in nothing the prefix commits to.                               *)
(***************************************************************************)
EXTENDS Msg
CONSTANTS Codes
Key(c, n) == EncPrim(c, 0, [i \in 1..RawSize(c) |-> n])
V0 == JStr(VerText(KERI, 1, 0, JSON, 0))
\* events by shape: type, keys, n, b, a, what stands in i
Shapes == [t : {Icp, Rot}, k : 0..3, n : BOOLEAN, b : BOOLEAN, x : {<<>>, <<97>>}, kc : {"B", "D"}]
KeyList(s) == CASE s.k = 0 -> JArr(<<>>) [] s.k = 1 -> JArr(<<JStr(Key(s.kc, 1))>>) [] s.k = 2 -> JArr(<<JStr(Key(s.kc, 2))>>)
                [] OTHER -> JArr(<<JStr(Key(s.kc, 1)), JStr(Key(s.kc, 2))>>)
EventOf(s) == JObj(<<Txt_v, L_t, L_d, L_i, L_k, L_n, L_b, <<120>> >>,
  <<V0, JStr(s.t), JStr(<<>>), JStr(<<>>), KeyList(s), IF s.n THEN JArr(<<JStr(<<101>>)>>) ELSE JArr(<<>>),
    IF s.b THEN JArr(<<JStr(<<119>>)>>) ELSE JArr(<<>>), JStr(s.x)>>)

RECURSIVE Fold(_, _, _)
Fold(t, i, acc) == IF i > Len(t) THEN acc
                   ELSE Fold(t, i + 1, <<((acc[1] * 31) + t[i]) % 8191, ((acc[2] * 37) + t[i] * 7) % 8179, ((acc[3] * 41) + t[i] * 3 + i) % 8171>>)
H(env, code, pre) ==
  LET f == Fold(pre, 1, <<Len(pre), 5, 11>>)
      b == [i \in 1..6 |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] \div 256 ELSE f[i \div 2] % 256]
  IN [i \in 1..RawSize(code) |-> b[1 + ((i - 1) % 6)]]
Px == INSTANCE Prefix WITH Hash <- H

VARIABLES mode, code, s, o
vars == <<mode, code, s, o>>
Init == mode = "made" /\ code \in Codes /\ s \in Shapes /\ o = s
Next == mode = "made" /\ mode' = "other" /\ UNCHANGED <<code, s>> /\ o' \in {z \in Shapes : z.t = Icp}
Spec == Init /\ [][Next]_vars

Mine == Px!PrefixOf(0, EventOf(s), {}, <<code>>)
Text(p) == EncPrim(p.code, p.size, p.raw)
Embed(ev, p) == Put(Put(ev, L_i, JStr(Text(p))), L_d, JStr(Text(p)))
Made == mode = "made" =>
  /\ Mine.ok <=> (s.t = Icp /\ (code \in KeyCodes => s.k \in {1, 2} /\ s.kc = code) /\ (code \in Px!BareCodes => ~s.n /\ ~s.b))
  /\ Mine.ok =>
     /\ Mine.code = code
     /\ LET v == Px!Verified(0, Mine, EventOf(s), FALSE) IN v.ok /\ v.is
     /\ LET v == Px!Verified(0, Mine, EventOf(s), TRUE) IN v.ok /\ ~v.is
     /\ LET v == Px!Verified(0, Mine, Embed(EventOf(s), Mine), TRUE) IN v.ok /\ v.is
     \* from the event alone, once the prefix is in it
     /\ LET p == Px!PrefixOf(0, Embed(EventOf(s), Mine), {}, <<>>) IN p.ok /\ Text(p) = Text(Mine)
Binds == mode = "other" /\ Mine.ok =>
  LET v == Px!Verified(0, Mine, EventOf(o), FALSE) IN
  v.ok /\ v.is = (CASE code \in DigestCodes -> EventOf(o) = EventOf(s)
                    [] code \in Px!BareCodes -> o.k = s.k /\ o.kc = s.kc /\ ~o.n /\ ~o.b
                    [] OTHER -> o.k = s.k /\ o.kc = s.kc)
=============================================================================
