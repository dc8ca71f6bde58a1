------------------------------- MODULE Prefix -------------------------------
(***************************************************************************)
(* Identifier prefixes and the inception events they stem from.            *)
(***************************************************************************)
EXTENDS Msg
CONSTANT Hash(_, _, _)

Vcp == <<118,99,112>>
Incepting == {Icp, Dip, Vcp}
PreCodes == KeyCodes \cup DigestCodes
BareCodes == {"B", "1AAA", "1AAI"}          \* keys that can never be rotated

Incepts(ked) == StrIs(ked, L_t) /\ Fld(ked, L_t).v \in Incepting
\* a list or a text that holds nothing, or no field at all
Blank(ked, key) == IF ~Has(ked, key) THEN TRUE ELSE
                   LET x == Fld(ked, key) IN (IsArr(x) \/ IsStr(x)) /\ x.v = <<>>
Bare(ked) == Blank(ked, L_n) /\ Blank(ked, L_b) /\ Blank(ked, L_a)
\* the event's only key, as text
OneKey(ked) == IF ~Has(ked, L_k) THEN Bad ELSE
               IF ~IsArr(Fld(ked, L_k)) THEN Bad ELSE
               LET ks == Fld(ked, L_k).v IN
               IF Len(ks) # 1 THEN Bad ELSE IF ~IsStr(ks[1]) THEN Bad ELSE [ok |-> TRUE, v |-> ks[1].v]

Dummy(code) == JStr([i \in 1..MatterTab[code].fs |-> 35])
\* what is hashed for a digest prefix
PrePre(ked, code) == IF ~IsObj(ked) THEN Bad ELSE Sized(Put(Put(ked, L_i, Dummy(code)), L_d, Dummy(code)), <<>>)

\* code: <<>> when the event's own prefix tells it
PreCode(ked, allows, code) ==
  IF ~IsObj(ked) THEN Bad ELSE
  LET c == IF code # <<>> THEN [ok |-> TRUE, code |-> code[1]]
           ELSE IF ~StrIs(ked, L_i) THEN Bad ELSE DecPrim(Fld(ked, L_i).v) IN
  IF ~c.ok THEN Bad ELSE
  IF c.code \notin PreCodes \/ (allows # {} /\ c.code \notin allows) \/ ~Incepts(ked) THEN Bad
  ELSE [ok |-> TRUE, code |-> c.code]

PrefixOf(env, ked, allows, code) ==
  LET c == PreCode(ked, allows, code) IN
  IF ~c.ok THEN Bad ELSE
  IF c.code \in KeyCodes
  THEN LET k == OneKey(ked) IN
       IF ~k.ok THEN Bad ELSE
       LET p == DecPrim(k.v) IN
       IF ~p.ok THEN Bad ELSE
       IF p.code # c.code \/ (c.code \in BareCodes /\ ~Bare(ked)) THEN Bad
       ELSE [ok |-> TRUE, code |-> p.code, size |-> p.size, raw |-> p.raw]
  ELSE LET p == PrePre(ked, c.code) IN
       IF ~p.ok THEN Bad ELSE MakePrim(c.code, Hash(env, c.code, p.raw))

\* whether a prefix (a primitive) is the event's; Bad: the event cannot be judged
Verified(env, pre, ked, prefixed) ==
  IF ~IsObj(ked) THEN Bad ELSE
  IF ~Incepts(ked) THEN Bad ELSE
  LET t == EncPrim(pre.code, pre.size, pre.raw)
      embedded == prefixed => StrIs(ked, L_i) /\ Fld(ked, L_i).v = t IN
  IF pre.code \in KeyCodes
  THEN LET k == OneKey(ked) IN
       IF ~k.ok THEN [ok |-> TRUE, is |-> FALSE]
       ELSE [ok |-> TRUE, is |-> k.v = t /\ embedded /\ (pre.code \in BareCodes => Bare(ked))]
  ELSE LET p == PrePre(ked, pre.code) IN
       IF ~p.ok THEN Bad ELSE [ok |-> TRUE, is |-> Hash(env, pre.code, p.raw) = pre.raw /\ embedded]
=============================================================================
