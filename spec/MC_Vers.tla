------------------------------ MODULE MC_Vers -------------------------------
(***************************************************************************)
(* Design level check of version fields: making and reading one are        *)
(* inverse, one changed character never reads as the same field, a sized   *)
(* message tells its own length, and recognising it by its first bytes     *)
(* agrees with reading the field out of the document.                      *)
(***************************************************************************)
EXTENDS Vers

CONSTANTS Sizes, Flips
VARIABLES kind, m, pos, ch
vars == <<kind, m, pos, ch>>

Nums == 0..17
Protos == Protocols \cup {<<75,69,82,88>>, <<75,69,82>>}
AllKinds == Kinds \cup {<<67,66,79,82>>}
Init == /\ kind = "field" /\ pos = 0 /\ ch = 0
        /\ m \in [p : Protos, a : {0,1,9,10,15,16}, b : {0,5,15,16}, k : AllKinds, s : Sizes]
Msg(n) == \* documents with the field first, second and third, and decoys
  CASE n = 0 -> [k |-> <<Txt_v>>, f |-> <<>>]
    [] n = 1 -> [k |-> <<Txt_v, <<97>> >>, f |-> <<>>]
    [] n = 2 -> [k |-> << <<>>, Txt_v>>, f |-> <<>>]
    [] OTHER -> [k |-> << <<97,98,99,100,101,102,103,104,105>>, Txt_v>>, f |-> <<>>]
DocOf(n, vs) == LET ks == Msg(n).k IN
  JObj(ks, [i \in 1..Len(ks) |-> IF ks[i] = Txt_v THEN JStr(vs) ELSE IF n = 2 THEN JStr(<<>>) ELSE JStr(<<120>>)])
Made == MakeVer(m.p, m.a, m.b, m.k, m.s)
Flip == /\ kind = "field" /\ Made.ok /\ kind' = "flip" /\ UNCHANGED m
        /\ pos' \in 1..VLen /\ ch' \in Flips
Doc == /\ kind = "field" /\ Made.ok /\ kind' = "doc" /\ UNCHANGED <<m, ch>> /\ pos' \in 0..3
Next == Flip \/ Doc
Spec == Init /\ [][Next]_vars

ReadsBack == kind = "field" =>
  /\ Made.ok <=> (m.p \in Protocols /\ m.k \in Kinds /\ m.a < 16 /\ m.b < 16 /\ m.s < 16777216)
  /\ Made.ok => LET r == ReadVer(Made.text) IN
       /\ Len(Made.text) = VLen /\ r.ok /\ r.proto = m.p /\ r.major = m.a /\ r.minor = m.b /\ r.kind = m.k /\ r.size = m.s
       /\ ~ReadVer(Made.text \o <<48>>).ok /\ ~ReadVer(Take(Made.text, VLen - 1)).ok
Unique == kind = "flip" =>
  LET t == [Made.text EXCEPT ![pos] = ch] r == ReadVer(t) IN
  r.ok => /\ MakeVer(r.proto, r.major, r.minor, r.kind, r.size).text = t
          /\ t # Made.text => ~(r.proto = m.p /\ r.major = m.a /\ r.minor = m.b /\ r.kind = m.k /\ r.size = m.s)
SizedOk == kind = "doc" =>
  LET d == DocOf(pos, Made.text) s == Sized(d, <<>>) IN
  /\ s.ok <=> (m.a = 1 /\ m.b = 0 /\ (pos < 3))
  /\ s.ok => /\ s.size = Len(s.raw) /\ ReadVer(Fld(s.doc, Txt_v).v).size = Len(s.raw)
             /\ Ser(s.doc) = s.raw
             /\ LET z == Sized(s.doc, <<>>) IN z.ok /\ z.raw = s.raw
             /\ \A tail \in {<<>>, <<32>>, <<75,69,82,73>>} :
                  LET n == SniffOf(s.raw \o tail) IN
                  (Len(s.raw \o tail) >= MaxStart + VLen) =>
                     (n.ok /\ n.size = Len(s.raw) /\ n.proto = m.p)
=============================================================================
