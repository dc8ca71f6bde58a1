------------------------------- MODULE MC_Path ------------------------------
(***************************************************************************)
(* Design level check of paths: texts and elements correspond one to one,  *)
(* roots come off as they went on, and following a path under a root is    *)
(* following the root and then the path.                                   *)
(***************************************************************************)
EXTENDS Path
CONSTANTS MaxElems
Elems == { <<97>>, <<98>>, <<48>>, <<49>>, <<48,49>>, <<97,98>> }
Lists(n) == UNION {[1..k -> Elems] : k \in 0..n}
Docs == LET num(x) == JInt(<<48 + x>>) IN
  << JNull, num(1), JStr(<<97>>), JArr(<<>>), JObj(<<>>, <<>>),
     JArr(<<num(1), JArr(<<num(2), num(3)>>)>>),
     JObj(<< <<98>>, <<97>> >>, <<num(4), JArr(<<num(5), JObj(<< <<97>> >>, <<num(6)>>)>>)>>),
     JObj(<< <<97>>, <<48>>, <<97,98>> >>, <<JObj(<< <<98>>, <<49>> >>, <<num(7), JStr(<<120>>)>>), num(8), JArr(<<JNull>>)>>) >>
VARIABLES a, b, d
vars == <<a, b, d>>
Init == a \in Lists(MaxElems) /\ b = <<>> /\ d = 0
Next == \/ d = 0 /\ b' \in Lists(MaxElems) /\ d' \in 1..Len(Docs) /\ a' = a
Spec == Init /\ [][Next]_vars

TextOk == d = 0 => LET t == JoinPath(a) IN
  /\ IsPathText(t) /\ Elements(t) = a
  /\ LET p == MakePrim("4A", BextRaw(t)) q == DecPrim(EncPrim(p.code, p.size, p.raw)) IN BextOf(q.code, q.raw) = t
  /\ LET o == OfElems(JArr([i \in 1..Len(a) |-> JStr(a[i])])) IN o.ok /\ o.es = a
RootOk == d # 0 =>
  /\ Stripped(b, Rooted(b, a)) = a
  /\ (IsPrefixSeq(b, a) => Rooted(b, Stripped(b, a)) = a /\ HasPrefix(JoinPath(a), JoinPath(b)))
  /\ (~IsPrefixSeq(b, a) => Stripped(b, a) = a)
FollowOk == d # 0 =>
  LET x == Docs[d] r == Follow(x, b) w == Follow(x, Rooted(b, a)) IN
  /\ Follow(x, <<>>).x = x
  /\ IF ~r.ok THEN ~w.ok ELSE LET s == Follow(r.x, a) IN w.ok = s.ok /\ (s.ok => Ser(w.x) = Ser(s.x))
=============================================================================
