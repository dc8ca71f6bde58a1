------------------------------ MODULE MC_Jval -------------------------------
(***************************************************************************)
(* Design level check of the document model.  Every text of bounded length *)
(* over the characters JSON is made of, and every document of bounded      *)
(* depth over a few values and keys: the serializer is compact and exact,  *)
(* the parser reads nothing else into a text than what it spells.          *)
(***************************************************************************)
EXTENDS Jval

CONSTANTS Chars, MaxLen, Deep
\* prefixes worth extending: a text that already failed stays failed
VARIABLES mode, txt, doc, path
vars == <<mode, txt, doc, path>>

Leaves == {JStr(<<>>), JStr(<<97>>), JStr(<<34>>), JStr(<<92, 10>>), JStr(<<1>>), JStr(<<195, 169>>), JInt(<<48>>),
           JInt(<<45, 49>>), [t |-> "f", v |-> <<48, 46, 53>>], [t |-> "b", v |-> TRUE], [t |-> "b", v |-> FALSE], JNull}
Keys == {<<>>, <<97>>, <<34>>, <<98>>}

Init == \/ mode = "text" /\ txt = <<>> /\ doc = JNull /\ path = <<>>
        \/ mode = "doc" /\ txt = <<>> /\ path = <<>> /\ doc \in {JArr(<<>>), JObj(<<>>, <<>>)}
Grow == /\ mode = "text" /\ Len(txt) < MaxLen
        /\ \E c \in Chars : txt' = Append(txt, c)
        /\ UNCHANGED <<mode, doc, path>>
\* documents grow by an element, and by being wrapped
Count(x) == Len(x.v)
Add == /\ mode = "doc" /\ Len(path) < Deep /\ doc.t \in {"a", "o"} /\ Count(doc) < 3
       /\ \E x \in Leaves :
            IF doc.t = "a" THEN doc' = JArr(Append(doc.v, x))
            ELSE \E k \in Keys : doc' = Put(doc, k, x)
       /\ path' = Append(path, 0)
       /\ UNCHANGED <<mode, txt>>
Wrap == /\ mode = "doc" /\ Len(path) < Deep
        /\ \/ doc' = JArr(<<doc>>)
           \/ \E k \in Keys : doc' = JObj(<<k>>, <<doc>>)
           \/ doc' = JArr(<<doc, doc>>)
        /\ path' = Append(path, 1)
        /\ UNCHANGED <<mode, txt>>
Next == Grow \/ Add \/ Wrap
Spec == Init /\ [][Next]_vars

\* reading what was written gives the document back, with or without blanks around it
RoundTrip == mode = "doc" =>
  LET t == Ser(doc) p == Parse(t) q == Parse(<<32, 10>> \o t \o <<9>>) IN
  /\ p.ok /\ Ser(p.x) = t
  /\ q.ok /\ Ser(q.x) = t
  /\ ~Parse(t \o <<48>>).ok /\ ~Parse(Take(t, Len(t) - 1)).ok
\* a text that is read is written compactly, and the writing is stable
Stable == mode = "text" =>
  LET p == Parse(txt) IN
  p.ok => /\ Parse(Ser(p.x)).ok
          /\ Ser(Parse(Ser(p.x)).x) = Ser(p.x)
\* replacing a field keeps all others and their order
PutKeeps == mode = "doc" /\ IsObj(doc) =>
  \A k \in Keys :
    LET o == Put(doc, k, JNull) IN
    /\ Ser(Fld(o, k)) = Ser(JNull)
    /\ \A i \in 1..Len(doc.k) : doc.k[i] = o.k[i] /\ (doc.k[i] # k => Ser(o.v[i]) = Ser(doc.v[i]))
    /\ Len(o.k) = Len(doc.k) + (IF Has(doc, k) THEN 0 ELSE 1)
    /\ Ser(Without(o, {k})) = Ser(Without(doc, {k}))
=============================================================================
