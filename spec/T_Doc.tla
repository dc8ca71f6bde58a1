------------------------------- MODULE T_Doc --------------------------------
(***************************************************************************)
(* Recorded calls on data values and version fields, judged against Jval   *)
(* and Vers.                                                               *)
(***************************************************************************)
EXTENDS Vers, TraceBase

Refused(r) == ~r.ok /\ r.kind = "err"
SameDoc(a, b) == Ser(a) = Ser(b)
Is(a, v) == a.ok /\ a.v = v
IsDoc(a, d) == a.ok /\ SameDoc(a.v, d)
IsSeq(a, s) == a.ok /\ Len(a.v) = Len(s) /\ \A i \in 1..Len(s) : SameDoc(a.v[i], s[i])

\* the document with its unmodelled fractions left open
RECURSIVE Blank(_)
Blank(x) == CASE x.t \in {"f", "i"} -> [t |-> "f", v |-> <<48>>]
              [] x.t = "a" -> JArr([i \in 1..Len(x.v) |-> Blank(x.v[i])])
              [] x.t = "o" -> JObj(x.k, [i \in 1..Len(x.v) |-> Blank(x.v[i])])
              [] OTHER -> x

JsonOk(e) ==
  LET p == Parse(e.data) r == e.res IN
  IF ~p.ok THEN Refused(r)
  ELSE IF ~Modelled(p.x) THEN Refused(r) \/ (r.ok /\ SameDoc(Blank(r.doc), Blank(p.x)))
  ELSE /\ r.ok /\ r.same
       /\ "flat" \in DOMAIN e \/ SameDoc(r.doc, p.x)
       /\ r.json = Ser(p.x) /\ r.disp = r.json /\ r.again = r.json

FitsI64(t) == IF t[1] = 45 THEN DigitsLeq(SubSeq(t, 2, Len(t)), MinI64) ELSE DigitsLeq(t, MaxI64)
\* whole numbers every fraction type can hold, written plainly
Exact53(t) == LET m == IF t[1] = 45 THEN SubSeq(t, 2, Len(t)) ELSE t IN Len(m) <= 15 /\ t # <<45, 48>>
JvalOk(e) ==
  LET x == e.doc r == e.res
      If(a, c, v) == IF c THEN Is(a, v) ELSE Refused(a)
  IN
  /\ r.ok /\ r.self.v
  /\ Is(r.json, Ser(x)) /\ Is(r.disp, Ser(x))
  /\ If(r.bool, x.t = "b", x.v) /\ If(r.tbool, x.t = "b", x.v)
  /\ If(r.str, x.t = "s", x.v) /\ If(r.tstr, x.t = "s", x.v)
  /\ If(r.int, x.t = "i" /\ FitsI64(x.v), x.v)
  /\ IF x.t = "f" THEN r.tint.ok \/ Refused(r.tint) ELSE If(r.tint, x.t = "i" /\ FitsI64(x.v), x.v)
  /\ If(r.frac, x.t = "f", x.v)
  /\ IF x.t = "i" THEN (Exact53(x.v) => Is(r.tfrac, x.v \o <<46, 48>>)) ELSE If(r.tfrac, x.t = "f", x.v)
  /\ IF x.t = "a" THEN IsSeq(r.vec, x.v) /\ IsSeq(r.tvec, x.v) ELSE Refused(r.vec) /\ Refused(r.tvec)
  /\ IF x.t = "o" THEN IsDoc(r.map, x) /\ IsDoc(r.tmap, x) ELSE Refused(r.map) /\ Refused(r.tmap)
  /\ "get" \in DOMAIN r => IF x.t = "o" /\ Has(x, e.label) THEN IsDoc(r.get, Fld(x, e.label)) ELSE Refused(r.get)
  /\ "put" \in DOMAIN r => LET y == Put(x, e.label, e.put) IN IsDoc(r.put, y) /\ r.put.json = Ser(y)

\* places in a document, by label or position
RECURSIVE FoundAt(_, _), PutAt(_, _, _)
FoundAt(x, path) == IF path = <<>> THEN x ELSE
  LET p == path[1] rest == SubSeq(path, 2, Len(path)) IN
  FoundAt(IF "n" \in DOMAIN p THEN x.v[p["n"] + 1] ELSE Fld(x, p["k"]), rest)
PutAt(x, path, v) == IF path = <<>> THEN v ELSE
  LET p == path[1] rest == SubSeq(path, 2, Len(path)) IN
  IF "n" \in DOMAIN p THEN [x EXCEPT !.v = [@ EXCEPT ![p["n"] + 1] = PutAt(@, rest, v)]]
  ELSE IF Has(x, p["k"]) THEN Put(x, p["k"], PutAt(Fld(x, p["k"]), rest, v)) ELSE Put(x, p["k"], v)
RECURSIVE Edited(_, _)
Edited(x, es) == IF es = <<>> THEN x ELSE Edited(PutAt(x, es[1].path, es[1].put), SubSeq(es, 2, Len(es)))
EditOk(e) == LET y == Edited(e.doc, e.edits) r == e.res IN
  r.ok /\ SameDoc(r.doc, y) /\ r.json = Ser(y) /\ Len(r.found) = Len(e.reads)
  /\ \A i \in 1..Len(e.reads) : SameDoc(r.found[i], FoundAt(y, e.reads[i]))

\* the shapes of shapes() in harness/src/doc.rs
ShapesOk(e) ==
  LET s == JStr(e.s) n == [t |-> "i", v |-> e.n] b == [t |-> "b", v |-> e.b] T == [t |-> "b", v |-> TRUE] F == [t |-> "b", v |-> FALSE]
      N == JNull k == e.k d == e.doc A(x) == JArr(x) O(ks, vs) == JObj(ks, vs)
      i(c) == [t |-> "i", v |-> <<48 + c>>] L(c) == <<c>>
      last == <<108, 97, 115, 116>>
      want == << N, T, F, s, n, b, A(<<>>), O(<<>>, <<>>), [t |-> "i", v |-> <<45, 49>>], [t |-> "f", v |-> <<49, 46, 53>>],
        A(<<n, s, b>>), A(<<N, T, F, A(<<n>>), O(<<L(120)>>, <<s>>)>>), A(<<A(<<n>>), A(<<s, A(<<b>>)>>)>>),
        O(<<L(97), L(98), L(99)>>, <<s, n, b>>),
        O(<<L(97), L(99), L(102)>>, <<A(<<n, O(<<L(98)>>, <<s>>), N>>), O(<<L(100)>>, <<O(<<L(101)>>, <<b>>)>>), N>>),
        Put(O(<<k>>, <<n>>), last, A(<<T, F>>)), O(<<L(110), L(116), L(102), L(108), L(111)>>, <<N, T, F, A(<<>>), O(<<>>, <<>>)>>),
        O(<<L(97), L(98)>>, <<s, i(2)>>), A(<<d, n>>), O(<<k>>, <<d>>) >>
      r == e.res
  IN r.ok /\ Len(r.docs) = Len(want) /\ \A j \in 1..Len(want) : SameDoc(r.docs[j], want[j]) /\ r.texts[j] = Ser(want[j])

Opt(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d

VersifyOk(e) ==
  LET v == Opt(e, "version", <<1, 0>>)
      m == MakeVer(Opt(e, "proto", KERI), v[1], v[2], Opt(e, "kind", JSON), Opt(e, "size", 0))
  IN IF m.ok THEN e.res.ok /\ e.res.text = m.text ELSE Refused(e.res)

VerIs(r, v) == r.ok /\ r.proto = v.proto /\ r.major = v.major /\ r.minor = v.minor /\ r.kind = v.kind /\ r.size = v.size
DeversifyOk(e) == LET v == ReadVer(e.data) IN IF v.ok THEN VerIs(e.res, v) ELSE Refused(e.res)
SniffOk(e) == LET v == SniffOf(e.data) IN IF v.ok THEN VerIs(e.res, v) ELSE Refused(e.res)
SizeifyOk(e) ==
  LET s == Sized(e.doc, IF "kind" \in DOMAIN e THEN <<e.kind>> ELSE <<>>) r == e.res IN
  IF ~s.ok THEN Refused(r)
  ELSE /\ r.ok /\ r.raw = s.raw /\ SameDoc(r.doc, s.doc) /\ r.proto = s.proto /\ r.kind = s.kind
       /\ r.major = s.major /\ r.minor = s.minor

(* a message of e.count times one character, too long to be spelled out *)
BigMessageOk(e) ==
  LET Doc(v) == JObj(<<Txt_v, <<100>>, <<120>>>>, <<JStr(v), JStr(<<>>), JStr(<<>>)>>)
      esc    == Ser(JStr(e.fill))
      piece  == SubSeq(esc, 2, Len(esc) - 1)
      room   == Len(Ser(Doc(VerText(KERI, 1, 0, JSON, 0))))
      total  == room + e.count * Len(piece)
      full   == total + 44
      r      == e.res
  IN IF total >= 16777216 THEN Refused(r) ELSE
     LET vs == VerText(KERI, 1, 0, JSON, total) t == Ser(Doc(vs)) IN
     /\ r.ok /\ r.len = total /\ r.v = vs /\ r.size = total
     /\ e.head = room - 2 /\ e.step = Len(piece)
     /\ r.head = Take(t, room - 2) /\ r.tail = Drop(t, room - 2) /\ r.piece = piece /\ r.same
     /\ IF full >= 16777216 THEN ~r.said.ok
        ELSE /\ r.said.ok /\ r.said.size = full /\ r.said.len = full /\ r.said.again = full /\ r.said.alen = full
             /\ r.said.same /\ r.said.own /\ ~r.said.other /\ r.said.v = VerText(KERI, 1, 0, JSON, full)

Acc(e) == CASE e.op = "bigmessage" -> BigMessageOk(e)
            [] e.op = "json"      -> JsonOk(e)
            [] e.op = "jval"      -> JvalOk(e)
            [] e.op = "edit"      -> EditOk(e)
            [] e.op = "shapes"    -> ShapesOk(e)
            [] e.op = "versify"   -> VersifyOk(e)
            [] e.op = "deversify" -> DeversifyOk(e)
            [] e.op = "sniff"     -> SniffOk(e)
            [] e.op = "sizeify"   -> SizeifyOk(e)
=============================================================================
