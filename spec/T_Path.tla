------------------------------- MODULE T_Path -------------------------------
(* Recorded paths: made, read back, put under and taken off roots, followed *)
EXTENDS Path, TraceBase

Refused(r) == ~r.ok /\ r.kind = "err"
Carries(r, v) == r.ok /\ \A f \in DOMAIN v : f \in DOMAIN r /\ r[f] = v[f]
SameDoc(a, b) == Ser(a) = Ser(b)
List(es) == JArr([i \in 1..Len(es) |-> JStr(es[i])])

\* a primitive that may be read as a path
Shows(r, p) ==
  LET t == BextOf(p.code, p.raw) IN
  /\ Carries(r, PrimView(p)) /\ r.bext.ok /\ r.bext.v = t
  /\ IF IsPathText(t) THEN r.path.ok /\ SameDoc(r.path.v, List(Elements(t)))
     \* with empty elements: refused, or the elements that its text joins (none, where the first is empty)
     ELSE IF Odd(t) THEN \/ Refused(r.path)
                         \/ /\ r.path.ok
                            /\ \/ SameDoc(r.path.v, List(Elements(t)))
                               \/ Elements(t)[1] = <<>> /\ SameDoc(r.path.v, List(<<>>))
     ELSE Refused(r.path)

OfText(t) == MakePrim("4A", BextRaw(t))
PatherOk(e) ==
  LET p == CASE e.via = "path" -> LET q == OfElems(e.doc) IN IF q.ok THEN OfText(JoinPath(q.es)) ELSE Bad
             [] e.via = "bext" -> IF IsB64Text(e.bext) THEN OfText(e.bext) ELSE Bad
             [] e.via = "raw"  -> MakePrim(IF "code" \in DOMAIN e THEN e.code ELSE "4A", e.data)
             [] e.via = "qb2"  -> DecPrimBin(e.data)
             [] OTHER          -> DecPrim(e.data) IN
  IF ~p.ok THEN Refused(e.res) ELSE IF p.code \notin TextCodes THEN Refused(e.res) ELSE Shows(e.res, p)

Textual(a, b) == HasPrefix(a, b)
PathOpOk(e) ==
  LET a == Elements(e.a) b == Elements(e.b) r == e.res IN
  /\ r.ok
  /\ r.root.ok /\ r.root.v = JoinPath(Rooted(b, a))
  /\ r.strip.ok /\ r.strip.v = JoinPath(Stripped(b, a))
  /\ r.back.ok /\ r.back.v = e.a
  /\ r.starts.ok /\ (IsPrefixSeq(b, a) => r.starts.is) /\ (r.starts.is => Textual(e.a, e.b))
ResolveOk(e) == LET f == FollowText(e.doc, e.a) IN
                \/ Odd(e.a) /\ Refused(e.res)
                \/ IF f.ok THEN e.res.ok /\ SameDoc(e.res.doc, f.x) ELSE Refused(e.res)
TailOk(e) == LET v == TailOf(e.res.doc, Elements(e.a)) IN
             e.res.ok /\ IF v.ok THEN e.res.v.ok /\ e.res.v.v = v.v ELSE Refused(e.res.v)

Acc(e) == CASE e.op = "pather"  -> PatherOk(e)
            [] e.op = "pathop"  -> PathOpOk(e)
            [] e.op = "resolve" -> ResolveOk(e)
            [] e.op = "tail"    -> TailOk(e)
=============================================================================
