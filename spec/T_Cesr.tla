------------------------------- MODULE T_Cesr -------------------------------
(***************************************************************************)
(* Recorded calls on primitives, indexed signatures and count codes,       *)
(* judged against Cesr.                                                    *)
(***************************************************************************)
EXTENDS Typed, Names, TraceBase

\* the tables of Cesr and the names agree
ASSUME /\ CodesOf("matter") = MatterCodes /\ CodesOf("indexer") = IndexCodes /\ CodesOf("counter") = CounterCodes
       /\ CodesOf("current") = CurrentOnly /\ CodesOf("both") = BothLists

Refused(r) == ~r.ok /\ r.kind = "err"

\* the observed record carries every field of the expected one, with its value
Carries(r, v) == r.ok /\ \A f \in DOMAIN v : f \in DOMAIN r /\ r[f] = v[f]

Verdict(exp, view(_), e) ==
  IF ~exp.ok THEN Refused(e.res)
  ELSE \/ Carries(e.res, view(exp))
       \* not text at all: refusing is as good as reading the primitive it begins with
       \/ "utf8" \in DOMAIN e /\ ~e.utf8 /\ Refused(e.res)

\* the verification key that material is read along with is kept as it is
WithBy(e, v) == IF "by" \in DOMAIN e THEN v @@ [by |-> e.by] ELSE v

MatterExp(e) == LET x == CASE e.via = "raw"  -> IF "code" \in DOMAIN e THEN MakePrim(e.code, e.data)
                                                ELSE IF e.cls \in DOMAIN DefaultOf THEN MakePrim(DefaultOf[e.cls], e.data)
                                                ELSE Bad
                           [] e.via = "qb2"  -> DecPrimBin(e.data)
                           [] OTHER          -> DecPrim(e.data)
                IN Admit(e.cls, x)
MatterOk(e) == LET V(x) == WithBy(e, TypedView(e.cls, x)) IN Verdict(MatterExp(e), V, e)

(* Several forms given at once: the first of raw material, text bytes, text and binary is the one    *)
(* that counts, and it alone.  A code that is not of the family may be refused even where it is not  *)
(* needed, and raw material without a code next to another form has no default to count on.          *)
GivenExp(e) == LET x == CASE "raw"   \in DOMAIN e -> IF "code" \in DOMAIN e THEN MakePrim(e.code, e.raw)
                                                     ELSE IF e.cls \in DOMAIN DefaultOf THEN MakePrim(DefaultOf[e.cls], e.raw)
                                                     ELSE Bad
                          [] "qb64b" \in DOMAIN e -> DecPrim(e.qb64b)
                          [] "qb64"  \in DOMAIN e -> DecPrim(e.qb64)
                          [] "qb2"   \in DOMAIN e -> DecPrimBin(e.qb2)
               IN Admit(e.cls, x)
GivenOk(e) == \/ Verdict(GivenExp(e), PrimView, e)
              \/ "code" \in DOMAIN e /\ e.code \notin Family[e.cls] /\ Refused(e.res)
              \/ "raw" \in DOMAIN e /\ "code" \notin DOMAIN e /\ Refused(e.res)

IndexerExp(e) == LET x == CASE e.via = "raw" -> MakeIdx(e.code, e.index, e.ondex, e.data)
                            [] e.via = "qb2" -> DecIdxBin(e.data)
                            [] OTHER         -> DecIdx(e.data)
                 IN IF x.ok /\ e.cls = "siger" /\ x.code \notin SigerCodes THEN Bad ELSE x
IndexerOk(e) == LET V(x) == WithBy(e, IdxView(x)) IN Verdict(IndexerExp(e), V, e)

\* a number of any width: leading zeros do not matter, more than five sextets fit no count code
RECURSIVE Bare(_)
Bare(s) == IF s # <<>> /\ s[1] = 0 THEN Bare(SubSeq(s, 2, Len(s))) ELSE s
CntOfText(code, s) == IF Len(s) > 5 THEN Bad ELSE MakeCnt(code, SextetsToInt(s))

CounterExp(e) == CASE e.via = "code"    -> MakeCnt(e.code, e.count)
                   [] e.via = "default" -> MakeCnt(e.code, 1)
                   [] e.via = "b64"     -> IF IsB64Text(e.count)
                                           THEN CntOfText(e.code, Bare(ToSextets(e.count))) ELSE Bad
                   [] e.via = "qb2"     -> DecCntBin(e.data)
                   [] OTHER             -> DecCnt(e.data)
CounterOk(e) == LET V(x) == CntView(x) IN Verdict(CounterExp(e), V, e)

CountB64Ok(e) == Carries(e.res, [text |-> ToText(IntToSextets(e.count,
                              IF e.len = 0 THEN CounterTab[e.code].ss ELSE e.len))])
SemVerOk(e) == IF \E i \in 1..Len(e.want) : e.want[i] > 63 THEN Refused(e.res)
               ELSE Carries(e.res, [text |-> SemVer(e.want)])

(* Material of many equal bytes, as runs: what a code can hold goes beyond what can be spelled out. *)
Run(piece, times) == [piece |-> piece, times |-> times]
Runs(seq) == SelectSeq(seq, LAMBDA x : x.times > 0)
AsRuns(head, len, runs) == [head |-> head, len |-> len, runs |-> runs]
BigExp(code, byte, count) ==
  LET ls   == (3 - (count % 3)) % 3
      size == (count + ls) \div 3
      c    == LeadVariant(code, ls, size >= 4096)
      z    == MatterTab[c]
      cs   == z.hs + z.ss
      head == Ascii(c) \o ToText(IntToSextets(size, z.ss))
      one  == <<byte, byte, byte>>
      led  == Zeros(ls) \o SubSeq(one, 1, 3 - ls)      \* the first three bytes after the code
      same == led = one
      pieces(F(_)) == IF same THEN Runs(<<Run(F(one), size)>>) ELSE Runs(<<Run(F(led), 1), Run(F(one), size - 1)>>)
      Id(x) == x
      raw  == AsRuns(<<>>, count, Runs(<<Run(<<byte>>, count)>>))
      back == [ok |-> TRUE, code |-> c, size |-> size, raw |-> raw]
  IN IF size >= 16777216 THEN Bad ELSE
     [ok |-> TRUE, code |-> c, size |-> size, raw |-> raw,
      text |-> AsRuns(head, cs + 4 * size, pieces(B64Enc)),
      bin  |-> AsRuns(B64Dec(head), (cs \div 4) * 3 + 3 * size, pieces(Id)),
      fromtext |-> back, frombin |-> back]
BigOk(e) == LET x == BigExp(e.code, e.byte, e.count) IN IF ~x.ok THEN Refused(e.res) ELSE Carries(e.res, x)

Acc(e) == CASE e.op = "matter"   -> MatterOk(e)
            [] e.op = "given"    -> GivenOk(e)
            [] e.op = "bigmatter" -> BigOk(e)
            [] e.op = "names"    -> NamesOk(e)
            [] e.op = "indexer"  -> IndexerOk(e)
            [] e.op = "counter"  -> CounterOk(e)
            [] e.op = "countb64" -> CountB64Ok(e)
            [] e.op = "semver"   -> SemVerOk(e)
=============================================================================
