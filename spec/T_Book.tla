------------------------------- MODULE T_Book -------------------------------
(***************************************************************************)
(* Recorded replays of many logs with their witnesses, delegations,        *)
(* registries and credentials, judged from the bytes by Book.  Replays     *)
(* made from a history of MC_Book also carry what that history says.       *)
(***************************************************************************)
EXTENDS KelView

Bk == INSTANCE Book WITH Commits <- CommitsTo
L_br == <<98,114>>  L_ba == <<98,97>>  L_bt == <<98,116>>  L_di == <<100,105>>  L_ii == <<105,105>>
Vcp_ == <<118,99,112>>  Iss == <<105,115,115>>  Rev == <<114,101,118>>
Name(t) == CASE t = Kl!Icp -> "icp" [] t = Kl!Rot -> "rot" [] t = Ixn -> "ixn" [] t = Kl!Dip -> "dip" [] t = Kl!Drt -> "drt"
             [] t = Vcp_ -> "vcp" [] t = Iss -> "iss" [] t = Rev -> "rev" [] OTHER -> ""
EstNames == {"icp", "rot", "dip", "drt"}

(******************************* the message *******************************)
Groups == [g \in {"-A", "-B", "-C", "-G"} |->
             CASE g \in {"-A", "-B"} -> <<"siger">> [] g = "-C" -> <<"verfer", "cigar">> [] OTHER -> <<"seqner", "saider">>]
FrontOf(kind, rest, bin) == ElemDec(kind, IF bin THEN TextOfBin(Take(rest, 150)) ELSE Take(rest, 200))
Past(x, rest, bin) == Drop(rest, IF bin THEN (x.used * 3) \div 4 ELSE x.used)
RECURSIVE TakeGroup(_, _, _, _)
TakeGroup(plan, n, rest, bin) == \* n times the elements of the plan; got: what was read, in order
  IF n = 0 THEN [ok |-> TRUE, got |-> <<>>, rest |-> rest] ELSE
  LET x == FrontOf(plan[1], rest, bin) IN
  IF ~x.ok THEN Bad ELSE
  IF Len(plan) = 1
  THEN LET r == TakeGroup(plan, n - 1, Past(x, rest, bin), bin) IN
       IF r.ok THEN [r EXCEPT !.got = <<<<x>>>> \o @] ELSE Bad
  ELSE LET y == FrontOf(plan[2], Past(x, rest, bin), bin) IN
       IF ~y.ok THEN Bad ELSE
       LET r == TakeGroup(plan, n - 1, Past(y, Past(x, rest, bin), bin), bin) IN
       IF r.ok THEN [r EXCEPT !.got = <<<<x, y>>>> \o @] ELSE Bad
RECURSIVE TakeAll(_, _)
TakeAll(rest, bin) ==
  IF rest = <<>> THEN [ok |-> TRUE, groups |-> <<>>] ELSE
  LET c == IF bin THEN DecCntBin(Take(rest, 24)) ELSE DecCnt(Take(rest, 24)) IN
  IF ~c.ok THEN Bad ELSE
  IF c.code \notin DOMAIN Groups THEN Bad ELSE
  LET g == TakeGroup(Groups[c.code], c.count, Past(c, rest, bin), bin) IN
  IF ~g.ok THEN Bad ELSE
  LET r == TakeAll(g.rest, bin) IN
  IF r.ok THEN [r EXCEPT !.groups = <<[code |-> c.code, got |-> g.got]>> \o @] ELSE Bad
Attached(atc, bin) == IF ~bin /\ ~Sd!IsUtf8(atc) THEN Bad ELSE TakeAll(atc, bin)
OfGroup(x, code) == Flat(Now([i \in 1..Len(x.groups) |-> IF x.groups[i].code = code THEN x.groups[i].got ELSE <<>>]))

Text(p) == Kl!PrimText(p)
Listed(doc, label) == IF ~Kl!Has(doc, label) THEN Kl!Yes(<<>>) ELSE IF ~Kl!IsArr(Kl!Fld(doc, label)) THEN Bad
                      ELSE Kl!Members(Kl!Fld(doc, label), KeyCodes)
NumText(doc, label) == LET s == Kl!StrField(doc, label) IN IF s.ok THEN Kl!NumOfHex(s.v) ELSE Bad
\* what of an event is a seal
SealsOf(doc) ==
  IF ~Kl!Has(doc, Kl!L_a) THEN <<>> ELSE IF ~Kl!IsArr(Kl!Fld(doc, Kl!L_a)) THEN <<>> ELSE
  LET xs == SelectSeq(Kl!Fld(doc, Kl!L_a).v,
                      LAMBDA x : Kl!StrIs(x, Kl!L_i) /\ Kl!StrIs(x, Kl!L_s) /\ Kl!StrIs(x, Kl!L_d)) IN
  Now([k \in 1..Len(xs) |-> [i |-> Kl!Fld(xs[k], Kl!L_i).v, s |-> Kl!Fld(xs[k], Kl!L_s).v, d |-> Kl!Fld(xs[k], Kl!L_d).v]])

Event(e, m, atc) ==
  LET s == Attached(atc, Bin(e)) IN
  IF ~s.ok THEN Bad ELSE
  LET t == Kl!StrField(m.doc, Kl!L_t) pre == Kl!StrField(m.doc, Kl!L_i) sn == Kl!SeqNum(m.doc) IN
  IF ~(t.ok /\ pre.ok /\ sn.ok) THEN Bad ELSE
  IF Name(t.v) = "" THEN Bad ELSE
  [ok |-> TRUE, m |-> m, doc |-> m.doc, groups |-> s.groups, t |-> Name(t.v), pre |-> pre.v, sn |-> sn.v,
   sigs |-> Flat(OfGroup(s, "-A"))]
Section(doc, label) == IF Kl!Has(doc, label) THEN Kl!Fld(doc, label) ELSE Kl!JObj(<<>>, <<>>)
Cred(m) ==
  LET doc == m.doc
      i == Kl!StrField(doc, Kl!L_i) s == Kl!StrField(doc, Kl!L_s) ri == Kl!StrField(doc, Kl!L_ri)
      a == Section(doc, Kl!L_a) ed == Section(doc, Kl!L_e) IN
  IF ~(i.ok /\ s.ok /\ ri.ok /\ Kl!IsObj(ed)) THEN Bad ELSE
  LET at == SelectSeq([k \in 1..Len(ed.k) |-> k], LAMBDA k : ed.k[k] # Kl!L_d) IN
  IF \E q \in 1..Len(at) : ~Kl!StrIs(ed.v[at[q]], Kl!L_n) THEN Bad ELSE
  [ok |-> TRUE, m |-> m, doc |-> doc, t |-> "acdc", issuer |-> i.v, schema |-> s.v, ri |-> ri.v, a |-> a, e |-> ed,
   subject |-> IF Kl!StrIs(a, Kl!L_i) THEN Kl!Fld(a, Kl!L_i).v ELSE <<>>,
   edges |-> Now([q \in 1..Len(at) |-> Kl!Fld(ed.v[at[q]], Kl!L_n).v])]
Read(e, msg) ==
  LET m == Kl!FromBytes(Kl!KERI, CodeOf(e), msg) IN
  IF m.ok THEN Event(e, m, Drop(msg, Len(m.raw))) ELSE
  LET c == Kl!FromBytes(Kl!ACDC, CodeOf(e), msg) IN
  IF ~c.ok THEN Bad ELSE IF Len(c.raw) # Len(msg) THEN Bad ELSE Cred(c)

(********************* what the algorithms are asked for *******************)
\* an identifier of a part, if it has one
PartPre(x) == IF ~Kl!IsObj(x) THEN Bad ELSE IF ~Kl!StrIs(x, Kl!L_d) THEN Bad ELSE
              LET p == DecPrim(Kl!Fld(x, Kl!L_d).v) IN
              IF ~p.ok THEN Bad ELSE IF p.code \notin DigestCodes THEN Bad ELSE
              LET q == Sd!Preimage(x, Kl!L_d, p.code, <<>>, {}) IN
              IF q.ok THEN [ok |-> TRUE, p |-> p, pre |-> q.pre] ELSE Bad
PartNeed(x) == LET q == PartPre(x) IN IF q.ok THEN <<Need("hash", q.p.code, q.pre)>> ELSE <<>>
SigNeeds(x, sigs, keys) ==
  Flat(Now([i \in 1..Len(sigs) |->
     IF sigs[i].index >= Len(keys) THEN <<>>
     ELSE LET p == DecPrim(keys[sigs[i].index + 1]) IN <<Need("verify", p.code, <<p.raw, sigs[i].raw, x.m.raw>>)>>]))
NeedsOf(e) ==
  LET xs == Now([i \in 1..Len(e.msgs) |-> Read(e, e.msgs[i])])
      oks == {i \in 1..Len(xs) : xs[i].ok}
      est == {i \in oks : xs[i].t \in EstNames}
      ls == Now([i \in 1..Len(xs) |-> IF i \in est THEN KeyLists(xs[i]) ELSE Bad])
      keyed == {i \in est : ls[i].ok}
      cs == SetToSeq(UNION {{DecPrim(ls[i].digs[k]).code : k \in 1..Len(ls[i].digs)} : i \in keyed})
      names(i, l_) == LET w == Listed(xs[i].doc, l_) IN IF w.ok THEN {w.v[k] : k \in 1..Len(w.v)} ELSE {}
      ws == SetToSeq(UNION {names(i, Kl!L_b) \cup names(i, L_ba) : i \in est})
      wit(x) == LET b == Flat(OfGroup(x, "-B")) c == OfGroup(x, "-C") IN
                Flat([q \in 1..Len(b) |-> [k \in 1..Len(ws) |->
                        LET p == DecPrim(ws[k]) IN Need("verify", p.code, <<p.raw, b[q].raw, x.m.raw>>)]])
                \o [q \in 1..Len(c) |-> Need("verify", c[q][1].code, <<c[q][1].raw, c[q][2].raw, x.m.raw>>)]
  IN Flat(Now([i \in 1..Len(xs) |->
       IF ~xs[i].ok THEN <<>> ELSE
       IF xs[i].t = "acdc" THEN SaidNeed(e, xs[i]) \o PartNeed(xs[i].a) \o PartNeed(xs[i].e) ELSE
       IF i \in keyed
       THEN SigNeeds(xs[i], xs[i].sigs, ls[i].keys) \o SaidNeed(e, xs[i]) \o PreNeed(xs[i]) \o wit(xs[i])
            \o Flat([c \in 1..Len(cs) |-> [k \in 1..Len(ls[i].keys) |-> Need("hash", cs[c], ls[i].keys[k])]])
       ELSE IF xs[i].t = "ixn"
       THEN SaidNeed(e, xs[i]) \o wit(xs[i])
            \o Flat([q \in 1..Len(ls) |-> IF q \in keyed THEN SigNeeds(xs[i], xs[i].sigs, ls[q].keys) ELSE <<>>])
       ELSE SaidNeed(e, xs[i]) \o PreNeed(xs[i])]))

(******************************** the replay *******************************)
Sigs(e, x, keys) ==
  Now([i \in 1..Len(x.sigs) |->
    LET s == x.sigs[i] IN
    [index |-> s.index, ondex |-> s.ondex, both |-> s.code \in BothLists,
     good |-> IF s.index >= Len(keys) THEN FALSE
              ELSE LET p == DecPrim(keys[s.index + 1]) IN V(e, p.code, p.raw, s.raw, x.m.raw)]])
WSigs(e, x, wits) ==
  LET b == Flat(OfGroup(x, "-B")) c == OfGroup(x, "-C")
      at(t) == IF \E k \in 1..Len(wits) : wits[k] = t THEN (CHOOSE k \in 1..Len(wits) : wits[k] = t) - 1 ELSE Len(wits) IN
  Now([q \in 1..Len(b) |->
     [who |-> b[q].index,
      good |-> IF b[q].index >= Len(wits) THEN FALSE
               ELSE LET p == DecPrim(wits[b[q].index + 1]) IN V(e, p.code, p.raw, b[q].raw, x.m.raw)]])
  \o Now([q \in 1..Len(c) |->
     LET w == at(Text(c[q][1])) IN
     [who |-> w, good |-> IF w >= Len(wits) THEN FALSE ELSE V(e, c[q][1].code, c[q][1].raw, c[q][2].raw, x.m.raw)]])
Sources(x) == LET g == OfGroup(x, "-G") IN
              Now([q \in 1..Len(g) |-> [sn |-> Strip(g[q][1].raw), said |-> Text(g[q][2])]])
Part(e, x) == \* a part without an identifier, or with its own
  IF ~Kl!IsObj(x) THEN TRUE ELSE IF ~Kl!Has(x, Kl!L_d) THEN TRUE ELSE
  LET q == PartPre(x) IN
  IF ~q.ok THEN FALSE ELSE Sd!Verifies(e, Text(q.p), x, Kl!L_d, <<>>, {}, TRUE, FALSE)

Common(x) == [t |-> x.t, pre |-> x.pre, sn |-> x.sn, snt |-> Kl!Fld(x.doc, Kl!L_s).v, said |-> x.m.said, seals |-> SealsOf(x.doc),
              sources |-> Sources(x)]
NoKeys == [keys |-> <<>>, digs |-> <<>>, wits |-> <<>>, cuts |-> <<>>, adds |-> <<>>, toad |-> <<>>, di |-> <<>>]
KeyEvent(e, bk, x) ==
  LET ks == Bk!KelOf(bk, x.pre) prior == Kl!StrField(x.doc, L_p) first == x.t \in {"icp", "dip"} IN
  IF ~first /\ ~(ks.has /\ prior.ok) THEN Bad ELSE
  LET ev == IF x.t = "ixn"
            THEN [ok |-> TRUE, ev |-> Common(x) @@ [intact |-> Intact(e, x), prior |-> prior.v, sigs |-> Sigs(e, x, ks.keys)] @@ NoKeys]
            ELSE LET l_ == KeyLists(x) toad == NumText(x.doc, L_bt)
                     w == IF first THEN Kl!Witnesses(x.doc) ELSE Kl!Yes(<<>>)
                     br == IF first THEN Kl!Yes(<<>>) ELSE Listed(x.doc, L_br)
                     ba == IF first THEN Kl!Yes(<<>>) ELSE Listed(x.doc, L_ba)
                     di == IF x.t = "dip" THEN Kl!StrField(x.doc, L_di) ELSE Kl!Yes(<<>>) IN
                 IF ~(l_.ok /\ toad.ok /\ w.ok /\ br.ok /\ ba.ok /\ di.ok) THEN Bad ELSE
                 LET own == first /\ Derived(e, x) IN
                 [ok |-> TRUE, ev |-> Common(x) @@
                    [own |-> own, intact |-> IF first /\ SelfDerived(x) THEN own ELSE Intact(e, x),
                     prior |-> IF first THEN <<>> ELSE prior.v, keys |-> l_.keys, kt |-> l_.kt, digs |-> l_.digs, nt |-> l_.nt,
                     sigs |-> Sigs(e, x, l_.keys), wits |-> w.v, cuts |-> br.v, adds |-> ba.v, toad |-> toad.v, di |-> di.v]] IN
  IF ~ev.ok THEN Bad ELSE
  [ok |-> TRUE, ev |-> ev.ev @@ [wsigs |-> WSigs(e, x, Bk!WitsAfter(ks, ev.ev).v)]]
RegEvent(e, x) ==
  IF x.t = "vcp"
  THEN LET ii == Kl!StrField(x.doc, L_ii) p == DecPrim(x.pre) IN
       IF ~(ii.ok /\ p.ok) THEN Bad ELSE
       [ok |-> TRUE, ev |-> Common(x) @@ [ii |-> ii.v, own |-> p.code \in DigestCodes /\ Derived(e, x)]]
  ELSE LET ri == Kl!StrField(x.doc, Kl!L_ri) prior == Kl!StrField(x.doc, L_p) IN
       IF ~ri.ok \/ (x.t = "rev" /\ ~prior.ok) THEN Bad ELSE
       [ok |-> TRUE, ev |-> Common(x) @@ [ri |-> ri.v, intact |-> Intact(e, x), prior |-> IF x.t = "rev" THEN prior.v ELSE <<>>]]
CredEvent(e, x) ==
  [ok |-> TRUE, ev |-> [t |-> "acdc", said |-> x.m.said, intact |-> Intact(e, x) /\ Part(e, x.a) /\ Part(e, x.e),
                        issuer |-> x.issuer, subject |-> x.subject, ri |-> x.ri, edges |-> x.edges]]
StepOf(e, bk, msg) ==
  LET x == Read(e, msg) IN
  IF ~x.ok THEN Bad ELSE
  IF x.t = "acdc" THEN [CredEvent(e, x) EXCEPT !.ok = TRUE] ELSE
  IF x.t \in Bk!KeyTypes THEN KeyEvent(e, bk, x) ELSE RegEvent(e, x)

KeyShown(r, ks) ==
  /\ r.pre = ks.pre /\ r.sn = Pad16(ks.sn) /\ r.said = ks.said /\ r.keys = ks.keys /\ r.digs = ks.digs
  /\ Kl!Ser(r.kt) = Kl!Ser(Kl!SithOf(ks.kt)) /\ Kl!Ser(r.nt) = Kl!Ser(Kl!SithOf(ks.nt))
  /\ r.wits = ks.wits /\ r.toad = Pad16(ks.toad) /\ r.del = IF ks.del = <<>> THEN <<>> ELSE ks.del[1]
Shown(e, msg, r, ev, bk) ==
  CASE ev.t \in Bk!KeyTypes -> KeyShown(r, bk.kels[ev.pre])
    [] ev.t = "vcp" -> r.reg = ev.pre /\ r.by = ev.ii
    [] ev.t \in {"iss", "rev"} -> r.reg = ev.ri /\ r.cred = ev.pre /\ r.rev = (ev.t = "rev")
    [] OTHER -> LET x == Read(e, msg) IN
                /\ r.cred = ev.said /\ r.issuer = ev.issuer /\ r.subject = ev.subject /\ r.reg = ev.ri /\ r.edges = ev.edges
                /\ r.schema = x.schema
                /\ IF Kl!Has(x.doc, Kl!L_a) THEN Kl!Ser(r.attrs) = Kl!Ser(x.a) ELSE r.attrs.t = "n"
StandingShown(r, bk) == {r.stands[k] : k \in 1..Len(r.stands)} = Bk!Standing(bk)
RECURSIVE Replay(_, _, _)
Replay(e, i, bk) ==
  IF i > Len(e.msgs) THEN TRUE ELSE
  LET s == StepOf(e, bk, e.msgs[i])
      ok == s.ok /\ Bk!Takes(e, bk, s.ev)
      r == e.res.steps[i]
      after == IF ok THEN Bk!Turned(bk, s.ev) ELSE bk IN
  /\ "panic" \notin DOMAIN r
  /\ r.is = ok
  /\ "want" \in DOMAIN e => e.want[i] = ok
  /\ ok => Shown(e, e.msgs[i], r, s.ev, after)
  /\ StandingShown(r, after)
  /\ Replay(e, i + 1, after)
Acc(e) == e.res.ok /\ Len(e.res.steps) = Len(e.msgs) /\ Replay(e, 1, Bk!NoBook)
=============================================================================
