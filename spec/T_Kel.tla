-------------------------------- MODULE T_Kel -------------------------------
(***************************************************************************)
(* Recorded replays of whole logs, judged from the bytes: what each        *)
(* message says, what of it is signed and committed to, and what the key   *)
(* state becomes.  A log made from a history of MC_Kel also carries what   *)
(* that history says the reader does with each message.                    *)
(***************************************************************************)
EXTENDS KelView

(******************************* the message *******************************)
RECURSIVE TakeSigs(_, _, _)
TakeSigs(n, rest, bin) ==
  IF n = 0 THEN [ok |-> TRUE, sigs |-> <<>>, rest |-> rest] ELSE
  LET x == ElemDec("siger", IF bin THEN TextOfBin(Take(rest, 150)) ELSE Take(rest, 200)) IN   \* longer than any
  IF ~x.ok THEN Bad ELSE
  LET r == TakeSigs(n - 1, Drop(rest, IF bin THEN (x.used * 3) \div 4 ELSE x.used), bin) IN
  IF r.ok THEN [r EXCEPT !.sigs = <<x>> \o @] ELSE Bad
SigsOf(atc, bin) ==
  IF ~bin /\ ~Sd!IsUtf8(atc) THEN Bad ELSE
  LET c == IF bin THEN DecCntBin(Take(atc, 24)) ELSE DecCnt(Take(atc, 24)) IN
  IF ~c.ok THEN Bad ELSE
  IF c.code # "-A" THEN Bad ELSE
  LET r == TakeSigs(c.count, Drop(atc, IF bin THEN (c.used * 3) \div 4 ELSE c.used), bin) IN
  r
\* a message and its signatures, whatever follows them
Framed(e, bytes) ==
  LET m == Kl!FromBytes(Kl!KERI, CodeOf(e), bytes) IN
  IF ~m.ok THEN Bad ELSE
  LET s == SigsOf(Drop(bytes, Len(m.raw)), Bin(e)) IN
  IF ~s.ok THEN Bad ELSE [ok |-> TRUE, m |-> m, sigs |-> s.sigs, rest |-> s.rest]
RECURSIVE FrameAll(_, _)
FrameAll(e, bytes) ==
  IF bytes = <<>> THEN [msgs |-> <<>>, left |-> 0] ELSE
  LET f == Framed(e, bytes) IN
  IF ~f.ok THEN [msgs |-> <<>>, left |-> Len(bytes)] ELSE
  LET r == FrameAll(e, f.rest) IN [r EXCEPT !.msgs = <<SubSeq(bytes, 1, Len(bytes) - Len(f.rest))>> \o @]
\* a log comes in messages, or as one stream
Whole(e) == "stream" \in DOMAIN e
MsgsOf(e) == IF Whole(e) THEN FrameAll(e, e.stream).msgs ELSE e.msgs

\* message and signatures, before anything is verified
Read(e, msg) ==
  LET s == Framed(e, msg) IN
  IF ~s.ok THEN Bad ELSE IF s.rest # <<>> THEN Bad ELSE
  LET m == s.m IN
  LET t == Kl!StrField(m.doc, Kl!L_t) pre == Kl!StrField(m.doc, Kl!L_i) sn == Kl!SeqNum(m.doc) IN
  IF ~(t.ok /\ pre.ok /\ sn.ok) THEN Bad ELSE
  [ok |-> TRUE, m |-> m, doc |-> m.doc, sigs |-> s.sigs, t |-> t.v, pre |-> pre.v, sn |-> sn.v]
(********************* what the algorithms are asked for *******************)
SigNeeds(x, keys) ==
  Flat(Now([i \in 1..Len(x.sigs) |->
     IF x.sigs[i].index >= Len(keys) THEN <<>>
     ELSE LET p == DecPrim(keys[x.sigs[i].index + 1]) IN <<Need("verify", p.code, <<p.raw, x.sigs[i].raw, x.m.raw>>)>>]))
NeedsOf(e) ==
  LET ms == MsgsOf(e)
      xs == Now([i \in 1..Len(ms) |-> Read(e, ms[i])])
      ls == Now([i \in 1..Len(xs) |-> IF xs[i].ok THEN IF Est(xs[i]) THEN KeyLists(xs[i]) ELSE Bad ELSE Bad])
      oks == {i \in 1..Len(xs) : xs[i].ok}
      codes == UNION {{DecPrim(ls[i].digs[k]).code : k \in 1..Len(ls[i].digs)} : i \in {i \in 1..Len(ls) : ls[i].ok}}
      cs == SetToSeq(codes)
  IN Flat(Now([i \in 1..Len(xs) |->
       IF ~xs[i].ok THEN <<>> ELSE
       IF ls[i].ok
       THEN SigNeeds(xs[i], ls[i].keys) \o SaidNeed(e, xs[i]) \o PreNeed(xs[i])
            \o Flat([c \in 1..Len(cs) |-> [k \in 1..Len(ls[i].keys) |-> Need("hash", cs[c], ls[i].keys[k])]])
       ELSE IF xs[i].t = Ixn
       THEN SaidNeed(e, xs[i]) \o Flat([q \in 1..Len(ls) |-> IF ls[q].ok THEN SigNeeds(xs[i], ls[q].keys) ELSE <<>>])
       ELSE <<>>]))

(******************************** the replay *******************************)
Sigs(e, x, keys) ==
  Now([i \in 1..Len(x.sigs) |->
    LET s == x.sigs[i] IN
    [index |-> s.index, ondex |-> s.ondex, both |-> s.code \in BothLists,
     good |-> IF s.index >= Len(keys) THEN FALSE
              ELSE LET p == DecPrim(keys[s.index + 1]) IN V(e, p.code, p.raw, s.raw, x.m.raw)]])
StepOf(e, ks, msg) ==
  LET x == Read(e, msg) IN
  IF ~x.ok THEN Bad ELSE
  LET prior == Kl!StrField(x.doc, L_p) IN
  IF x.t = Kl!Icp \/ x.t = Kl!Rot
  THEN LET l_ == KeyLists(x) IN
       IF ~l_.ok THEN Bad ELSE
       IF x.t = Kl!Icp
       THEN LET own == Derived(e, x) IN
            [ok |-> TRUE, ev |-> [t |-> "icp", pre |-> x.pre, own |-> own,
                                  intact |-> IF SelfDerived(x) THEN own ELSE Intact(e, x),
                                  sn |-> x.sn, said |-> x.m.said, keys |-> l_.keys, kt |-> l_.kt, digs |-> l_.digs,
                                  nt |-> l_.nt, sigs |-> Sigs(e, x, l_.keys)]]
       ELSE IF ~prior.ok THEN Bad ELSE
            [ok |-> TRUE, ev |-> [t |-> "rot", pre |-> x.pre, intact |-> Intact(e, x), sn |-> x.sn, prior |-> prior.v,
                                  said |-> x.m.said, keys |-> l_.keys, kt |-> l_.kt, digs |-> l_.digs,
                                  nt |-> l_.nt, sigs |-> Sigs(e, x, l_.keys)]]
  ELSE IF x.t = Ixn /\ prior.ok /\ ks.has
  THEN [ok |-> TRUE, ev |-> [t |-> "ixn", pre |-> x.pre, intact |-> Intact(e, x), sn |-> x.sn, prior |-> prior.v,
                             said |-> x.m.said, sigs |-> Sigs(e, x, ks.keys)]]
  ELSE Bad

StateShown(r, ks) ==
  /\ r.pre = ks.pre /\ r.sn = Pad16(ks.sn) /\ r.said = ks.said /\ r.keys = ks.keys /\ r.digs = ks.digs
  /\ Kl!Ser(r.kt) = Kl!Ser(Kl!SithOf(ks.kt)) /\ Kl!Ser(r.nt) = Kl!Ser(Kl!SithOf(ks.nt))
RECURSIVE Replay(_, _, _, _)
Replay(e, ms, i, ks) ==
  IF i > Len(ms) THEN TRUE ELSE
  LET s == StepOf(e, ks, ms[i])
      ok == s.ok /\ Kl!Accepts_(e, ks, s.ev)
      r == e.res.steps[i] IN
  /\ "panic" \notin DOMAIN r
  /\ r.is = ok
  /\ "want" \in DOMAIN e => e.want[i] = ok
  /\ IF ok THEN LET after == Kl!After(ks, s.ev) IN StateShown(r, after) /\ Replay(e, ms, i + 1, after)
     ELSE Replay(e, ms, i + 1, ks)
Acc(e) ==
  /\ e.res.ok
  /\ IF Whole(e)
     THEN LET f == FrameAll(e, e.stream) IN
          /\ e.res.left = f.left /\ Len(e.res.steps) = Len(f.msgs)
          /\ "want" \in DOMAIN e => Len(e.want) = Len(f.msgs) /\ f.left = 0
          /\ Replay(e, f.msgs, 1, Kl!NoState)
     ELSE Len(e.res.steps) = Len(e.msgs) /\ Replay(e, e.msgs, 1, Kl!NoState)
=============================================================================
