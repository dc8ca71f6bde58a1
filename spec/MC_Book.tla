------------------------------- MODULE MC_Book ------------------------------
(***************************************************************************)
(* Two honest controllers, one of them perhaps delegated by the other, a   *)
(* thief with an identifier of its own, and a reader who follows Book.     *)
(* The honest seal what they made themselves and the delegations they      *)
(* grant; the thief makes and seals anything that its own keys can sign,   *)
(* names any source, and alters what it passes on.                         *)
(*                                                                         *)
(* An event's digest is its place in the list of all events made; keys are *)
(* <<party, generation>>, witnesses <<9, number>>.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxOffers, MaxMade, Witnesses, Recording,
          Active,      \* the parties that do anything
          Under_       \* start with identifiers and a registry under way
SameKey(env, d, k) == d = k
B == INSTANCE Book WITH Commits <- SameKey

Honest == {1, 2}
Thief == 3
Parties == {1, 2, 3}
Num(n) == [ok |-> TRUE, w |-> FALSE, n |-> IF n = 0 THEN <<>> ELSE <<n>>]
Byte(n) == IF n = 0 THEN <<>> ELSE <<n>>
Wit(k) == <<9, k>>

VARIABLES bk,       \* the reader's book
          made,     \* all events and credentials made, without signatures; place = digest
          gen,      \* party -> generation of its keys in force
          id,       \* party -> its identifier, 0: none
          offers,
          hist
vars == <<bk, made, gen, id, offers, hist>>

Pick(S) == IF Recording THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
\* mostly the first, now and then any
Most(x, S) == IF Recording THEN (IF RandomElement(1..4) = 1 THEN {RandomElement(S \cup {x})} ELSE {x}) ELSE S \cup {x}
Nothing == /\ bk = B!NoBook /\ made = <<>> /\ gen = [p \in Parties |-> 0] /\ id = [p \in Parties |-> 0]
        /\ offers = 0 /\ hist = <<>>

New == Len(made) + 1
Ks(p) == B!KelOf(bk, id[p])
Has(p) == Ks(p).has

(******************************** offering *********************************)
\* what the reader sees of an offer: signatures are good if the listed key, or witness, made them over this event
Seen(ev) ==
  IF ev.t \notin B!KeyTypes THEN ev ELSE
  LET ks == B!KelOf(bk, ev.pre)
      first == ev.t \in {"icp", "dip"}
      keys == IF ev.t # "ixn" THEN ev.keys ELSE IF ks.has THEN ks.keys ELSE <<>>
      wits == IF first \/ ks.has THEN B!WitsAfter(ks, ev).v ELSE <<>> IN
  [ev EXCEPT
     !.sigs = [i \in 1..Len(ev.sigs) |->
       [index |-> ev.sigs[i].index, ondex |-> ev.sigs[i].ondex, both |-> ev.sigs[i].both,
        good |-> /\ ev.sigs[i].over = ev.said /\ ev.sigs[i].index < Len(keys)
                 /\ keys[ev.sigs[i].index + 1] = ev.sigs[i].key]],
     !.wsigs = [i \in 1..Len(ev.wsigs) |->
       [who |-> ev.wsigs[i].who,
        good |-> /\ ev.wsigs[i].over = ev.said /\ ev.wsigs[i].who < Len(wits)
                 /\ wits[ev.wsigs[i].who + 1] = ev.wsigs[i].wit]]]
Offer(ev) ==
  LET seen == Seen(ev) ok == B!Takes(0, bk, seen) IN
  /\ offers < MaxOffers
  /\ bk' = IF ok THEN B!Turned(bk, seen) ELSE bk
  /\ offers' = IF Recording \/ ok THEN offers + 1 ELSE offers
  /\ hist' = IF Recording THEN Append(hist, [ev |-> ev, ok |-> ok]) ELSE hist
  /\ gen' = IF ok /\ ev.t \in {"rot", "drt"} THEN [gen EXCEPT ![ev.by] = @ + 1] ELSE gen

\* where a log entry is
SourceOf(e) == [sn |-> e.sn, said |-> e.said]
Logs == UNION {{bk.kels[k].log[i] : i \in 1..Len(bk.kels[k].log)} : k \in DOMAIN bk.kels}
Sealers(ev) == {SourceOf(e) : e \in {e \in Logs : \E q \in 1..Len(e.seals) : e.seals[q].d = ev.said}}
Fresh(n) == \* not taken yet
  LET ev == made[n] IN
  CASE ev.t \in {"dip", "drt"} -> \A e \in Logs : e.said # n
    [] ev.t = "vcp" -> n \notin DOMAIN bk.regs
    [] ev.t = "iss" -> <<ev.ri, ev.pre>> \notin DOMAIN bk.creds
    [] ev.t = "rev" -> IF <<ev.ri, ev.pre>> \in DOMAIN bk.creds THEN ~bk.creds[<<ev.ri, ev.pre>>].rev ELSE TRUE
    [] ev.t = "acdc" -> n \notin DOMAIN bk.held
    [] OTHER -> FALSE
\* ready to be taken, as far as its seal goes
Ready(n) == Fresh(n) /\ IF made[n].t = "acdc"
                        THEN /\ B!Issued(bk, made[n].ri, n)
                             /\ \A k \in 1..Len(made[n].edges) : B!Stands(bk, made[n].edges[k])
                        ELSE /\ Sealers(made[n]) # {}
                             /\ made[n].t \in {"iss", "rev"} => made[n].ri \in DOMAIN bk.regs
                             /\ made[n].t = "drt" => B!KelOf(bk, made[n].pre).has /\ B!KelOf(bk, made[n].pre).said = made[n].prior
\* which sources an offer names
SourceChoices(ev) ==
  LET right == Sealers(ev)
      lists == {<<>>} \cup {<<s>> : s \in right} \cup
               (IF Recording /\ Logs # {} THEN LET o == SourceOf(RandomElement(Logs)) IN {<<o>>, <<[o EXCEPT !.sn = Byte(7)]>>}
                   \cup {<<o, s>> : s \in right} ELSE {}) IN
  IF right = {} THEN Most(<<>>, lists) ELSE Most(<<CHOOSE s \in right : TRUE>>, lists)

(******************************* key events ********************************)
WitLists == IF Witnesses = 0 THEN {<<>>} ELSE
            {<<>>, <<Wit(1)>>, <<Wit(1), Wit(2)>>, <<Wit(1), Wit(2), Wit(3)>>, <<Wit(3), Wit(1)>>, <<Wit(2), Wit(2)>>,
             <<Wit(4), Wit(3), Wit(2), Wit(1)>>}
\* witnesses to drop and to add
Changes(ws) == LET here == {ws[i] : i \in 1..Len(ws)} all == IF Witnesses = 0 THEN {} ELSE {Wit(k) : k \in 1..Witnesses} IN
               {<<<<>>, <<>>>>} \cup {<<<<>>, <<w, w>>>> : w \in all} \cup {<<<<w>>, <<>>>> : w \in all} \cup {<<<<>>, <<w>>>> : w \in all}
               \cup {<<<<w>>, <<v>>>> : w \in here, v \in all}
               \cup (IF Len(ws) > 1 THEN {<<<<ws[2], ws[1]>>, <<>>>>, <<<<ws[1], ws[1]>>, <<>>>>} ELSE {})
Toads(n) == IF Recording /\ RandomElement(1..8) = 1 THEN {0, n + 1} ELSE IF n = 0 THEN {0} ELSE {1, n, (n \div 2) + 1}
\* who of the witnesses signs, and how it is told: as an indexed signature or with the witness's key
AllSign(ws, n) == [i \in 1..Len(ws) |-> [who |-> i - 1, wit |-> ws[i], over |-> n, couple |-> FALSE]]
WSigChoices(ws, n) ==
  IF Len(ws) = 0 THEN {<<>>} ELSE
  LET all == AllSign(ws, n) some(k) == SubSeq(all, 1, k) IN
  {some(k) : k \in 0..Len(ws)} \cup {[i \in 1..Len(ws) |-> [all[i] EXCEPT !.couple = i % 2 = 0]]}
  \cup {<<[all[1] EXCEPT !.wit = Wit(5)]>>,                                            \* not a witness
        [i \in 1..Len(ws) |-> all[1]],                                                  \* one witness, again and again
        <<all[1], [all[1] EXCEPT !.couple = TRUE]>>,
        [i \in 1..Len(ws) |-> [all[i] EXCEPT !.over = 0]],                              \* over something else
        [i \in 1..Len(ws) |-> [all[i] EXCEPT !.wit = ws[(i % Len(ws)) + 1]]],           \* out of their places
        [i \in 1..Len(ws) |-> [all[i] EXCEPT !.couple = TRUE]]}
SignedBy(p, g, n) == <<[index |-> 0, ondex |-> 0, both |-> TRUE, over |-> n, key |-> <<p, g>>]>>

Made_(ev, sources, sigs, wsigs) == ev @@ [sources |-> sources, sigs |-> sigs, wsigs |-> wsigs]
KeyEv(p, t, pre, sn, prior, g, wits, cuts, adds, toad, seals, di) ==
  [t |-> t, pre |-> pre, sn |-> sn, snt |-> sn, prior |-> prior, said |-> New, own |-> TRUE, intact |-> TRUE, by |-> p,
   keys |-> IF t = "ixn" THEN <<>> ELSE <<<<p, g>>>>, kt |-> Num(1),
   digs |-> IF t = "ixn" THEN <<>> ELSE <<<<p, g + 1>>>>, nt |-> Num(1),
   wits |-> wits, cuts |-> cuts, adds |-> adds, toad |-> Byte(toad), seals |-> seals, di |-> di]
MakeOnly(ev) == made' = Append(made, ev)

\* what a party is ready to seal: its own registry events, and the delegations it grants
Wants(p) ==
  {n \in 1..Len(made) :
     LET ev == made[n] IN
     /\ ev.t \in {"dip", "drt", "vcp", "iss", "rev"}
     /\ p \in Honest => CASE ev.t = "dip" -> ev.by \in Honest /\ ev.di = id[p]
                          [] ev.t = "drt" -> ev.by \in Honest /\ Ks(ev.by).has /\ Ks(ev.by).del = <<id[p]>>
                          [] OTHER -> ev.by = p
     /\ \A e \in Logs : \A q \in 1..Len(e.seals) : p \in Honest => e.seals[q].d # n}
SealOf(n) == [i |-> made[n].pre, s |-> made[n].snt, d |-> n]
Skewed(s) == {s, [s EXCEPT !.s = B!SnNext(@)], [s EXCEPT !.i = 0]}
SealChoices(p) ==
  LET w == Wants(p) IN
  IF w = {} THEN {<<>>} ELSE
  LET any == CHOOSE x \in Pick(w) : TRUE IN
  LET one_ == <<SealOf(any)>>
      odd == IF p = Thief \/ Recording THEN {<<x>> : x \in Skewed(SealOf(any))} ELSE {}
      all == LET q == SelectSeq([i \in 1..Len(made) |-> i], LAMBDA i : i \in w) IN [i \in 1..Len(q) |-> SealOf(q[i])] IN
  IF Recording THEN Most(all, odd \cup {one_, <<>>}) ELSE {<<>>} \cup {<<SealOf(n)>> : n \in w} \cup odd

Incept(p) ==
  /\ id[p] = 0 /\ Len(made) < MaxMade
  /\ \E ws \in (IF Recording THEN {RandomElement({<<>>, <<Wit(1)>>, RandomElement(WitLists)})} ELSE WitLists) : \E toad \in Pick(Toads(Len(ws))), wsig \in Most(AllSign(ws, New), WSigChoices(ws, New)) :
     LET ev == KeyEv(p, "icp", New, <<>>, 0, 0, ws, <<>>, <<>>, toad, <<>>, 0) IN
     /\ Offer(Made_(ev, <<>>, SignedBy(p, 0, New), wsig))
     /\ MakeOnly(ev)
     /\ id' = IF bk' # bk THEN [id EXCEPT ![p] = New] ELSE id
Delegate(p) == \* made and left to be sealed
  /\ id[p] = 0 /\ Len(made) < MaxMade
  /\ \E q \in Pick({q \in Parties \ {p} : Has(q)}) : \E ws \in Pick(WitLists) : \E toad \in Pick(Toads(Len(ws))) :
     /\ MakeOnly(KeyEv(p, "dip", New, <<>>, 0, 0, ws, <<>>, <<>>, toad, <<>>, id[q]))
     /\ id' = [id EXCEPT ![p] = New]
     /\ UNCHANGED <<bk, gen, offers, hist>>
Rotate(p) ==
  /\ Has(p) /\ Len(made) < MaxMade
  /\ ~Recording \/ RandomElement(1..6) = 1 \/ (Ks(p).del # <<>> /\ RandomElement(1..2) = 1)
  /\ LET ks == Ks(p) IN
     \E ch \in Most(<<<<>>, <<>>>>, Changes(ks.wits)), seals \in SealChoices(p),
        t \in Most(IF ks.del = <<>> THEN "rot" ELSE "drt", {"rot", "drt"}) :
     LET ev0 == KeyEv(p, t, ks.pre, B!SnNext(ks.sn), ks.said, gen[p] + 1, <<>>, ch[1], ch[2], 0, seals, 0)
         ws == B!WitsAfter(ks, ev0).v IN
     \E toad \in Pick(Toads(Len(ws))) :
     LET ev == [ev0 EXCEPT !.toad = Byte(toad)] IN
     /\ MakeOnly(ev)
     /\ IF t = "drt" /\ ks.del # <<>> THEN UNCHANGED <<bk, gen, offers, hist>>
        ELSE \E wsig \in Most(AllSign(ws, New), WSigChoices(ws, New)) : Offer(Made_(ev, <<>>, SignedBy(p, gen[p] + 1, New), wsig))
  /\ UNCHANGED id
Interact(p) ==
  /\ Has(p) /\ Len(made) < MaxMade
  /\ ~Recording \/ RandomElement(1..3) = 1 \/ ~\E n \in 1..Len(made) : made[n].t = "drt" /\ made[n].by = p /\ made[n].prior = Ks(p).said /\ Fresh(n)
  /\ \E seals \in SealChoices(p), wsig \in Most(AllSign(Ks(p).wits, New), WSigChoices(Ks(p).wits, New)),
        sg \in Most(SignedBy(p, gen[p], New), {<<>>, SignedBy(p, gen[p], 0), SignedBy(Thief, 0, New)}) :
     /\ seals # <<>> \/ (Recording /\ RandomElement(1..8) = 1)
     /\ LET ev == KeyEv(p, "ixn", id[p], B!SnNext(Ks(p).sn), Ks(p).said, gen[p], <<>>, <<>>, <<>>, 0, seals, 0) IN
        /\ MakeOnly(ev)
        /\ Offer(Made_(ev, <<>>, sg, wsig))
  /\ UNCHANGED id

(*********************** registries and credentials ************************)
Ids == {id[p] : p \in Parties} \ {0}
Regs == {n \in 1..Len(made) : made[n].t = "vcp"}
RegEv(p, t, pre, sn, prior, ri, ii) ==
  [t |-> t, by |-> p, pre |-> pre, sn |-> sn, snt |-> sn, prior |-> prior, said |-> New, own |-> TRUE, intact |-> TRUE, ri |-> ri, ii |-> ii]
Registry(p) ==
  /\ Has(p) /\ Len(made) < MaxMade
  /\ ~Recording \/ RandomElement(1..4) = 1 \/ ~\E r \in 1..Len(made) : made[r].t = "vcp" /\ made[r].by = p
  /\ \E ii \in (IF p = Thief THEN Pick(Ids) ELSE {id[p]}) : MakeOnly(RegEv(p, "vcp", New, <<>>, 0, New, ii))
  /\ UNCHANGED <<bk, gen, id, offers, hist>>
RunBy(p) == {r \in Regs : made[r].by = p /\ (~Recording \/ r \in DOMAIN bk.regs \/ RandomElement(1..6) = 1)}
\* a credential and the event that issues it
Issue(p) ==
  /\ Has(p) /\ Len(made) + 1 < MaxMade
  /\ \E ri \in (IF p = Thief THEN Pick(Regs) ELSE Pick(RunBy(p))), subject \in Pick(Ids),
        iss \in (IF p = Thief THEN Pick(Ids) ELSE {id[p]}) :
     LET chain == {h \in DOMAIN bk.held : bk.held[h].subject = iss}
         own(S) == {<<h>> : h \in S}
         two == {<<h, g>> : h \in chain, g \in DOMAIN bk.held} IN
     \E edges \in (IF Recording THEN Most(IF chain = {} THEN <<>> ELSE <<RandomElement(chain)>>, {<<>>} \cup own(DOMAIN bk.held) \cup two \cup {<<1>>})
                   ELSE {<<>>} \cup own(DOMAIN bk.held)) :
     \E parts \in (IF Recording /\ RandomElement(1..8) = 1 THEN {FALSE} ELSE {TRUE}) :
     made' = made \o <<[t |-> "acdc", by |-> p, said |-> New, intact |-> TRUE, parts |-> parts, issuer |-> iss, subject |-> subject, ri |-> ri, edges |-> edges],
                       [RegEv(p, "iss", New, <<>>, 0, ri, 0) EXCEPT !.said = New + 1]>>
  /\ UNCHANGED <<bk, gen, id, offers, hist>>
Revoke(p) ==
  /\ Has(p) /\ Len(made) < MaxMade
  /\ ~Recording \/ RandomElement(1..3) = 1
  /\ \E k \in Pick(IF p = Thief THEN DOMAIN bk.creds ELSE {k \in DOMAIN bk.creds : bk.regs[k[1]] = id[p]}) :
     \E prior \in Most(bk.creds[k].said, {0}), sn \in Most(<<1>>, {<<2>>}) :
     MakeOnly(RegEv(p, "rev", k[2], sn, prior, k[1], 0))
  /\ UNCHANGED <<bk, gen, id, offers, hist>>

(***************************** passing things on ***************************)
Pass ==
  /\ made # <<>>
  /\ \E n \in (IF Recording
               THEN LET r == {n \in 1..Len(made) : Ready(n)} IN
                    IF r # {} /\ RandomElement(1..6) # 1 THEN {RandomElement(r)}
                    ELSE IF RandomElement(1..10) = 1 THEN {RandomElement(1..Len(made))} ELSE {}
               ELSE {n \in 1..Len(made) : Fresh(n)}) :
     LET ev == made[n] IN
     \E whole \in Most(TRUE, {FALSE}) :
     LET w == [ev EXCEPT !.intact = whole] IN
     IF ev.t = "acdc" THEN Offer([w EXCEPT !.intact = whole /\ ev.parts])     \* parts: each is what its identifier says
     ELSE \E src \in SourceChoices(ev) :
          IF ev.t \notin B!KeyTypes THEN Offer([w EXCEPT !.own = whole] @@ [sources |-> src])
          ELSE LET ks == B!KelOf(bk, ev.pre)
                   ws == IF ev.t \in {"icp", "dip"} THEN ev.wits ELSE IF ks.has THEN B!WitsAfter(ks, ev).v ELSE <<>>
                   g == IF ev.t = "ixn" THEN gen[ev.by] ELSE ev.keys[1][2] IN
               \E wsig \in Most(AllSign(ws, n), WSigChoices(ws, n)),
                  sg \in Most(SignedBy(ev.by, g, n), {<<>>, SignedBy(Thief, 0, n)}) :
               Offer(Made_(IF ev.t \in {"icp", "dip"} THEN [w EXCEPT !.own = whole] ELSE w, src, sg, wsig))
  /\ UNCHANGED <<made, id>>

Over == Recording /\ (offers >= MaxOffers \/ Len(made) + 1 >= MaxMade)
Finish == /\ Over /\ offers <= MaxOffers
          /\ TLCSet(1, Append(TLCGet(1), [made |-> made, h |-> hist]))
          /\ offers' = MaxOffers + 1
          /\ UNCHANGED <<bk, made, gen, id, hist>>
\* three identifiers, the first with a registry and the seal for it
InceptionOf(p) == [t |-> "icp", pre |-> p, sn |-> <<>>, snt |-> <<>>, prior |-> 0, said |-> p, own |-> TRUE, intact |-> TRUE, by |-> p,
                   keys |-> <<<<p, 0>>>>, kt |-> Num(1), digs |-> <<<<p, 1>>>>, nt |-> Num(1), wits |-> <<>>, cuts |-> <<>>, adds |-> <<>>,
                   toad |-> <<>>, seals |-> <<>>, di |-> 0, sources |-> <<>>, sigs |-> <<>>, wsigs |-> <<>>]
FirstReg == [t |-> "vcp", by |-> 1, pre |-> 4, sn |-> <<>>, snt |-> <<>>, prior |-> 0, said |-> 4, own |-> TRUE, intact |-> TRUE, ri |-> 4, ii |-> 1,
             sources |-> <<>>]
FirstSeal == [InceptionOf(1) EXCEPT !.t = "ixn", !.sn = <<1>>, !.snt = <<1>>, !.prior = 1, !.said = 5, !.keys = <<>>, !.digs = <<>>,
                                    !.seals = <<[i |-> 4, s |-> <<>>, d |-> 4]>>]
RECURSIVE AllTurned(_, _)
AllTurned(b, evs) == IF evs = <<>> THEN b ELSE AllTurned(B!Turned(b, Head(evs)), Tail(evs))
UnderWay == /\ made = <<InceptionOf(1), InceptionOf(2), InceptionOf(3), FirstReg, FirstSeal>>
            /\ bk = AllTurned(B!NoBook, <<made[1], made[2], made[3], made[5], made[4]>>)
            /\ gen = [p \in Parties |-> 0] /\ id = [p \in Parties |-> p] /\ offers = 0 /\ hist = <<>>
Init == IF Under_ THEN UnderWay ELSE Nothing
Idle == Recording /\ ~Over /\ UNCHANGED vars
\* who has been given a credential to build on
Given == {p \in Honest : Has(p) /\ \E h \in B!Standing(bk) : bk.held[h].subject = id[p]}
Who == IF Recording /\ Given # {} /\ RandomElement(1..2) = 1 THEN {RandomElement(Given)} ELSE Most(1, Parties)
Next == Finish \/ Idle \/ (~Over /\ (Pass \/ \E p \in Who \cap Active :
          Incept(p) \/ Delegate(p) \/ Rotate(p) \/ Interact(p) \/ Registry(p) \/ Issue(p) \/ Revoke(p)))
Spec == Init /\ [][Next]_vars

(******************************** guarantees *******************************)
Owner(x) == IF \E p \in Parties : id[p] = x THEN CHOOSE p \in Parties : id[p] = x ELSE 0
Belongs == \A k \in DOMAIN bk.kels : \A i \in 1..Len(bk.kels[k].log) : made[bk.kels[k].log[i].said].by = made[k].by
\* who has not made a registry, nor listed a credential in it, is not said to
RegsMeant == \A r \in DOMAIN bk.regs : Owner(bk.regs[r]) \in Honest => made[r].by = Owner(bk.regs[r])
CredsMeant == \A k \in DOMAIN bk.creds :
                LET p == Owner(bk.regs[k[1]]) IN p \in Honest => made[bk.creds[k].said].by = p
Among_(d, seals) == \E j \in 1..Len(seals) : seals[j].d = d
\* nobody is a delegate of whom has not granted it
Granted == \A k \in DOMAIN bk.kels :
             bk.kels[k].del # <<>> =>
               \A i \in 1..Len(bk.kels[k].log) :
                 LET e == bk.kels[k].log[i] IN
                 made[e.said].t \in {"dip", "drt"} =>
                   \E q \in 1..Len(bk.kels[bk.kels[k].del[1]].log) :
                     Among_(e.said, bk.kels[bk.kels[k].del[1]].log[q].seals)
NotRotatedAlone == \A k \in DOMAIN bk.kels : bk.kels[k].del # <<>> =>
                     \A i \in 1..Len(bk.kels[k].log) : made[bk.kels[k].log[i].said].t # "rot"
NoDelegateOfHonest == \A k \in DOMAIN bk.kels :
                        bk.kels[k].del # <<>> => (Owner(bk.kels[k].del[1]) \in Honest => made[k].by \in Honest)
\* a credential that stands was issued by whom it names, and so was all it is chained to
Rooted == \A s \in B!Standing(bk) :
            LET h == bk.held[s] p == Owner(h.issuer) IN
            /\ p \in Honest => made[bk.creds[<<h.ri, s>>].said].by = p
            /\ \A k \in 1..Len(h.edges) : h.edges[k] \in B!Standing(bk) /\ bk.held[h.edges[k]].subject = h.issuer
\* the witnesses in force differ, and as many can be asked for as there are, at least one if there is any
Quorum == \A k \in DOMAIN bk.kels :
            LET ws == bk.kels[k].wits toad == bk.kels[k].toad n == Cardinality({ws[i] : i \in 1..Len(ws)}) IN
            /\ n = Len(ws)
            /\ IF toad = <<>> THEN n = 0 ELSE Len(toad) = 1 /\ toad[1] \in 1..n
\* nothing is taken back: logs grow, what is revoked stays revoked
Grown(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Lasting == [][ /\ \A k \in DOMAIN bk.kels : k \in DOMAIN bk'.kels /\ Grown(bk.kels[k].log, bk'.kels[k].log) /\ bk'.kels[k].del = bk.kels[k].del
               /\ \A r \in DOMAIN bk.regs : r \in DOMAIN bk'.regs /\ bk'.regs[r] = bk.regs[r]
               /\ \A c \in DOMAIN bk.creds : c \in DOMAIN bk'.creds /\ (bk.creds[c].rev => bk'.creds[c] = bk.creds[c])
               /\ \A s \in DOMAIN bk.held : s \in DOMAIN bk'.held /\ bk'.held[s] = bk.held[s] ]_vars

ASSUME TLCSet(1, <<>>)
Written == Recording => ndJsonSerialize(IOEnv.KOUT, TLCGet(1))
=============================================================================
