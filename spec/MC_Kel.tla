------------------------------- MODULE MC_Kel -------------------------------
(***************************************************************************)
(* A controller, a thief and a reader.  The controller keeps a log: its    *)
(* keys of generation g are committed to by generation g - 1.  The thief   *)
(* hears everything, has keys of its own, may get hold of keys of the      *)
(* controller (which ones is the constant Steal), and offers the reader    *)
(* whatever it can put together.  The reader follows Kel.                  *)
(*                                                                         *)
(* Keys are <<generation, number>>, a commitment to a key is the key, and  *)
(* an event's digest is the number of the offer in which it first appeared.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Gens, KeysPer, Steal, MaxThefts, MaxSn, MaxOffers, Recording, Wild,
          Calm                                 \* draw mostly events that are in order, so that logs grow long
SameKey(env, d, k) == d = k
K == INSTANCE Kel WITH Commits <- SameKey

Own == 1900                                     \* the thief's own generation
Thief == {<<Own, i>> : i \in 1..KeysPer}
GenKeys(g) == [i \in 1..KeysPer |-> <<g, i>>]
Num(n) == [ok |-> TRUE, w |-> FALSE, n |-> IF n = 0 THEN <<>> ELSE <<n>>]
Half == [n |-> 1, d |-> 2]  One == [n |-> 1, d |-> 1]  Nil == [n |-> 0, d |-> 1]
Wtd(cls) == [ok |-> TRUE, w |-> TRUE, cl |-> cls]
\* thresholds for lists of KeysPer keys
Thresholds == {Num(1), Num(KeysPer)} \cup
              (IF KeysPer = 2 THEN {Wtd(<<<<Half, Half>>>>)} ELSE
               IF KeysPer = 3 THEN {Wtd(<<<<Half, Half, Half>>>>), Wtd(<<<<One>>, <<Half, Half>>>>), Wtd(<<<<Half, One, Nil>>>>)} ELSE {})

VARIABLES ks,        \* the reader's key state
          gen,       \* generation of the controller's keys in force
          mine,      \* the log is still the controller's own
          known,     \* keys of the controller the thief has
          thefts, offers,
          genuine,   \* the events the controller made, for the thief to repeat
          last,      \* what happened last: who, what, accepted, and what the thief could have signed
          hist       \* all offers, when Recording
vars == <<ks, gen, mine, known, thefts, offers, genuine, last, hist>>

Sig(key, ix, ox, both, over) == [key |-> key, index |-> ix, ondex |-> ox, both |-> both, over |-> over]
\* the event as the reader sees it: a signature is good if the listed key made it over this event
Seen(ev) == LET keylist == IF ev.t = "ixn" THEN IF ks.has THEN ks.keys ELSE <<>> ELSE ev.keys IN
  [ev EXCEPT !.sigs = [i \in 1..Len(ev.sigs) |->
     [index |-> ev.sigs[i].index, ondex |-> ev.sigs[i].ondex, both |-> ev.sigs[i].both,
      good |-> /\ ev.sigs[i].over = ev.said /\ ev.sigs[i].index < Len(keylist)
               /\ keylist[ev.sigs[i].index + 1] = ev.sigs[i].key]]]

Init == /\ ks = K!NoState /\ gen = 0 /\ mine = TRUE /\ known = {} /\ thefts = 0 /\ offers = 0
        /\ genuine = <<>> /\ last = [who |-> "none", ok |-> FALSE] /\ hist = <<>>

\* whether these positions of a list meet a threshold, counted without fractions
Meets(t, S) == /\ S # {}
               /\ IF ~t.w THEN t.n # <<>> /\ Cardinality(S) >= t.n[1]
                  ELSE LET Before(c) == IF c = 1 THEN 0 ELSE Len(t.cl[1])         \* at most two clauses here
                           Twice(w) == IF w.n = 0 THEN 0 ELSE IF w.d = 1 THEN 2 ELSE 1
                           Sum[X \in SUBSET (1..3), c \in 1..Len(t.cl)] ==
                             IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN Twice(t.cl[c][x]) + Sum[X \ {x}, c]
                       IN \A c \in 1..Len(t.cl) : Sum[{x \in 1..Len(t.cl[c]) : (Before(c) + x - 1) \in S}, c] >= 2
\* what the thief could do with the state before an offer
Could == IF ~ks.has THEN [next |-> FALSE, cur |-> FALSE] ELSE
         [next |-> Meets(ks.nt, {o \in 0..(Len(ks.digs) - 1) : ks.digs[o + 1] \in known \cup Thief}),
          cur  |-> Meets(ks.kt, {o \in 0..(Len(ks.keys) - 1) : ks.keys[o + 1] \in known \cup Thief})]

SnInt(b) == CASE b = <<>> -> 0 [] Len(b) = 1 -> b[1] [] OTHER -> b[1] * 256 + b[2]
Offer(who, ev, honest) ==
  LET ok == K!Accepts_(0, ks, Seen(ev)) IN
  /\ Recording => offers < MaxOffers
  /\ ks' = IF ok THEN K!After(ks, Seen(ev)) ELSE ks
  /\ mine' = (mine /\ (ok => honest))
  /\ last' = [who |-> who, t |-> ev.t, ok |-> ok, honest |-> honest, whole |-> ev.intact, had |-> Could,
              follows |-> ~ks.has \/ (ev.pre = ks.pre /\ ev.prior = ks.said /\ SnInt(ev.sn) = SnInt(ks.sn) + 1)]
  /\ hist' = IF Recording THEN Append(hist, [ev |-> ev, ok |-> ok, who |-> who]) ELSE hist
  /\ offers' = IF Recording \/ ok THEN offers + 1 ELSE offers
  /\ UNCHANGED <<known, thefts>>

New == offers + 1                              \* digest of an event first offered now
SnOf(n) == IF n = 0 THEN <<>> ELSE <<n>>
\* all choices, or one of them when a history is being drawn
Pick(S) == IF Recording THEN {RandomElement(S)} ELSE S

Rarely == ~Calm \/ RandomElement(1..6) = 1

(******************************* the controller ****************************)
\* ways to list the keys of a generation: position in the list and in the commitment may differ
Arrangements(g) ==
  LET ks0 == GenKeys(g) n == KeysPer IN
  { [list |-> ks0, at |-> [i \in 1..n |-> i]],
    [list |-> [i \in 1..n |-> ks0[n + 1 - i]], at |-> [i \in 1..n |-> n + 1 - i]],
    \* a fresh key in front of the committed ones
    [list |-> <<<<g + 500, 1>>>> \o ks0, at |-> [i \in 1..n |-> i + 1]] }
Subsets(n) == LET all == {S \in SUBSET (1..n) : S # {}} IN
              IF ~Recording THEN all ELSE IF Rarely THEN {RandomElement({1..n, RandomElement(all)})} ELSE {1..n}
SetSeq(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y
                                                           IN <<m>> \o F[T \ {m}] IN F[S]
HonestEst(t, g, a, S, kt, nt, committed) ==
  [t |-> t, pre |-> IF t = "icp" THEN New ELSE ks.pre, own |-> TRUE, intact |-> TRUE,
   sn |-> IF t = "icp" THEN <<>> ELSE K!SnNext(ks.sn), prior |-> IF t = "icp" THEN 0 ELSE ks.said, said |-> New,
   keys |-> a.list, kt |-> kt, digs |-> committed, nt |-> nt,
   sigs |-> LET q == SetSeq(S) IN
            [i \in 1..Len(q) |-> Sig(a.list[a.at[q[i]]], a.at[q[i]] - 1, q[i] - 1, TRUE, New)]]
Commitments(g) == IF g + 1 >= Gens THEN {<<>>, GenKeys(g + 1)} ELSE {GenKeys(g + 1)}
ThFor(list) == IF list = <<>> THEN {Num(0)} ELSE Thresholds

Incept == /\ ~ks.has
          /\ \E a \in Pick({x \in Arrangements(0) : Len(x.list) = KeysPer}), kt \in Pick(Thresholds), c \in Pick(Commitments(0)),
                S \in Pick(Subsets(KeysPer)) :
             \E nt \in Pick(ThFor(c)) :
             LET ev == HonestEst("icp", 0, a, S, kt, nt, c) IN
             /\ Offer("controller", ev, TRUE)
             /\ genuine' = IF Wild THEN Append(genuine, ev) ELSE genuine
          /\ UNCHANGED gen
Rotate == /\ ks.has /\ mine /\ ks.digs # <<>> /\ SnInt(ks.sn) < MaxSn
          /\ \E a \in Pick(Arrangements(gen + 1)), c \in Pick(Commitments(gen + 1)), S \in Pick(Subsets(KeysPer)) :
             \E nt \in Pick(ThFor(c)), kt \in Pick(Thresholds) :
             LET ev == HonestEst("rot", gen + 1, a, S, kt, nt, c) IN
             /\ Offer("controller", ev, TRUE)
             /\ genuine' = IF Wild THEN Append(genuine, ev) ELSE genuine
             /\ gen' = IF ks'.said = New /\ ks' # ks THEN gen + 1 ELSE gen
Interact == /\ ks.has /\ mine /\ SnInt(ks.sn) < MaxSn
            /\ \E S \in (IF Rarely THEN Pick(SUBSET (1..Len(ks.keys))) ELSE {1..Len(ks.keys)}) :
               LET q == SetSeq(S)
                   ev == [t |-> "ixn", pre |-> ks.pre, own |-> TRUE, intact |-> TRUE, sn |-> K!SnNext(ks.sn),
                          prior |-> ks.said, said |-> New, keys |-> <<>>, kt |-> Num(1), digs |-> <<>>, nt |-> Num(0),
                          sigs |-> [i \in 1..Len(q) |-> Sig(ks.keys[q[i]], q[i] - 1, q[i] - 1, i % 2 = 0, New)]] IN
               /\ Offer("controller", ev, TRUE)
               /\ genuine' = IF Wild THEN Append(genuine, ev) ELSE genuine
            /\ UNCHANGED gen

(********************************* the thief *******************************)
Has_ == known \cup Thief
Range_(s) == {s[i] : i \in 1..Len(s)}
Stealable == IF ~ks.has THEN {} ELSE
             CASE Steal = "none"    -> {}
               [] Steal = "old"     -> {<<g, i>> : g \in 0..(gen - 1), i \in 1..KeysPer} \ Range_(ks.keys)
               [] Steal = "current" -> {<<g, i>> : g \in 0..gen, i \in 1..KeysPer} \ Range_(ks.digs)
               [] OTHER             -> {<<g, i>> : g \in 0..(gen + 1), i \in 1..KeysPer}
Thieve == /\ thefts < MaxThefts /\ ks.has
          /\ \E k \in (IF Stealable \subseteq known THEN {} ELSE Pick(Stealable \ known)) :
               known' = known \cup (IF Recording THEN {k, RandomElement(Stealable)} ELSE {k})
          /\ thefts' = thefts + 1
          /\ last' = [who |-> "none", ok |-> FALSE]
          /\ UNCHANGED <<ks, gen, mine, offers, genuine, hist>>

\* signatures the thief can attach to an event it made up: at each place its own key's, a stolen key's,
\* or one over something else; or none
SigChoices(n) ==
  {<<>>} \cup
  {<<Sig(k, i, o, b, New)>> : k \in Has_, i \in 0..(n - 1), o \in 0..(KeysPer - 1), b \in BOOLEAN} \cup
  (IF n < 2 THEN {} ELSE
   {<<Sig(k1, 0, o, b, New), Sig(k2, i, 1 - o, b, New)>> : k1, k2 \in Has_, i \in {0, 1}, o \in {0, 1}, b \in BOOLEAN})
\* what the thief signs may not be what the event's digest is of
Wholes == IF Wild THEN BOOLEAN ELSE {TRUE}
KeyLists == {[i \in 1..KeysPer |-> <<Own, i>>], GenKeys(gen), GenKeys(gen + 1)}
            \cup {<<k>> : k \in Has_}
            \cup (IF ks.has THEN {<<<<Own, 1>>>> \o ks.digs} ELSE {})
ForgeRot == /\ Rarely /\ ks.has /\ ks.digs # <<>> /\ SnInt(ks.sn) < MaxSn
            /\ \E list \in Pick(KeyLists), sg \in Pick(SigChoices(KeysPer)), kt \in Pick({Num(1), Num(2)}), whole \in Pick(Wholes) :
               Offer("thief",
                 [t |-> "rot", pre |-> ks.pre, own |-> TRUE, intact |-> whole, sn |-> K!SnNext(ks.sn), prior |-> ks.said,
                  said |-> New, keys |-> list, kt |-> kt, digs |-> [i \in 1..KeysPer |-> <<Own, i>>], nt |-> Num(1),
                  sigs |-> sg], FALSE)
            /\ UNCHANGED <<gen, genuine>>
ForgeIxn == /\ Rarely /\ ks.has /\ SnInt(ks.sn) < MaxSn
            /\ \E sg \in Pick(SigChoices(KeysPer)), whole \in Pick(Wholes) :
               Offer("thief",
                 [t |-> "ixn", pre |-> ks.pre, own |-> TRUE, intact |-> whole, sn |-> K!SnNext(ks.sn), prior |-> ks.said,
                  said |-> New, keys |-> <<>>, kt |-> Num(1), digs |-> <<>>, nt |-> Num(0), sigs |-> sg], FALSE)
            /\ UNCHANGED <<gen, genuine>>
\* every key the thief has, where it belongs
ForgeWell == /\ Rarely /\ ks.has /\ SnInt(ks.sn) < MaxSn
             /\ \E rot \in Pick(IF ks.digs = <<>> THEN {FALSE} ELSE BOOLEAN), whole \in Pick(BOOLEAN),
                   off \in Pick(IF RandomElement(BOOLEAN) /\ Recording THEN {""} ELSE {"", "sn", "late", "prior", "pre"}) :
                LET list == IF rot THEN ks.digs ELSE ks.keys
                    q == SetSeq({i \in 1..Len(list) : list[i] \in Has_})
                IN \E kt \in Pick({Num(1), Num(IF q = <<>> THEN 1 ELSE Len(q))}) :
                   Offer("thief",
                     [t |-> IF rot THEN "rot" ELSE "ixn", pre |-> IF off = "pre" THEN 0 ELSE ks.pre, own |-> TRUE, intact |-> whole,
                      sn |-> CASE off = "sn" -> ks.sn [] off = "late" -> K!SnNext(K!SnNext(ks.sn)) [] OTHER -> K!SnNext(ks.sn),
                      prior |-> IF off = "prior" THEN 0 ELSE ks.said, said |-> New, keys |-> IF rot THEN list ELSE <<>>, kt |-> kt,
                      digs |-> IF rot THEN [i \in 1..KeysPer |-> <<Own, i>>] ELSE <<>>, nt |-> IF rot THEN Num(1) ELSE Num(0),
                      sigs |-> [i \in 1..Len(q) |-> Sig(list[q[i]], q[i] - 1, q[i] - 1, rot, New)]], FALSE)
             /\ UNCHANGED <<gen, genuine>>
\* an inception for an identifier that already has one, or for one the thief does not derive
ForgeIcp == /\ Rarely
            /\ ks.has \/ (Wild /\ offers = 0)
            /\ \E own \in Pick(IF ks.has THEN BOOLEAN ELSE {FALSE}) :
               Offer("thief",
                 [t |-> "icp", pre |-> IF own THEN New ELSE IF ks.has THEN ks.pre ELSE 0, own |-> own, intact |-> TRUE, sn |-> <<>>, prior |-> 0,
                  said |-> New, keys |-> <<<<Own, 1>>>>, kt |-> Num(1), digs |-> <<<<Own, 2>>>>, nt |-> Num(1),
                  sigs |-> <<Sig(<<Own, 1>>, 0, 0, TRUE, New)>>], FALSE)
            /\ UNCHANGED <<gen, genuine>>
\* genuine events once more, with something changed that their signatures were for, or out of place
Garble(ev, how, n) ==
  CASE how = "again"   -> ev
    [] how = "altered" -> [ev EXCEPT !.intact = FALSE]
    [] how = "resaid"  -> [ev EXCEPT !.said = n]                     \* altered, and identified afresh
    [] how = "sn"      -> [ev EXCEPT !.said = n, !.sn = K!SnNext(ev.sn)]
    [] how = "prior"   -> [ev EXCEPT !.said = n, !.prior = IF ks.has THEN ks.said ELSE 0, !.sn = IF ks.has THEN K!SnNext(ks.sn) ELSE <<>>]
    [] how = "nosigs"  -> [ev EXCEPT !.sigs = <<>>]
    [] how = "onesig"  -> [ev EXCEPT !.sigs = IF @ = <<>> THEN @ ELSE <<@[1]>>]
    [] how = "twice"   -> [ev EXCEPT !.sigs = IF @ = <<>> THEN @ ELSE [i \in 1..Len(@) |-> @[1]]]
    [] how = "shift"   -> [ev EXCEPT !.sigs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.index = @ + 1]]]
    [] OTHER           -> [ev EXCEPT !.sigs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ondex = @ + 1]]]
Hows == {"again", "altered", "resaid", "sn", "prior", "nosigs", "onesig", "twice", "shift", "reondex"}
\* what the controller would send next, garbled on its way, so that the reader meets it in place
Intercept == /\ Rarely /\ Wild /\ ks.has /\ mine /\ SnInt(ks.sn) < MaxSn
             /\ \E a \in (IF ks.digs = <<>> THEN {} ELSE Pick(Arrangements(gen + 1))), how \in Pick(Hows \ {"again"}),
                   kt \in Pick(Thresholds), nt \in Pick(Thresholds) :
                LET ev == HonestEst("rot", gen + 1, a, 1..KeysPer, kt, nt, GenKeys(gen + 2)) IN
                Offer("thief", Garble(ev, how, New + 1000), how \notin {"altered", "resaid", "sn", "prior"})
             /\ gen' = IF ks' # ks THEN gen + 1 ELSE gen
             /\ UNCHANGED genuine
Repeat == /\ Rarely /\ Wild /\ genuine # <<>>
          /\ \E i \in Pick(1..Len(genuine)), how \in Pick(Hows) : Offer("thief", Garble(genuine[i], how, New), how \notin {"altered", "resaid", "sn", "prior"})
          /\ UNCHANGED <<gen, genuine>>

Finish == /\ Recording /\ offers = MaxOffers /\ TLCSet(1, Append(TLCGet(1), [h |-> hist]))
          /\ offers' = offers + 1
          /\ UNCHANGED <<ks, gen, mine, known, thefts, genuine, last, hist>>
Next == Finish \/ Incept \/ Rotate \/ Interact \/ Thieve \/ ForgeRot \/ ForgeIxn \/ ForgeWell \/ ForgeIcp \/ Intercept \/ Repeat
Spec == Init /\ [][Next]_vars

(******************************** guarantees *******************************)
\* only who holds enough of the committed keys establishes new ones
Control == last.ok /\ ~last.honest /\ last.t = "rot" => last.had.next
\* only who holds enough of the keys in force speaks for the identifier
Voice == last.ok /\ ~last.honest /\ last.t = "ixn" => last.had.cur
\* an identifier has one inception, and its own
OneInception == last.ok /\ ~last.honest => last.t # "icp"
\* a log is a line: every accepted event is the next one after the last
Line == last.ok => last.follows /\ last.whole
Counted == ~Recording /\ ks.has => SnInt(ks.sn) = offers - 1
\* stealing what was never committed for later never costs the controller the log
Safe == Steal \in {"none", "old"} => mine
Recoverable == Steal = "current" => (ks.has => \A i \in 1..Len(ks.digs) : ks.digs[i] \notin known)
Committed == ks.has => K!Fits(ks.kt, Len(ks.keys)) /\ K!Fits(ks.nt, Len(ks.digs))

\* histories to be replayed on the real code
ASSUME TLCSet(1, <<>>)
Written == Recording => ndJsonSerialize(IOEnv.KOUT, TLCGet(1))
=============================================================================
