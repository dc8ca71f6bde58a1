-------------------------------- MODULE Book --------------------------------
(***************************************************************************)
(* Many logs at once: what each identifier's log seals, the identifiers    *)
(* delegated by such seals, the witnesses an identifier names, the         *)
(* registries it runs and the credentials these list.  Used twice, like    *)
(* Kel: with symbols to explore histories, with bytes to judge replays.    *)
(*                                                                         *)
(* A book is [kels, regs, creds, held]: functions from identifiers to key  *)
(* states, from registries to who runs them, from registry and credential  *)
(* to the last event about it, and from credentials shown to what they say.*)
(*                                                                         *)
(* A key event is one of Kel's and                                         *)
(*   [snt, wits or cuts and adds, toad, wsigs, seals, sources, di]         *)
(* wsigs: who as a place in the witness list, good: its signature on this  *)
(* very event.  seals: what it seals.  sources: which events it says it    *)
(* is sealed by.                                                           *)
(***************************************************************************)
EXTENDS Kel

Blank_ == [x \in {} |-> 0]
NoBook == [kels |-> Blank_, regs |-> Blank_, creds |-> Blank_, held |-> Blank_]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
KelOf(bk, pre) == IF pre \in DOMAIN bk.kels THEN bk.kels[pre] ELSE NoState

(******************************** witnesses ********************************)
Different(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Among(x, s) == \E i \in 1..Len(s) : s[i] = x
\* the witnesses after an event; [ok |-> FALSE]: it names them wrongly
WitsAfter(ks, ev) ==
  IF ev.t \in {"icp", "dip"} THEN [ok |-> Different(ev.wits), v |-> ev.wits] ELSE
  IF ev.t = "ixn" THEN [ok |-> TRUE, v |-> ks.wits] ELSE
  LET rest == SelectSeq(ks.wits, LAMBDA w : ~Among(w, ev.cuts))
      v == rest \o ev.adds IN
  [ok |-> /\ Different(ev.cuts) /\ \A i \in 1..Len(ev.cuts) : Among(ev.cuts[i], ks.wits)
          /\ \A i \in 1..Len(ev.adds) : ~Among(ev.adds[i], ks.wits)
          /\ Different(v),
   v |-> v]
ToadAfter(ks, ev) == IF ev.t = "ixn" THEN ks.toad ELSE ev.toad
ToadFits(toad, n) == /\ Len(toad) <= 3
                     /\ IntOfBytes(toad) <= n
                     /\ n > 0 => toad # <<>>
Witnessing(ev, n) == {ev.wsigs[i].who : i \in {i \in 1..Len(ev.wsigs) : ev.wsigs[i].good /\ ev.wsigs[i].who < n}}
Witnessed(ks, ev) ==
  LET w == WitsAfter(ks, ev) toad == ToadAfter(ks, ev) IN
  w.ok /\ ToadFits(toad, Len(w.v)) /\ Cardinality(Witnessing(ev, Len(w.v))) >= IntOfBytes(toad)

(********************************** seals **********************************)
\* an accepted event of that log, named by the event as its source, seals it
Sealed(bk, by, ev) ==
  /\ by \in DOMAIN bk.kels
  /\ LET log == bk.kels[by].log IN
     \E q \in 1..Len(ev.sources), e \in 1..Len(log) :
       /\ log[e].sn = ev.sources[q].sn /\ log[e].said = ev.sources[q].said
       /\ \E k \in 1..Len(log[e].seals) : log[e].seals[k] = [i |-> ev.pre, s |-> ev.snt, d |-> ev.said]

(******************************** key events *******************************)
Plain(t) == CASE t = "dip" -> "icp" [] t = "drt" -> "rot" [] OTHER -> t
KeyTypes == {"icp", "rot", "ixn", "dip", "drt"}
TakesKey(env, bk, ev) ==
  LET ks == KelOf(bk, ev.pre) pl == [ev EXCEPT !.t = Plain(@)] IN
  /\ Accepts_(env, ks, pl)
  /\ Witnessed(ks, ev)
  /\ CASE ev.t = "dip" -> Sealed(bk, ev.di, ev)
       [] ev.t = "drt" -> IF ks.del = <<>> THEN FALSE ELSE Sealed(bk, ks.del[1], ev)
       [] ev.t = "rot" -> ks.del = <<>>
       [] OTHER -> TRUE
KeyAfter(bk, ev) ==
  LET ks == KelOf(bk, ev.pre)
      pl == [ev EXCEPT !.t = Plain(@)]
      core == After(ks, pl)
      entry == [sn |-> ev.sn, said |-> ev.said, seals |-> ev.seals] IN
  With(bk.kels, ev.pre,
    [has |-> TRUE, pre |-> core.pre, sn |-> core.sn, said |-> core.said, keys |-> core.keys, kt |-> core.kt,
     digs |-> core.digs, nt |-> core.nt, wits |-> WitsAfter(ks, ev).v, toad |-> ToadAfter(ks, ev),
     del |-> CASE ev.t = "dip" -> <<ev.di>> [] ev.t = "icp" -> <<>> [] OTHER -> ks.del,
     log |-> IF ks.has THEN Append(ks.log, entry) ELSE <<entry>>])

(************************ registries and credentials ***********************)
One_ == <<1>>
TakesReg(bk, ev) ==
  CASE ev.t = "vcp" -> ev.sn = <<>> /\ ev.own /\ ev.pre \notin DOMAIN bk.regs /\ Sealed(bk, ev.ii, ev)
    [] ev.t = "iss" -> /\ ev.ri \in DOMAIN bk.regs /\ ev.intact /\ ev.sn = <<>>
                       /\ <<ev.ri, ev.pre>> \notin DOMAIN bk.creds
                       /\ Sealed(bk, bk.regs[ev.ri], ev)
    [] ev.t = "rev" -> IF ev.ri \notin DOMAIN bk.regs THEN FALSE ELSE
                       IF <<ev.ri, ev.pre>> \notin DOMAIN bk.creds THEN FALSE ELSE
                       LET c == bk.creds[<<ev.ri, ev.pre>>] IN
                       ev.intact /\ ev.sn = One_ /\ ~c.rev /\ ev.prior = c.said /\ Sealed(bk, bk.regs[ev.ri], ev)
    [] OTHER -> FALSE
Issued(bk, ri, said) == IF <<ri, said>> \in DOMAIN bk.creds THEN ~bk.creds[<<ri, said>>].rev ELSE FALSE
\* a credential shown stands while it and all it is chained to are issued and not revoked
RECURSIVE Stands(_, _)
Stands(bk, said) ==
  IF said \notin DOMAIN bk.held THEN FALSE ELSE
  LET h == bk.held[said] IN
  Issued(bk, h.ri, said) /\ \A k \in 1..Len(h.edges) : Stands(bk, h.edges[k])
TakesCred(bk, c) ==
  /\ c.intact /\ c.said \notin DOMAIN bk.held
  /\ IF c.ri \in DOMAIN bk.regs THEN bk.regs[c.ri] = c.issuer ELSE FALSE
  /\ Issued(bk, c.ri, c.said)
  /\ \A k \in 1..Len(c.edges) : Stands(bk, c.edges[k]) /\ bk.held[c.edges[k]].subject = c.issuer
Standing(bk) == {s \in DOMAIN bk.held : Stands(bk, s)}

(******************************** the reader *******************************)
Takes(env, bk, ev) == CASE ev.t \in KeyTypes -> TakesKey(env, bk, ev)
                        [] ev.t = "acdc" -> TakesCred(bk, ev)
                        [] OTHER -> TakesReg(bk, ev)
Turned(bk, ev) ==
  CASE ev.t \in KeyTypes -> [bk EXCEPT !.kels = KeyAfter(bk, ev)]
    [] ev.t = "vcp" -> [bk EXCEPT !.regs = With(@, ev.pre, ev.ii)]
    [] ev.t \in {"iss", "rev"} -> [bk EXCEPT !.creds = With(@, <<ev.ri, ev.pre>>, [rev |-> ev.t = "rev", said |-> ev.said])]
    [] OTHER -> [bk EXCEPT !.held = With(@, ev.said, [issuer |-> ev.issuer, subject |-> ev.subject, ri |-> ev.ri, edges |-> ev.edges])]
=============================================================================
