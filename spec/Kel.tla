-------------------------------- MODULE Kel ---------------------------------
(***************************************************************************)
(* Who controls an identifier: the key state and the events that may move  *)
(* it.  Used twice: with symbolic keys, digests and events to explore      *)
(* histories with an adversary, and with bytes to judge recorded replays.  *)
(*                                                                         *)
(* An event carries its signatures as [index, ondex, both, good]: good     *)
(* says that it is the index'th listed key's signature on this very event, *)
(* both that it may also speak for the ondex'th commitment made before.    *)
(***************************************************************************)
EXTENDS Msg
CONSTANT Commits(_, _, _)     \* Commits(env, digest, key): the commitment is to that key

NoState == [has |-> FALSE]
SnNext(sn) == Strip(MulAdd(sn, 1, 1))
Good(ev, n) == {i \in 1..Len(ev.sigs) : ev.sigs[i].good /\ ev.sigs[i].index < n}
Signers(ev, n) == {ev.sigs[i].index : i \in Good(ev, n)}
Exposed(env, ks, ev) ==
  {ev.sigs[i].ondex : i \in {i \in Good(ev, Len(ev.keys)) :
      /\ ev.sigs[i].both /\ ev.sigs[i].ondex < Len(ks.digs)
      /\ Commits(env, ks.digs[ev.sigs[i].ondex + 1], ev.keys[ev.sigs[i].index + 1])}}
Enough(t, S) == S # {} /\ SatSet(t, S)
Fits(t, n) == IF t.w THEN SizeOf(t) <= n ELSE Len(t.n) <= 3 /\ IntOfBytes(t.n) <= n

Continues(ks, ev) == /\ ks.has /\ ks.digs # <<>>
                     /\ ev.pre = ks.pre /\ ev.sn = SnNext(ks.sn) /\ ev.prior = ks.said
Establishes(ev) == /\ ev.keys # <<>> /\ Fits(ev.kt, Len(ev.keys)) /\ Fits(ev.nt, Len(ev.digs))
                   /\ Enough(ev.kt, Signers(ev, Len(ev.keys)))

Accepts_(env, ks, ev) ==
  CASE ev.t = "icp" -> /\ ~ks.has /\ ev.sn = <<>> /\ ev.own /\ ev.intact
                       /\ Establishes(ev)
    [] ev.t = "rot" -> IF ~ks.has THEN FALSE ELSE
                       /\ Continues(ks, ev) /\ ev.intact
                       /\ Establishes(ev)
                       /\ Enough(ks.nt, Exposed(env, ks, ev))
    [] ev.t = "ixn" -> IF ~ks.has THEN FALSE ELSE
                       /\ Continues(ks, ev) /\ ev.intact
                       /\ Enough(ks.kt, Signers(ev, Len(ks.keys)))
    [] OTHER -> FALSE
After(ks, ev) ==
  IF ev.t = "ixn" THEN [ks EXCEPT !.sn = ev.sn, !.said = ev.said]
  ELSE [has |-> TRUE, pre |-> ev.pre, sn |-> ev.sn, said |-> ev.said, keys |-> ev.keys, kt |-> ev.kt,
        digs |-> ev.digs, nt |-> ev.nt]
=============================================================================
