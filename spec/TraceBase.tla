------------------------------ MODULE TraceBase -----------------------------
(***************************************************************************)
(* Validation of a recorded trace of independent calls.  A state is the    *)
(* position in the trace; the trace is entered at several positions so     *)
(* that TLC's workers share it, and every event is consumed exactly once   *)
(* because positions are states.  An event the specification does not      *)
(* allow is reported and passed over so that the rest is still judged.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Accepts(_)

Trace == ndJsonDeserialize(IOEnv.KTRACE)
Stride == atoi(IOEnv.KCHUNK)

VARIABLE l
TraceInit == l \in {k \in 1..Len(Trace) : (k - 1) % Stride = 0}
TraceNext == /\ l <= Len(Trace)
             /\ IF Accepts(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceConsumed == TLCGet("stats").distinct = Len(Trace) + 1
=============================================================================
