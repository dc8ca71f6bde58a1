----------------------------- MODULE TraceOracle ----------------------------
(***************************************************************************)
(* Trace validation with cryptographic algorithms left uninterpreted.  In  *)
(* a first pass (KPASS = 1) TLC writes, for every event, the applications  *)
(* of algorithms the specification needs to judge it; their values are     *)
(* computed independently of the implementation and attached to the event  *)
(* (field h); the second pass validates.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Accepts(_), Needs(_)

Trace == ndJsonDeserialize(IOEnv.KTRACE)
Stride == atoi(IOEnv.KCHUNK)
Gather == IOEnv.KPASS = "1"

\* the value of an application: kind, algorithm, argument
Applied(e, kind, code, arg) ==
  LET i == CHOOSE i \in 1..Len(e.h) : e.h[i].k = kind /\ e.h[i].c = code /\ e.h[i].p = arg
  IN e.h[i].d
Need(kind, code, arg) == [k |-> kind, c |-> code, p |-> arg]

VARIABLE l
TraceInit == l \in {k \in 1..Len(Trace) : (k - 1) % Stride = 0}
TraceNext == /\ l <= Len(Trace)
             /\ IF Gather
                THEN LET n == Needs(Trace[l]) IN
                     IF n = <<>> THEN TRUE ELSE ndJsonSerialize(IOEnv.KNEED \o ToString(l), n)
                ELSE IF Accepts(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceConsumed == TLCGet("stats").distinct = Len(Trace) + 1
=============================================================================
