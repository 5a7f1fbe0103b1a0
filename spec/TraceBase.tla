----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification.  IOEnv.TRACES is an ndjson file with one recorded     *)
(* trace (an array of events) per line.  tid picks the trace, l is the index of the next event.    *)
(* A trace is accepted iff some behaviour consumes all of its events; the furthest event reached   *)
(* for each trace is written to IOEnv.OUT, where the driver compares it with the trace's length.   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

NTraces == Len(Traces)
More    == l <= Len(Traces[tid])
Ev      == Traces[tid][l]
Is(e)   == More /\ Ev.e = e
Advance == l' = l + 1 /\ UNCHANGED tid
TBInit  == tid \in 1..NTraces /\ l = 1

Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Post     == JsonSerialize(IOEnv.OUT, [i \in 1..NTraces |-> TLCGet(i)])
=============================================================================
