-------------------------- MODULE RoundRobinTrace --------------------------
(* Are recorded sequences of (host, address) behaviours of RoundRobin?  a = 0: refused. *)
EXTENDS RoundRobin
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i
Ev == Traces[t].ev[i + 1]
TInit == Init /\ t \in 1..Len(Traces) /\ i = 0
TNext == /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t /\ UNCHANGED hist
         /\ IF Ev.a = 0 THEN Refused(Ev.h) ELSE Request(Ev.h, Ev.a)
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
Progress == PrintT("REACH " \o ToString(t) \o " " \o ToString(i))
=============================================================================
