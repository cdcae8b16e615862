------------------------------ MODULE LruTrace ------------------------------
(* Are recorded single-reader histories behaviours of Lru?  Event: [b, fetch, ok]. *)
(* A failed read leaves a hole that a later success of the same block may fill.      *)
EXTENDS Lru, Json

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES t, i
Init == t \in 1..Len(Traces) /\ i = 0 /\ held = <<>>

E == Traces[t].ev[i + 1]
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1 /\ t' = t
        /\ IF E.fetch = 0 THEN E.ok /\ Hit(E.b)
           ELSE E.fetch = 1 /\ IF E.ok THEN Fetch(E.b) ELSE FetchFails(E.b)
Spec == Init /\ [][Next]_<<held, t, i>>
Progress == PrintT("REACH " \o ToString(t) \o " " \o ToString(i)) /\ Bounded
=============================================================================
