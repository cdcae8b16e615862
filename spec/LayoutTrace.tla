---------------------------- MODULE LayoutTrace ----------------------------
(* Judges recorded volumes: traces.ndjson holds one per line. *)
EXTENDS Layout, TLC, Json

Vols == ndJsonDeserialize("traces.ndjson")

VARIABLES i, done
Init == i \in 1..Len(Vols) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i    \* lets the workers judge in parallel
Spec == Init /\ [][Next]_<<i, done>>

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

Emit == done => PrintT("VERDICT " \o ToJson([i |-> i, broken |-> SetSeq(Broken(Vols[i]))]))
=============================================================================
