--------------------------- MODULE ReadAheadTrace ---------------------------
(* Are recorded histories of controllers behaviours of ReadAhead?  Events:          *)
(*   [e |-> "read", o, off, n, s (blocks triggered)]   [e |-> "done", o, k]           *)
EXTENDS ReadAhead

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i
Ev == Traces[t].ev[i + 1]
Range(s) == {s[x] : x \in DOMAIN s}

TInit == Init /\ t \in 1..Len(Traces) /\ i = 0
TNext == /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t
         /\ IF Ev.e = "read"
            THEN Read(Ev.o, Ev.off, Ev.n, Range(Ev.s)) /\ Cardinality(Range(Ev.s)) = Len(Ev.s) /\ UNCHANGED hist
            ELSE \E f \in flight : f[1] = Ev.o /\ f[2] = Ev.k /\ Fetched(f) /\ UNCHANGED hist
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
Progress == PrintT("REACH " \o ToString(t) \o " " \o ToString(i)) /\ Budget
=============================================================================
