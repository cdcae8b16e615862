----------------------------- MODULE LocksTrace -----------------------------
(* Are recorded histories of real contenders behaviours of Locks?  Events:          *)
(*   request(c, k, l), got(c), release(c), die(c), in the order they are known.       *)
EXTENDS Locks
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i
Ev == Traces[t].ev[i + 1]
TInit == Init /\ t \in 1..Len(Traces) /\ i = 0
TNext == /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t /\ UNCHANGED hist
         /\ CASE Ev.e = "request" -> Request(Ev.c, Ev.k, Ev.l)
              [] Ev.e = "got" -> Grant(Ev.c)
              [] Ev.e = "release" -> Release(Ev.c)
              [] Ev.e = "die" -> Die(Ev.c)
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
Progress == PrintT("REACH " \o ToString(t) \o " " \o ToString(i)) /\ Exclusive
=============================================================================
