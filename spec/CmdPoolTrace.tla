---------------------------- MODULE CmdPoolTrace ----------------------------
(* Are recorded histories of the real pool behaviours of CmdPool? *)
EXTENDS CmdPool
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i
Ev == Traces[t].ev[i + 1]
TInit == Init /\ t \in 1..Len(Traces) /\ i = 0
(* Responses and ends of outputs are recorded by the receiver, perhaps only after the worker went on or the pool stopped. *)
TStart(c, b) == /\ status[c] = "submitted" /\ stop # "done"
                /\ Cardinality(Being("handling")) < Traces[t].workers
                /\ \A x \in Being("handling") : buf[x] # b
                /\ status' = [status EXCEPT ![c] = "handling"] /\ buf' = [buf EXCEPT ![c] = b]
                /\ UNCHANGED <<ended, closed, stop>>
TClose(d) == /\ d \in ended \ closed /\ \A c \in Of(d) : status[c] \in {"none", "delivered"}
             /\ closed' = closed \cup {d} /\ UNCHANGED <<status, ended, stop, buf>>
TStopped == stop = "asked" /\ Being("handling") = {} /\ stop' = "done" /\ UNCHANGED <<status, ended, closed, buf>>
TNext == /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t /\ UNCHANGED hist
         /\ CASE Ev.e = "submit" -> Submit(Ev.c)
              [] Ev.e = "start" -> TStart(Ev.c, Ev.b)
              [] Ev.e = "finish" -> Finish(Ev.c)
              [] Ev.e = "response" -> DevOf(Ev.c) = Ev.d /\ Deliver(Ev.c)
              [] Ev.e = "end" -> End(Ev.d)
              [] Ev.e = "closed" -> TClose(Ev.d)
              [] Ev.e = "stop" -> stop = "no" /\ stop' = "asked" /\ UNCHANGED <<status, ended, closed, buf>>
              [] Ev.e = "stopped" -> TStopped
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
Progress == PrintT("REACH " \o ToString(t) \o " " \o ToString(i)) /\ ClosedAfter
=============================================================================
