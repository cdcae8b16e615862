------------------------------ MODULE CmdPool ------------------------------
(* The pool of workers behind the block devices.  Devices submit commands, which wait  *)
(* until a worker handles them with its own buffer; responses go to the device.  A       *)
(* device's input may end and the pool may be stopped at any time.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NumDev, PerDev, Workers, WithStop

Devs == 1..NumDev
Cmds == 1..(NumDev * PerDev)
DevOf(c) == ((c - 1) \div PerDev) + 1
VARIABLES status, ended, closed, stop, buf, hist
vars == <<status, ended, closed, stop, buf, hist>>
View == <<status, ended, closed, stop, buf>>

Being(s) == {c \in Cmds : status[c] = s}
Of(d) == {c \in Cmds : DevOf(c) = d}
Init == /\ status = [c \in Cmds |-> "none"] /\ ended = {} /\ closed = {} /\ stop = "no"
        /\ buf = [c \in Cmds |-> 0] /\ hist = <<>>

Submit(c) == /\ status[c] = "none" /\ DevOf(c) \notin ended /\ stop = "no"
             /\ status' = [status EXCEPT ![c] = "submitted"]
             /\ UNCHANGED <<ended, closed, stop, buf>>
Start(c, b) == /\ status[c] = "submitted" /\ stop # "done"
               /\ Cardinality(Being("handling") \cup Being("answered")) < Workers
               /\ \A x \in Being("handling") : buf[x] # b
               /\ status' = [status EXCEPT ![c] = "handling"] /\ buf' = [buf EXCEPT ![c] = b]
               /\ UNCHANGED <<ended, closed, stop>>
Finish(c) == /\ status[c] = "handling" /\ status' = [status EXCEPT ![c] = "answered"]
             /\ UNCHANGED <<ended, closed, stop, buf>>
Deliver(c) == /\ status[c] = "answered" /\ status' = [status EXCEPT ![c] = "delivered"]
              /\ UNCHANGED <<ended, closed, stop, buf>>
End(d) == /\ d \notin ended /\ stop = "no" /\ ended' = ended \cup {d} /\ UNCHANGED <<status, closed, stop, buf>>
CloseOut(d) == /\ d \in ended \ closed /\ stop # "done"
               /\ \A c \in Of(d) : status[c] \in {"none", "delivered"}
               /\ closed' = closed \cup {d} /\ UNCHANGED <<status, ended, stop, buf>>
Stop == /\ WithStop /\ stop = "no" /\ stop' = "asked" /\ UNCHANGED <<status, ended, closed, buf>>
Stopped == /\ stop = "asked" /\ Being("handling") = {} /\ Being("answered") = {}
           /\ stop' = "done" /\ UNCHANGED <<status, ended, closed, buf>>

Bufs == 1..Workers
Internal == (\E c \in Cmds, b \in Bufs : Start(c, b)) \/ (\E c \in Cmds : Deliver(c)) \/ (\E d \in Devs : CloseOut(d)) \/ Stopped
Next == /\ Internal \/ (\E c \in Cmds : Submit(c) \/ Finish(c)) \/ (\E d \in Devs : End(d)) \/ Stop
        /\ UNCHANGED hist
Fair == WF_vars(Internal /\ UNCHANGED hist) /\ \A c \in Cmds : WF_vars(Finish(c) /\ UNCHANGED hist)
Spec == Init /\ [][Next]_vars /\ Fair

AtMost == Cardinality(Being("handling")) <= Workers
OwnBuffer == \A x, y \in Being("handling") : x # y => buf[x] # buf[y]
ClosedAfter == \A d \in closed : \A c \in Of(d) : status[c] \in {"none", "delivered"}
NothingRuns == stop = "done" => Being("handling") = {} /\ Being("answered") = {}
Answered == \A c \in Cmds : status[c] = "submitted" ~> (status[c] = "delivered" \/ stop # "no")
Handled == \A c \in Cmds : status[c] = "handling" ~> status[c] = "delivered"
Ends == \A d \in Devs : d \in ended ~> (d \in closed \/ stop # "no")
StopEnds == stop = "asked" ~> stop = "done"

(* schedules: what the environment does once the pool has come to rest *)
Oldest(S) == CHOOSE c \in S : \A x \in S : c <= x
GInternal == LET W == Being("submitted")
                 free == {b \in Bufs : \A x \in Being("handling") : buf[x] # b} IN
             IF Being("answered") # {} THEN Deliver(Oldest(Being("answered")))
             ELSE IF stop = "no" /\ W # {} /\ free # {} THEN Start(Oldest(W), Oldest(free))
             ELSE \E d \in {x \in ended \ closed : stop = "no" /\ \A c \in Of(x) : status[c] \in {"none", "delivered"}} : CloseOut(d)
Rank(c) == Cardinality({x \in Being("handling") : x <= c})
GNext == \/ GInternal /\ UNCHANGED hist
         \/ /\ ~ENABLED GInternal /\ stop = "no"
            /\ \/ \E d \in Devs : LET N == {c \in Of(d) : status[c] = "none"} IN
                    N # {} /\ Submit(Oldest(N)) /\ hist' = Append(hist, [e |-> "submit", d |-> d, k |-> 0])
               \/ \E c \in Being("handling") : Finish(c) /\ hist' = Append(hist, [e |-> "finish", d |-> 0, k |-> Rank(c)])
               \/ \E d \in Devs : (Of(d) \cap Being("none") = {} \/ Len(hist) > NumDev * PerDev) /\ End(d) /\ hist' = Append(hist, [e |-> "end", d |-> d, k |-> 0])
               \/ (Len(hist) > 2 /\ Stop /\ hist' = Append(hist, [e |-> "stop", d |-> 0, k |-> 0]))
GSpec == Init /\ [][GNext]_vars
Emit == (~ENABLED GNext) => PrintT("TRACE " \o ToJson([steps |-> hist]))
=============================================================================
